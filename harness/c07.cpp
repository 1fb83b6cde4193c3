#include "h.h"
#include "OpenBitSet.h"
#include "OpenBitSetIterator.h"
#include "OpenBitSetDISI.h"
#include "BitUtil.h"
#include "SortedVIntList.h"
#include "DocIdSetIterator.h"
#include <bitset>
using namespace Lucene;
typedef std::set<int64_t> S;
static int64_t idx(int lim) { switch (H::rnd(5)) { case 0: return H::rnd(lim); case 1: return (64 * (int64_t)H::rnd(lim / 64 + 1) + (int64_t)H::rnd(3)) % lim; case 2: return (64 * (int64_t)H::rnd(lim / 64 + 1) + 63) % lim; case 3: return H::rnd(70); default: return H::rnd(lim); } }
static void same(const OpenBitSetPtr& o, const S& s, const char* w, int lim = 3000) {
    REQUIRE(o->cardinality() == (int64_t)s.size(), w, ": cardinality ", o->cardinality(), " want ", s.size());
    REQUIRE(o->isEmpty() == s.empty(), w, ": isEmpty");
    for (int64_t j = 0; j < lim; ++j) { bool b = s.count(j) > 0; REQUIRE(o->get(j) == b && o->get((int32_t)j) == b, w, ": get(", j, ") want ", b); }
    int64_t p = 0; for (int64_t x : s) { int64_t q = p; REQUIRE(o->nextSetBit(q) == x && o->nextSetBit((int32_t)q) == x, w, ": nextSetBit(", q, ") is ", o->nextSetBit(q), " want ", x); p = x + 1; }
    REQUIRE(o->nextSetBit(p) == -1 && o->nextSetBit((int32_t)p) == -1, w, ": nextSetBit past the last");
    REQUIRE(o->getNumWords() <= o->getBits().size(), w, ": more words in use than allocated");
    for (int k = o->getNumWords(); k < o->getBits().size(); ++k) REQUIRE(o->getBits()[k] == 0, w, ": bits beyond the words in use");
    DocIdSetIteratorPtr it = o->iterator();
    for (int64_t x : s) { int d = it->nextDoc(); REQUIRE(d == x && it->docID() == d, w, ": iteration gives ", d, " want ", x); }
    REQUIRE(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS && it->docID() == DocIdSetIterator::NO_MORE_DOCS, w, ": iteration does not end");
    it = o->iterator(); int cur = -1;
    for (int k = 0; k < 30; ++k) {
        int d; S::const_iterator e;
        if (H::chance(40)) { e = s.upper_bound(cur); d = it->nextDoc(); }
        else { int t = cur + 1 + (H::chance(60) ? H::rnd(80) : H::rnd(1500)); if (cur == DocIdSetIterator::NO_MORE_DOCS) break; e = s.lower_bound(t); d = it->advance(t); }
        int want = e == s.end() ? DocIdSetIterator::NO_MORE_DOCS : (int)*e;
        REQUIRE(d == want && it->docID() == want, w, ": stepping gives ", d, " want ", want, " from ", cur);
        cur = d; if (cur == DocIdSetIterator::NO_MORE_DOCS) { if (H::chance(50)) REQUIRE(it->nextDoc() == cur, w, ": restarts after the end"); break; }
    }
}
static OpenBitSetPtr fresh() { return H::chance(40) ? newLucene<OpenBitSet>() : newLucene<OpenBitSet>((int64_t)idx(1500)); }
static void fill(const OpenBitSetPtr& o, S& s) {
    int mode = H::rnd(4), n = mode == 0 ? H::rnd(5) : mode == 1 ? H::rnd(300) : H::rnd(40);
    for (int i = 0; i < n; ++i) { int64_t x = idx(2500); o->set(x); s.insert(x); }
    if (mode == 3) { int64_t a = idx(2000), b = a + H::rnd(300); o->set(a, b); for (int64_t x = a; x < b; ++x) s.insert(x); }
}
SECTION(ops, 3) {
    OpenBitSetPtr o = fresh(); S s; std::string tr;
    for (int k = 0, n = H::rnd(40); k < n; ++k) {
        int64_t x = idx(2500), y = H::chance(20) ? x : x + (H::chance(50) ? H::rnd(70) : H::rnd(900)); if (H::chance(5)) y = x - (int64_t)H::rnd(10); if (y > 2990) y = 2990;
        int64_t in = 64 * (int64_t)o->getNumWords(); int op = H::rnd(16);
        if (op < 8 && op > 3 && x >= in) op = 0;
        tr += H::str(" ", op, "(", x, ",", y, ")"); H::note(tr);
        auto rng = [&](int m) { for (int64_t j = x; j < y; ++j) { bool h = s.count(j) > 0; bool nv = m == 0 ? true : m == 1 ? false : !h; if (nv) s.insert(j); else s.erase(j); } };
        switch (op) {
        case 0: o->set(x); s.insert(x); break;
        case 1: o->flip(x); if (!s.erase(x)) s.insert(x); break;
        case 2: o->clear(x); s.erase(x); break;
        case 3: { bool h = s.count(x) > 0; if (x < in) { REQUIRE(o->getBit((int32_t)x) == (int)h, "getBit"); } break; }
        case 4: o->fastSet(x); s.insert(x); break;
        case 5: if (H::chance(50)) o->fastClear(x); else o->fastClear((int32_t)x); s.erase(x); break;
        case 6: { bool h = s.count(x) > 0; bool r = H::chance(50) ? o->getAndSet(x) : o->getAndSet((int32_t)x); REQUIRE(r == h, "getAndSet(", x, ")"); s.insert(x); break; }
        case 7: { bool h = s.count(x) > 0; if (H::chance(50)) { bool r = H::chance(50) ? o->flipAndGet(x) : o->flipAndGet((int32_t)x); REQUIRE(r == !h, "flipAndGet(", x, ")"); } else if (H::chance(50)) o->fastFlip(x); else o->fastFlip((int32_t)x); if (h) s.erase(x); else s.insert(x); break; }
        case 8: case 9: o->set(x, y); rng(0); break;
        case 10: if (H::chance(50)) o->clear(x, y); else o->clear((int32_t)x, (int32_t)y); rng(1); break;
        case 11: case 12: o->flip(x, y); rng(2); break;
        case 13: o->trimTrailingZeros(); break;
        case 14: o->ensureCapacity(x); break;
        default: { OpenBitSetPtr c = boost::dynamic_pointer_cast<OpenBitSet>(o->clone()); REQUIRE(c->equals(o) && o->equals(c) && c->hashCode() == o->hashCode(), "clone not equal"); OpenBitSetPtr old = o; o = c; old->set((int64_t)0, (int64_t)200); break; }
        }
    }
    same(o, s, "after operations");
}
SECTION(algebra, 3) {
    OpenBitSetPtr a = fresh(), b = fresh(); S x, y; fill(a, x); fill(b, y);
    if (H::chance(20)) { int64_t k = idx(1000); for (auto i = y.begin(); i != y.end();) if (*i >= k) { b->clear(*i); i = y.erase(i); } else ++i; b->trimTrailingZeros(); }
    if (H::chance(20)) { for (int64_t j : x) { b->set(j); y.insert(j); } }
    H::note(H::str(x.size(), " and ", y.size(), " members, words ", a->getNumWords(), "/", b->getNumWords()));
    S u, n, d, e; std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(u, u.end())); std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(n, n.end()));
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(d, d.end())); std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(e, e.end()));
    REQUIRE(OpenBitSet::intersectionCount(a, b) == (int64_t)n.size(), "intersectionCount"); REQUIRE(OpenBitSet::unionCount(a, b) == (int64_t)u.size(), "unionCount");
    REQUIRE(OpenBitSet::andNotCount(a, b) == (int64_t)d.size(), "andNotCount"); REQUIRE(OpenBitSet::xorCount(a, b) == (int64_t)e.size(), "xorCount");
    REQUIRE(a->intersects(b) == !n.empty() && b->intersects(a) == !n.empty(), "intersects"); REQUIRE(a->equals(b) == (x == y), "equals");
    if (x == y) REQUIRE(a->hashCode() == b->hashCode(), "hash codes of equal sets");
    auto cp = [&](const OpenBitSetPtr& o) { return boost::dynamic_pointer_cast<OpenBitSet>(o->clone()); };
    OpenBitSetPtr c = cp(a); if (H::chance(50)) c->_union(b); else c->_or(b); same(c, u, "union");
    c = cp(a); if (H::chance(50)) c->intersect(b); else c->_and(b); same(c, n, "intersection");
    c = cp(a); if (H::chance(50)) c->remove(b); else c->andNot(b); same(c, d, "difference");
    c = cp(a); c->_xor(b); same(c, e, "symmetric difference");
    c = cp(a); c->_union(c); same(c, x, "union with itself"); c->intersect(c); same(c, x, "intersection with itself"); c->_xor(c); same(c, S(), "difference with itself");
    same(b, y, "other operand");
    // growing after shrinking
    c = cp(a); c->intersect(b); int64_t t = idx(2500); c->set(t); n.insert(t); same(c, n, "set after intersection");
}
SECTION(big, 0.5) {
    OpenBitSetPtr o = newLucene<OpenBitSet>(); S s; for (int i = 0, n = 1 + H::rnd(3); i < n; ++i) { int64_t x = H::rnd(400000000); o->set(x); s.insert(x); }
    H::note(H::str("last ", *s.rbegin()));
    int64_t p = 0; for (int64_t x : s) { int64_t f = o->nextSetBit(p); REQUIRE(f == x, "nextSetBit ", f, " want ", x); p = x + 1; }
    DocIdSetIteratorPtr it = o->iterator(); for (int64_t x : s) { int d = it->advance((int)x - (int)std::min<int64_t>(x > 0 ? H::rnd(60) : 0, s.size() == 1 ? x : 0)); REQUIRE(d == x, "advance gives ", d, " want ", x); }
    REQUIRE(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS, "end"); REQUIRE(o->cardinality() == (int64_t)s.size(), "cardinality");
}
SECTION(disi, 1) {
    int lim = 64 + H::rnd(1500); S x, y; OpenBitSetDISIPtr a = newLucene<OpenBitSetDISI>(lim); lim = (int)a->size();
    Collection<int32_t> c = Collection<int32_t>::newInstance();
    for (int i = 0, n = H::rnd(200); i < n; ++i) { int64_t v = H::rnd(lim); a->set(v); x.insert(v); }
    int v = -1; for (int i = 0, n = H::rnd(200); i < n; ++i) { v += 1 + (H::chance(50) ? H::rnd(4) : H::rnd(30)); c.add(v); y.insert(v); }
    H::note(H::str("size ", lim, " members ", x.size(), " list ", y.size()));
    S r; int op = H::rnd(4); SortedVIntListPtr l = newLucene<SortedVIntList>(c); DocIdSetIteratorPtr it = l->iterator();
    for (int64_t j = 0; j < lim; ++j) { bool p = x.count(j), q = y.count(j); if (op == 0 ? (p || q) : op == 1 ? (p && q) : op == 2 ? (p && !q) : (p != q)) r.insert(j); }
    if (op == 0) a->inPlaceOr(it); else if (op == 1) a->inPlaceAnd(it); else if (op == 2) a->inPlaceNot(it); else a->inPlaceXor(it);
    same(a, r, op == 0 ? "inPlaceOr" : op == 1 ? "inPlaceAnd" : op == 2 ? "inPlaceNot" : "inPlaceXor");
    if (op == 0) { OpenBitSetDISIPtr z = newLucene<OpenBitSetDISI>(l->iterator(), lim); S w; for (int64_t j : y) if (j < lim) w.insert(j); same(z, w, "from iterator"); }
}
SECTION(words, 1) {
    int n = 1 + H::rnd(60); std::vector<int64_t> A(n), B(n);
    for (int i = 0; i < n; ++i) { int k = H::rnd(5); A[i] = k == 0 ? 0 : k == 1 ? -1 : (int64_t)(k == 2 ? H::edge(64) : H::rnd()); k = H::rnd(5); B[i] = k == 0 ? 0 : k == 1 ? -1 : (int64_t)(k == 2 ? H::edge(64) : H::rnd()); }
    int off = H::rnd(n), m = H::rnd(n - off + 1); H::note(H::str("words ", n, " offset ", off, " count ", m));
    auto pc = [](int64_t v) { return (int64_t)std::bitset<64>((uint64_t)v).count(); };
    int64_t s[5] = {}; for (int i = off; i < off + m; ++i) { s[0] += pc(A[i]); s[1] += pc(A[i] & B[i]); s[2] += pc(A[i] | B[i]); s[3] += pc(A[i] & ~B[i]); s[4] += pc(A[i] ^ B[i]); }
    REQUIRE(BitUtil::pop_array(&A[0], off, m) == s[0], "pop_array"); REQUIRE(BitUtil::pop_intersect(&A[0], &B[0], off, m) == s[1], "pop_intersect"); REQUIRE(BitUtil::pop_union(&A[0], &B[0], off, m) == s[2], "pop_union");
    REQUIRE(BitUtil::pop_andnot(&A[0], &B[0], off, m) == s[3], "pop_andnot"); REQUIRE(BitUtil::pop_xor(&A[0], &B[0], off, m) == s[4], "pop_xor");
    for (int64_t v : A) { REQUIRE(BitUtil::pop(v) == pc(v), "pop ", v); if (v) { int t = __builtin_ctzll(v); REQUIRE(BitUtil::ntz(v) == t && BitUtil::ntz2(v) == t && BitUtil::ntz3(v) == t, "ntz ", v); } int32_t w = (int32_t)v; if (w) REQUIRE(BitUtil::ntz(w) == __builtin_ctz(w), "ntz ", w); }
}
