#include "h.h"
#include "SortedVIntList.h"
#include "DocIdSetIterator.h"
#include "BitSet.h"
#include "OpenBitSet.h"
#include "OpenBitSetIterator.h"
using namespace Lucene;
static std::vector<int> sorted(int n, bool dup) {
    std::vector<int> v; int64_t x = H::chance(50) ? 0 : H::rnd(300); int mode = H::rnd(5);
    for (int i = 0; i < n; ++i) {
        int64_t g = mode == 0 ? 1 : mode == 1 ? H::rnd(300) : mode == 2 ? (int64_t)H::edge(31) / (n + 1) : mode == 3 ? (int64_t)(1 << (7 * H::rnd(4))) + (int64_t)H::rnd(3) - 1 : (int64_t)H::rnd(1 << 20);
        if (!dup && i && g <= 0) g = 1;
        if (g < 0) g = 0;
        if (x + g >= 0x7fffffff) break;
        x += g; v.push_back((int)x);
    }
    return v;
}
static void walk(const SortedVIntListPtr& l, const std::vector<int>& v, const char* w) {
    REQUIRE(l->size() == (int)v.size(), w, " size ", l->size(), " want ", v.size());
    DocIdSetIteratorPtr it = l->iterator();
    for (size_t i = 0; i < v.size(); ++i) { int d = it->nextDoc(); REQUIRE(d == v[i] && it->docID() == d, w, " value ", i, " is ", d, " want ", v[i]); }
    REQUIRE(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS, w, " more values than put in");
    // advance: random mixture against the list
    it = l->iterator(); size_t p = 0;
    for (int k = 0; k < 40; ++k) {
        if (H::chance(40)) { int d = it->nextDoc(), e = p < v.size() ? v[p] : DocIdSetIterator::NO_MORE_DOCS; if (p < v.size()) p++; REQUIRE(d == e, w, " nextDoc ", d, " want ", e); continue; }
        int t = v.empty() ? (int)H::rnd(100) : H::chance(50) ? v[std::min(v.size() - 1, p + H::rnd(20))] : (int)H::edge(31);
        if (H::chance(20) && t > 0) --t;
        while (p < v.size() && v[p] < t) ++p;
        int e = p < v.size() ? v[p++] : DocIdSetIterator::NO_MORE_DOCS, d = it->advance(t);
        REQUIRE(d == e && it->docID() == e, w, " advance(", t, ") gives ", d, " want ", e);
    }
}
static Collection<int32_t> coll(const std::vector<int>& v) { Collection<int32_t> c = Collection<int32_t>::newInstance(); for (int x : v) c.add(x); return c; }
SECTION(collection, 2) {
    std::vector<int> v = sorted(H::rnd(8) ? H::rnd(60) : H::rnd(3000), H::chance(30));
    H::note(H::str(v.size(), " values, first ", v.empty() ? -1 : v[0], " last ", v.empty() ? -1 : v.back()));
    walk(newLucene<SortedVIntList>(coll(v)), v, "collection");
    int k = H::rnd(v.size() + 1); std::vector<int> u(v.begin(), v.begin() + k);
    walk(newLucene<SortedVIntList>(coll(v), k), u, "collection prefix");
}
SECTION(sets, 2) {
    std::vector<int> v; int x = -1, n = H::rnd(300); for (int i = 0; i < n; ++i) { x += 1 + (H::chance(70) ? H::rnd(3) : H::rnd(400)); v.push_back(x); }
    if (H::chance(30)) { v.clear(); int a = H::rnd(200); for (int i = a; i < a + 130; ++i) v.push_back(i); }
    BitSetPtr b = newLucene<BitSet>(H::chance(50) ? 0 : 64); OpenBitSetPtr o = newLucene<OpenBitSet>(); for (int y : v) { b->set(y); o->set((int64_t)y); }
    H::note(H::str(v.size(), " values"));
    walk(newLucene<SortedVIntList>(b), v, "BitSet"); walk(newLucene<SortedVIntList>(o), v, "OpenBitSet");
    walk(newLucene<SortedVIntList>(o->iterator()), v, "iterator");
    walk(newLucene<SortedVIntList>(newLucene<SortedVIntList>(o)->iterator()), v, "own iterator");
}
SECTION(rejects, 1) {
    std::vector<int> v = sorted(1 + H::rnd(30), false); if (v.empty()) return;
    int k = H::rnd(v.size()); std::vector<int> u = v;
    if (H::chance(40)) u[k] = -(int)H::edge(31) - 1; else if (k && v[k - 1] > 0) u[k] = v[k - 1] - 1 - H::rnd(v[k - 1]); else u[k] = -1;
    H::note(H::str("value ", u[k], " at ", k, " after ", k ? u[k - 1] : 0)); bool t = false;
    try { newLucene<SortedVIntList>(coll(u)); } catch (IllegalArgumentException&) { t = true; }
    REQUIRE(t, "unsorted or negative input accepted");
}
