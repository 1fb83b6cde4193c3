#include "h.h"
#include "RAMDirectory.h"
#include "BitVector.h"
using namespace Lucene;
static void same(const BitVectorPtr& v, const std::vector<bool>& m, const char* w) {
    REQUIRE(v->size() == (int)m.size(), w, " size ", v->size());
    int c = 0;
    for (size_t i = 0; i < m.size(); ++i) { c += m[i]; REQUIRE(v->get(i) == m[i], w, " bit ", i, " of ", m.size()); }
    REQUIRE(v->count() == c, w, " count ", v->count(), " want ", c, " size ", m.size());
    REQUIRE(v->getRecomputedCount() == c, w, " recount ", v->getRecomputedCount(), " want ", c);
}
static void roundtrip(const BitVectorPtr& v, const std::vector<bool>& m, const char* w) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>();
    v->write(d, L"bv");
    same(newLucene<BitVector>(d, L"bv"), m, w);
    same(v, m, w);
}
static int sizes() { switch (H::rnd(6)) { case 0: return H::rnd(20); case 1: return 8 * (1 + H::rnd(40)); case 2: return 1 + H::rnd(3000); case 3: return 1015 + H::rnd(20); case 4: return 8 * (128 + H::rnd(3)) - H::rnd(3); default: return 1 + H::rnd(400); } }
static void fill(const BitVectorPtr& v, std::vector<bool>& m, int n) {
    int mode = H::rnd(4), k = mode == 0 ? H::rnd(3) : mode == 1 ? H::rnd(n / 100 + 2) : mode == 2 ? H::rnd(n + 1) : n;
    for (int i = 0; i < k && n; ++i) { int b = mode == 3 ? i : (H::chance(10) ? n - 1 : H::rnd(n)); v->set(b); m[b] = true; }
}
SECTION(history, 3) {
    int n = sizes(); BitVectorPtr v = newLucene<BitVector>(n); std::vector<bool> m(n);
    std::string log = H::str("size ", n, ":"); int ops = 1 + H::rnd(40);
    fill(v, m, n);
    for (int i = 0; i < ops; ++i) {
        int b = n ? H::rnd(n) : 0;
        int o = H::rnd(8); log += H::str(" ", o, "@", b); H::note(log);
        if (o < 3 && !n) continue;
        switch (o) {
            case 0: v->set(b); m[b] = true; break;
            case 1: v->clear(b); m[b] = false; break;
            case 2: { bool r = v->getAndSet(b); REQUIRE(r == m[b], "getAndSet"); m[b] = true; break; }
            case 3: { int c = std::count(m.begin(), m.end(), true); REQUIRE(v->count() == c, v->count(), " want ", c); break; }
            case 4: { BitVectorPtr c = boost::dynamic_pointer_cast<BitVector>(v->clone()); same(c, m, "clone"); if (n) { c->count(); c->set(b); c->clear(n - 1); } if (H::chance(50)) same(v, m, "original after clone changed"); break; }
            case 5: { bool t = false; try { if (H::chance(50)) v->set(n + H::rnd(20)); else if (H::chance(50)) v->clear(n + H::rnd(20)); else v->getAndSet(n + H::rnd(20)); } catch (IndexOutOfBoundsException&) { t = true; } REQUIRE(t, "bit beyond the end accepted"); break; }
            case 6: if (n) { v->count(); if (H::chance(50)) { bool r = v->getAndSet(b); REQUIRE(r == m[b], "getAndSet"); m[b] = true; } else { v->clear(b); m[b] = false; } } break;
            default: if (H::chance(20)) same(v, m, "after op");
        }
    }
    same(v, m, "history"); roundtrip(v, m, "written and read");
}
SECTION(subset, 3) {
    int n = sizes(); BitVectorPtr v = newLucene<BitVector>(n); std::vector<bool> m(n); fill(v, m, n);
    for (int k = 0; k < 6; ++k) {
        int s = H::rnd(n + 1), e = s + H::rnd(n - s + 1); if (H::chance(20)) e = n; if (H::chance(20)) s = s / 8 * 8; if (H::chance(30)) e = s + (e - s) / 8 * 8;
        H::note(H::str("size ", n, " subset ", s, "..", e));
        BitVectorPtr u = v->subset(s, e); std::vector<bool> um(m.begin() + s, m.begin() + e);
        same(u, um, "subset"); roundtrip(u, um, "subset written and read");
    }
    bool t = false; try { v->subset(H::rnd(n + 1), n + 1); } catch (IndexOutOfBoundsException&) { t = true; } REQUIRE(t, "subset past the end accepted");
}
SECTION(formats, 2) {
    int n = H::chance(30) ? 131072 * 8 / 8 + H::rnd(60) : (H::chance(50) ? 8 * (1 + H::rnd(2000)) + H::rnd(9) : 100000 + H::rnd(2000)); BitVectorPtr v = newLucene<BitVector>(n); std::vector<bool> m(n);
    int k = H::rnd(8) ? H::rnd(n / 200 + 2) : H::rnd(n);
    for (int i = 0; i < k; ++i) { int b = H::chance(5) ? n - 1 : H::rnd(n); if (H::chance(3)) b = 0; v->set(b); m[b] = true; }
    if (H::chance(20)) v->count();
    H::note(H::str("size ", n, " bits ", k)); roundtrip(v, m, "format");
}
