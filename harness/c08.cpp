#include "h.h"
#include "VariantUtils.h"
#include "NumericUtils.h"
#include "MiscUtils.h"
#include "RAMDirectory.h"
#include "IndexWriter.h"
#include "IndexReader.h"
#include "IndexSearcher.h"
#include "NumericField.h"
#include "NumericRangeQuery.h"
#include "NumericRangeFilter.h"
#include "MatchAllDocsQuery.h"
#include "WhitespaceAnalyzer.h"
#include "Document.h"
#include "Field.h"
#include "TopDocs.h"
#include "ScoreDoc.h"
using namespace Lucene;
static String refcode(uint64_t v, int s, int w) {
    uint64_t m = w == 64 ? ~0ULL : 0xffffffffULL, u = ((v ^ (1ULL << (w - 1))) & m) >> s; int n = (w - 1 - s) / 7 + 1; String r(1, (wchar_t)((w == 64 ? 0x20 : 0x60) + s));
    for (int j = n - 1; j >= 0; --j) r += (wchar_t)((u >> (7 * j)) & 127); return r; }
static int sg(const String& a, const String& b) { int c = a.compare(b); return c < 0 ? -1 : c > 0; }
static int64_t clear_low(int64_t v, int s) { return s ? (int64_t)((uint64_t)v >> s << s) : v; }
SECTION(terms, 2) {
    for (int k = 0; k < 50; ++k) {
        int64_t a = H::edge(64), b = H::chance(40) ? a + (int64_t)H::rnd(5) - 2 : (int64_t)H::edge(64); auto in = H::input("val"); if (!in.empty() && k < 5) a = in[H::rnd(in.size())]; int s = H::rnd(64); auto si = H::input("shift"); if (!si.empty() && k < 5) s = si[H::rnd(si.size())] & 63;
        H::note(H::str("long ", a, " ", b, " shift ", s));
        String x = NumericUtils::longToPrefixCoded(a, s), y = NumericUtils::longToPrefixCoded(b, s);
        REQUIRE(x == refcode(a, s, 64), "term differs from the format"); REQUIRE(NumericUtils::prefixCodedToLong(x) == clear_low(a, s), "decodes to ", NumericUtils::prefixCodedToLong(x));
        int64_t p = a >> s, q = b >> s; REQUIRE(sg(x, y) == (p < q ? -1 : p > q), "order of terms"); if (s == 0) REQUIRE(NumericUtils::longToPrefixCoded(a) == x, "default precision");
        int32_t c = (int32_t)a, d = H::chance(50) ? (int32_t)b : (int32_t)(b >> 32); s &= 31; H::note(H::str("int ", c, " ", d, " shift ", s));
        x = NumericUtils::intToPrefixCoded(c, s), y = NumericUtils::intToPrefixCoded(d, s);
        REQUIRE(x == refcode((uint32_t)c, s, 32), "int term differs from the format"); REQUIRE(NumericUtils::prefixCodedToInt(x) == (int32_t)clear_low(c, s), "int decodes to ", NumericUtils::prefixCodedToInt(x));
        REQUIRE(sg(x, y) == ((c >> s) < (d >> s) ? -1 : (c >> s) > (d >> s)), "order of int terms"); if (s == 0) REQUIRE(NumericUtils::intToPrefixCoded(c) == x, "default precision");
        double f, g; uint64_t u = H::edge(64), v = H::chance(50) ? u + H::rnd(3) - 1 : H::edge(64); memcpy(&f, &u, 8); memcpy(&g, &v, 8); if (f != f || g != g) continue;
        H::note(H::str("double bits ", u, " ", v)); int64_t m = NumericUtils::doubleToSortableLong(f), n = NumericUtils::doubleToSortableLong(g);
        if (f < g) REQUIRE(m < n, "order of doubles"); if (f > g) REQUIRE(m > n, "order of doubles"); double h = NumericUtils::sortableLongToDouble(m); REQUIRE(memcmp(&h, &f, 8) == 0, "double round trip");
        h = NumericUtils::prefixCodedToDouble(NumericUtils::doubleToPrefixCoded(f)); REQUIRE(memcmp(&h, &f, 8) == 0, "double term round trip");
    }
}
struct LB : LongRangeBuilder { std::vector<std::array<int64_t, 3>> r; virtual void addRange(int64_t a, int64_t b, int32_t s) { r.push_back({ a, b, s }); } };
struct IB : IntRangeBuilder { std::vector<std::array<int64_t, 3>> r; virtual void addRange(int32_t a, int32_t b, int32_t s) { r.push_back({ a, b, s }); } };
struct TB : LongRangeBuilder { std::vector<std::pair<String, String>> r; virtual void addRange(const String& a, const String& b) { r.push_back({ a, b }); } };
template <class R> static int hits(const R& r, int64_t v) { int n = 0; for (auto& x : r) n += (v >> x[2]) >= (x[0] >> x[2]) && (v >> x[2]) <= (x[1] >> x[2]); return n; }
SECTION(split, 2) {
    bool w64 = H::chance(60); int64_t lo, hi; int ps = H::chance(80) ? 1 + H::rnd(w64 ? 20 : 12) : 1 + H::rnd(90);
    lo = w64 ? (int64_t)H::edge(64) : (int64_t)(int32_t)H::edge(32); hi = H::chance(50) ? (w64 ? (int64_t)H::edge(64) : (int64_t)(int32_t)H::edge(32)) : lo + (int64_t)H::rnd(100000);
    auto a = H::input("minBound"), b = H::input("maxBound"), p = H::input("precisionStep"); if (!a.empty() && !b.empty() && !p.empty() && H::chance(30)) { size_t i = H::rnd(std::min(a.size(), std::min(b.size(), p.size()))); lo = a[i]; hi = b[i]; ps = std::max(1, (int)p[i]); }
    if (!w64) { lo = (int32_t)lo; hi = (int32_t)hi; }
    if (H::chance(10)) lo = w64 ? INT64_MIN : INT32_MIN; if (H::chance(10)) hi = w64 ? INT64_MAX : INT32_MAX;
    H::note(H::str(w64 ? "long" : "int", " range ", lo, "..", hi, " step ", ps));
    std::vector<std::array<int64_t, 3>> r; std::vector<std::pair<String, String>> t;
    if (w64) { boost::shared_ptr<LB> B(new LB); NumericUtils::splitLongRange(B, ps, lo, hi); r = B->r; boost::shared_ptr<TB> T(new TB); NumericUtils::splitLongRange(T, ps, lo, hi); t = T->r; REQUIRE(t.size() == r.size(), "terms for each range"); for (size_t i = 0; i < t.size(); ++i) REQUIRE(t[i].first == refcode(r[i][0], r[i][2], 64) && t[i].second == refcode(r[i][1], r[i][2], 64), "terms of range ", i); }
    else { boost::shared_ptr<IB> B(new IB); NumericUtils::splitIntRange(B, ps, (int32_t)lo, (int32_t)hi); r = B->r; }
    for (auto& x : r) REQUIRE(x[2] % ps == 0 && x[2] < (w64 ? 64 : 32), "precision ", x[2]);
    std::vector<int64_t> vs = { lo, hi, lo - 1, lo + 1, hi - 1, hi + 1, 0, -1, INT64_MIN, INT64_MAX };
    for (auto& x : r) for (int d = -1; d <= 1; ++d) { vs.push_back(x[0] + d); vs.push_back(x[1] + d); int64_t g = x[2] ? (1LL << x[2]) : 1; vs.push_back(x[0] + d * g); vs.push_back(x[1] + d * g); }
    for (int i = 0; i < 30; ++i) { vs.push_back((int64_t)H::edge(64)); if (lo < hi) vs.push_back(lo + (int64_t)(H::rnd() % (uint64_t)(((uint64_t)hi - (uint64_t)lo) ? (uint64_t)hi - (uint64_t)lo : 1))); }
    for (int64_t v : vs) { if (!w64) v = (int32_t)v; int want = v >= lo && v <= hi, got = hits(r, v); REQUIRE(got == want, "value ", v, " matched ", got, " times, want ", want); }
}
SECTION(queries, 3) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    int n = 1 + H::rnd(40), ps = 1 + H::rnd(H::chance(80) ? 16 : 70), kind = H::rnd(3); std::vector<int64_t> L; std::vector<int32_t> I; std::vector<double> D; int64_t base = H::edge(64);
    for (int i = 0; i < n; ++i) { int64_t v = H::chance(60) ? base + (int64_t)H::rnd(2000) - 1000 : (int64_t)H::edge(64); L.push_back(v); I.push_back((int32_t)v); double f; memcpy(&f, &v, 8); if (f != f || H::chance(50)) f = (double)v / 1000.0; D.push_back(f);
        DocumentPtr doc = newLucene<Document>(); NumericFieldPtr F = newLucene<NumericField>(L"n", ps); if (kind == 0) F->setLongValue(v); else if (kind == 1) F->setIntValue((int32_t)v); else F->setDoubleValue(f); doc->add(F); w->addDocument(doc); }
    w->close(); IndexReaderPtr r = IndexReader::open(d, true); IndexSearcherPtr s = newLucene<IndexSearcher>(r);
    for (int k = 0; k < 8; ++k) {
        int64_t a = H::chance(70) ? L[H::rnd(n)] + (int64_t)H::rnd(3) - 1 : (int64_t)H::edge(64), b = H::chance(70) ? L[H::rnd(n)] + (int64_t)H::rnd(3) - 1 : (int64_t)H::edge(64); if (a > b && H::chance(90)) std::swap(a, b); bool ia = H::chance(50), ib = H::chance(50); double fa = D[H::rnd(n)], fb = D[H::rnd(n)]; if (H::chance(8)) a = INT64_MAX, b = H::chance(50) ? INT64_MAX : a; else if (H::chance(8)) { b = INT64_MIN; if (H::chance(50)) a = b; } if (kind == 1 && (a == INT64_MAX || b == INT64_MIN)) { a = a == INT64_MAX ? INT32_MAX : a; b = b == INT64_MIN ? INT32_MIN : b; } if (fa > fb) std::swap(fa, fb);
        bool noa = false, nob = false; if (kind == 1) { a = (int32_t)a; b = (int32_t)b; if (a > b && H::chance(90)) std::swap(a, b); }
        H::note(H::str("kind ", kind, " docs ", n, " step ", ps, " bounds ", noa ? std::string("open") : H::str(kind == 2 ? fa : (double)a, "/", a), " ", nob ? std::string("open") : H::str(kind == 2 ? fb : (double)b, "/", b), " incl ", ia, ib));
        NumericValue va = noa ? NumericValue(VariantUtils::null()) : kind == 0 ? NumericValue(a) : kind == 1 ? NumericValue((int32_t)a) : NumericValue(fa), vb = nob ? NumericValue(VariantUtils::null()) : kind == 0 ? NumericValue(b) : kind == 1 ? NumericValue((int32_t)b) : NumericValue(fb);
        if (noa && nob) continue;
        NumericRangeQueryPtr q = NumericRangeQuery::newNumericRange(L"n", ps, va, vb, ia, ib);
        TopDocsPtr t = s->search(q, FilterPtr(), n + 1); std::set<int> got; for (int i = 0; i < (int)t->scoreDocs.size(); ++i) got.insert(t->scoreDocs[i]->doc);
        for (int i = 0; i < n; ++i) {
            bool want; if (kind == 2) { int64_t x = NumericUtils::doubleToSortableLong(D[i]), xa = NumericUtils::doubleToSortableLong(fa), xb = NumericUtils::doubleToSortableLong(fb); want = (noa || (ia ? x >= xa : x > xa)) && (nob || (ib ? x <= xb : x < xb)); }
            else { int64_t x = kind == 0 ? L[i] : I[i]; want = (noa || (ia ? x >= a : x > a)) && (nob || (ib ? x <= b : x < b)); }
            REQUIRE(got.count(i) == (size_t)want, "document ", i, " value ", kind == 2 ? D[i] : (double)L[i], " matched ", got.count(i), " want ", want);
        }
    }
    s->close(); r->close();
}
