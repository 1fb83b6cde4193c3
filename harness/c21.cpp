#include "h.h"
#include "MiscUtils.h"
#include "RAMDirectory.h"
#include "SimpleFSDirectory.h"
#include "FieldInfos.h"
#include "FieldInfo.h"
#include "Term.h"
#include "TermInfo.h"
#include "TermInfosReader.h"
#include "TermInfosWriter.h"
#include "SegmentTermEnum.h"
#include "TermBuffer.h"
#include "UnicodeUtils.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "FileUtils.h"
using namespace Lucene;
typedef std::pair<String, String> FT;
struct St { int df; int64_t fp, pp; int so; };
static wchar_t ch(int alpha) { switch (alpha) { case 0: return L'a' + H::rnd(2); case 1: return L'a' + H::rnd(26); case 2: { static const uint32_t E[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 0xe9, 0xea, 0x3b1, 0x3b2, 0x1f600, 0x1f601 }; return (wchar_t)E[H::rnd(16)]; } default: return (wchar_t)(0x4e00 + H::rnd(300)); } }
static String word(int alpha) { int n = H::chance(5) ? 0 : H::chance(90) ? 1 + H::rnd(8) : H::rnd(300); String s; for (int i = 0; i < n; ++i) s += ch(alpha); return s; }
static std::string show(const FT& t) { return H::narrow(t.first) + ":" + H::narrow(t.second.substr(0, 30)); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp(const FT& a, const FT& b) { return a < b ? -1 : b < a ? 1 : 0; }
static TermPtr T(const FT& t) { return newLucene<Term>(t.first, t.second); }
SECTION(order, 1) {
    int a = H::rnd(4); auto mk = [&]() { return FT(H::chance(50) ? L"f" : word(a), word(a)); }; FT x = mk(), y = mk(), z = mk(); if (H::chance(30)) { y = x; if (H::chance(70)) { y.second += ch(a); } } H::note(show(x) + " / " + show(y) + " / " + show(z));
    TermPtr X = T(x), Y = T(y), Z_ = T(z); int c = X->compareTo(Y);
    REQUIRE(sgn(c) == cmp(x, y), "Term::compareTo ", c); REQUIRE(sgn(Y->compareTo(X)) == -sgn(c), "antisymmetry"); REQUIRE(X->equals(Y) == (x == y), "equals"); REQUIRE(!(x == y) || X->hashCode() == Y->hashCode(), "hash code");
    if (c <= 0 && Y->compareTo(Z_) <= 0) REQUIRE(X->compareTo(Z_) <= 0, "transitivity");
    TermBufferPtr p = newLucene<TermBuffer>(), q = newLucene<TermBuffer>(); if (H::chance(50)) p->set(Z_); p->set(X); q->set(Y); REQUIRE(sgn(p->compareTo(q)) == cmp(x, y), "TermBuffer::compareTo");
    if (!x.first.empty()) REQUIRE(p->toTerm()->equals(X), "toTerm"); q->set(p); REQUIRE(q->compareTo(p) == 0, "set(buffer)"); TermBufferPtr r = boost::dynamic_pointer_cast<TermBuffer>(p->clone()); REQUIRE(r->compareTo(p) == 0, "clone"); q->set(Y); REQUIRE(sgn(r->compareTo(q)) == cmp(x, y), "clone is independent");
}
static DirectoryPtr dir() { static DirectoryPtr d[2]; int k = H::chance(80) ? 0 : 1; if (!d[k]) { if (k) { String p = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/td"); FileUtils::createDirectory(p); d[k] = newLucene<SimpleFSDirectory>(p); } else d[k] = newLucene<RAMDirectory>(); } return d[k]; }
static void same(const TermInfoPtr& ti, const St& s, int skip, const char* where) { REQUIRE(ti, where, ": no entry"); REQUIRE(ti->docFreq == s.df && ti->freqPointer == s.fp && ti->proxPointer == s.pp && (s.df < skip || ti->skipOffset == s.so), where, ": statistics ", ti->docFreq, " ", ti->freqPointer, " ", ti->proxPointer, " ", ti->skipOffset, " want ", s.df, " ", s.fp, " ", s.pp, " ", s.so); }
SECTION(dictionary, 4) {
    DirectoryPtr d = dir(); int a = H::rnd(4), nf = 1 + H::rnd(4); FieldInfosPtr fi = newLucene<FieldInfos>(); std::vector<String> fs; for (int i = 0; i < nf; ++i) { String f = H::chance(50) ? String(1, L'a' + H::rnd(6)) : word(a); if (f.empty()) f = L"x"; fs.push_back(f); fi->add(f, true); }
    int interval = H::chance(50) ? 1 + H::rnd(6) : 1 + H::rnd(140), divisor = H::chance(60) ? 1 : 1 + H::rnd(5), n = H::chance(40) ? H::rnd(20) : H::rnd(interval * 4 + 300); std::set<FT> set; while ((int)set.size() < n) { set.insert(FT(fs[H::rnd(nf)], word(a))); if (H::chance(1)) --n; if (n < 0) n = 0; }
    std::vector<FT> v(set.begin(), set.end()); n = v.size(); std::vector<St> st; int64_t fp = 0, pp = 0;
    H::note(H::str(n, " terms, interval ", interval, ", divisor ", divisor, ", alphabet ", a, ", fields ", nf));
    TermInfosWriterPtr w = newLucene<TermInfosWriter>(d, L"s", fi, interval); int skip = w->skipInterval; TermInfoPtr ti = newLucene<TermInfo>();
    for (int i = 0; i < n; ++i) { fp += H::chance(70) ? H::rnd(100) : H::edge(40); pp += H::chance(70) ? H::rnd(100) : H::edge(40); St s = { (int)(H::chance(50) ? 1 + H::rnd(skip + 2) : 1 + H::edge(30)), fp, pp, (int)H::rnd(1000) }; st.push_back(s); ti->set(s.df, s.fp, s.pp, s.so); w->add(T(v[i]), ti); }
    w->close();
    TermInfosReaderPtr r = newLucene<TermInfosReader>(d, L"s", fi, H::chance(50) ? 16 + H::rnd(100) : 1024, divisor); REQUIRE(r->size() == n, "size ", r->size()); REQUIRE(r->getSkipInterval() == skip, "skip interval");
    auto at = [&](const SegmentTermEnumPtr& e, int i, const char* where) { TermPtr t = e->term(); if (i >= n) { REQUIRE(!t, where, ": a term after the last"); return; } REQUIRE(t, where, ": no term at ", i); REQUIRE(FT(t->field(), t->text()) == v[i], where, ": term ", show(FT(t->field(), t->text())), " want ", show(v[i])); same(e->termInfo(), st[i], skip, where); REQUIRE(e->docFreq() == st[i].df && e->freqPointer() == st[i].fp && e->proxPointer() == st[i].pp, where, ": accessors"); REQUIRE(e->position == i, where, ": position ", e->position, " want ", i); };
    { SegmentTermEnumPtr e = r->terms(); for (int i = 0; i < n; ++i) { REQUIRE(e->next(), "enumeration ends at ", i); at(e, i, "enumeration"); if (i) REQUIRE(FT(e->prev()->field(), e->prev()->text()) == v[i - 1], "prev"); } REQUIRE(!e->next(), "enumeration goes on"); at(e, n, "end"); }
    std::vector<SegmentTermEnumPtr> keep; std::vector<int> keepAt; int ops = H::chance(20) ? 200 : 30, last = 0;
    for (int k = 0; k < ops; ++k) {
        FT t; int m = H::rnd(5); if (n && m < 2) t = v[last = H::rnd(n)]; else if (n && m == 2) { last = std::min(n - 1, last + (int)H::rnd(4)); t = v[last]; } else { t = n && H::chance(60) ? v[H::rnd(n)] : FT(H::chance(70) ? fs[H::rnd(nf)] : word(a), word(a)); if (H::chance(50)) { if (H::chance(50) && !t.second.empty()) t.second.pop_back(); else t.second += ch(a); } if (t.first.empty()) t.first = L"q"; }
        int lb = std::lower_bound(v.begin(), v.end(), t) - v.begin(); bool has = lb < n && v[lb] == t; H::note(H::str(n, " terms, interval ", interval, ", divisor ", divisor, ", lookup ", show(t), " number ", lb, " of op ", k));
        switch (H::rnd(6)) {
            case 0: case 1: case 2: { TermInfoPtr g = r->get(T(t)); if (has) same(g, st[lb], skip, "get"); else REQUIRE(!g, "get finds an absent term"); break; }
            case 3: { if (!n) break; SegmentTermEnumPtr e = r->terms(T(t)); at(e, lb, "terms(target)"); int i = lb; for (int j = 0; j < (int)H::rnd(8) && i < n; ++j) { bool more = e->next(); REQUIRE(more == (i + 1 < n), "next after seeking"); at(e, ++i, "after seeking"); } keep.push_back(e); keepAt.push_back(i); break; }
            case 4: { int64_t p = r->getPosition(T(t)); REQUIRE(p == (has ? lb : -1), "getPosition ", p); break; }
            default: { if (!n || lb >= n) break; SegmentTermEnumPtr e = r->terms(); e->next(); int c = e->scanTo(T(t)); REQUIRE(c == lb, "entries scanned ", c); at(e, lb, "scanTo"); }
        }
        if (!keep.empty() && H::chance(20)) { int j = H::rnd(keep.size()); at(keep[j], keepAt[j], "an enumeration kept open"); if (keepAt[j] < n) { bool more = keep[j]->next(); REQUIRE(more == (keepAt[j] + 1 < n), "next of a kept enumeration"); at(keep[j], ++keepAt[j], "an enumeration kept open, moved"); } }
    }
    if (divisor == 1 && H::chance(20)) { SegmentTermEnumPtr e = newLucene<SegmentTermEnum>(d->openInput(L"s.tii"), fi, true); int k = 0; while (e->next()) { if (k) { int i = k * interval - 1; REQUIRE(FT(e->term()->field(), e->term()->text()) == v[i], "index entry ", k); same(e->termInfo(), st[i], skip, "index entry"); } ++k; } REQUIRE(k == (n + interval - 1) / interval, "number of index entries ", k); }
    for (auto& e : keep) e->close(); r->close(); d->deleteFile(L"s.tis"); d->deleteFile(L"s.tii");
}
