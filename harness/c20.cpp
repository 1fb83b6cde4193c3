#include "h.h"
#include <cmath>
#include "LuceneHeaders.h"
#include "WildcardTermEnum.h"
#include "FuzzyTermEnum.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "TermEnum.h"
using namespace Lucene;
static String word(int alpha, int max) { String s; for (int n = H::rnd(max + 1); n > 0; --n) { int k = H::rnd(alpha); s += k < 26 ? (wchar_t)(L'a' + k) : k == 26 ? (wchar_t)0x4e2d : (wchar_t)0x1f600; } return s; }
static String pattern(const String& w, int alpha) {
    String p; if (H::chance(60)) { for (wchar_t ch : w) { int k = H::rnd(10); if (k < 6) p += ch; else if (k == 6) p += L'?'; else if (k == 7) { p += L'*'; if (H::chance(30)) p += ch; } else if (k == 8) p += word(alpha, 1); } if (H::chance(20)) p += H::chance(50) ? L'*' : L'?'; }
    else for (int n = H::rnd(9); n > 0; --n) { int k = H::rnd(5); p += k == 0 ? String(L"?") : k == 1 ? String(L"*") : word(alpha, 1); }
    return p;
}
static bool matches(const String& p, const String& s) {
    std::vector<char> row(s.size() + 1, 0), nx; row[s.size()] = 1;
    for (size_t i = p.size(); i-- > 0;) { nx.assign(s.size() + 1, 0); for (size_t j = s.size() + 1; j-- > 0;) nx[j] = p[i] == L'*' ? (row[j] || (j < s.size() && nx[j + 1])) : (j < s.size() && (p[i] == L'?' || p[i] == s[j]) && row[j + 1]); row = nx; }
    return row[0];
}
static int distance(const String& a, const String& b) {
    std::vector<int> p(a.size() + 1), d(a.size() + 1); for (size_t i = 0; i <= a.size(); ++i) p[i] = i;
    for (size_t j = 1; j <= b.size(); ++j) { d[0] = j; for (size_t i = 1; i <= a.size(); ++i) d[i] = std::min(std::min(d[i - 1], p[i]) + 1, p[i - 1] + (a[i - 1] != b[j - 1])); p = d; }
    return p[a.size()];
}
static std::string n8(const String& s) { return H::narrow(s); }
SECTION(wildcard, 3) {
    int alpha = H::chance(60) ? 2 : H::chance(50) ? 4 : 28; String s = word(alpha, H::chance(90) ? 9 : 60), p = pattern(s, alpha), a = word(3, 3), b = word(3, 3); H::note(n8(p) + " against " + n8(s));
    int stars = std::count(p.begin(), p.end(), L'*'); if (stars > 4 && s.size() > 12) return;
    REQUIRE(WildcardTermEnum::wildcardEquals(p, 0, s, 0) == matches(p, s), "pattern ", n8(p), " against ", n8(s), ": should be ", matches(p, s));
    REQUIRE(WildcardTermEnum::wildcardEquals(a + p, (int)a.size(), b + s, (int)b.size()) == matches(p, s), "from positions inside");
}
struct Fuzzy : FuzzyTermEnum { Fuzzy(const IndexReaderPtr& r, const TermPtr& t, double m, int p) : FuzzyTermEnum(r, t, m, p) {} double sim(const String& s) { return similarity(s); } bool cmp(const TermPtr& t) { return termCompare(t); } };
static IndexReaderPtr make(const std::set<String>& words) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    for (auto& t : words) { DocumentPtr x = newLucene<Document>(); x->add(newLucene<Field>(L"f", t, Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS)); w->addDocument(x); }
    DocumentPtr x = newLucene<Document>(); x->add(newLucene<Field>(L"e", L"abc", Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS)); x->add(newLucene<Field>(L"g", L"abc", Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS)); w->addDocument(x);
    w->close(); return IndexReader::open(d, true);
}
// what the similarity may be reported as
static void check(double got, const String& a, const String& t, int pre, double min, const char* where) {
    int n = a.size() - pre, m = t.size() - pre, len = pre + std::min(n, m); if (len == 0) { REQUIRE(got == 0.0, where, ": ", got, " for an empty text"); return; }
    double want = 1.0 - (double)distance(a.substr(pre), t.substr(pre)) / len; if (got == 0.0 && want <= min + 1e-9) return; REQUIRE(std::fabs(got - want) < 1e-12, where, ": ", got, " want ", want);
}
static String change(String s, int alpha, int edits) { while (edits-- > 0) { size_t i = H::rnd(s.size() + 1); int k = H::rnd(3); String c = word(alpha, 1); if (k == 0) s.insert(i, c); else if (i < s.size() && k == 1) s.erase(i, 1); else if (i < s.size() && !c.empty()) s[i] = c[0]; } return s; }
static double minimum() { return H::chance(30) ? 0.0 : H::chance(30) ? 0.5 : H::chance(50) ? H::rnd(100) / 100.0 : H::rnd(1 << 20) / (double)(1 << 20); }
SECTION(similarity, 3) {
    static IndexReaderPtr r = make({ L"a", L"b" }); int alpha = H::chance(50) ? 2 : H::chance(50) ? 5 : 28; String t = word(alpha, H::chance(90) ? 10 : 80); int p = H::chance(40) ? 0 : H::rnd(t.size() + 3), pre = std::min<int>(p, t.size()); double min = minimum();
    boost::shared_ptr<Fuzzy> f = newLucene<Fuzzy>(r, newLucene<Term>(L"f", t), min, p); bool ended = f->endEnum();
    for (int i = 0; i < 20; ++i) {                          // the same enumeration compares many terms
        String s = H::chance(60) ? change(t.substr(pre), alpha, H::rnd(5)) : word(alpha, H::chance(90) ? 10 : 80), whole = t.substr(0, pre) + s; H::note(H::str(n8(t), " with ", n8(whole), ", prefix ", p, ", minimum ", min)); double got = f->sim(s); check(got, t, whole, pre, min, "similarity");
        bool c = f->cmp(newLucene<Term>(L"f", whole)); REQUIRE(c == (got > min), "accepted ", c); REQUIRE(std::fabs(f->difference() - (got - min) / (1.0 - min)) < 1e-9, "difference"); REQUIRE(ended || !f->endEnum(), "ends within the prefix");
    }
    if (H::chance(50)) { REQUIRE(!f->cmp(newLucene<Term>(L"g", t)) && f->endEnum(), "goes on in another field"); }
    else if (pre > 0) { String o = t.substr(0, pre); o[H::rnd(pre)] ^= 64; REQUIRE(!f->cmp(newLucene<Term>(L"f", o)) && f->endEnum(), "goes on after the prefix"); }
}
SECTION(enumerations, 2) {
    int alpha = 2 + H::rnd(3); std::set<String> words; for (int n = H::rnd(40); n >= 0; --n) { String w = word(alpha, 7); if (!w.empty()) words.insert(w); } words.insert(L"a");
    IndexReaderPtr r = make(words); SearcherPtr s = newLucene<IndexSearcher>(r);
    for (int k = 0; k < 6; ++k) {
        String base = H::chance(60) ? *std::next(words.begin(), H::rnd(words.size())) : word(alpha, 7); if (base.empty()) base = L"b"; String p = pattern(base, alpha); H::note(H::str(words.size(), " words, ", n8(p))); std::set<String> got, want; for (auto& w : words) if (matches(p, w)) want.insert(w);
        { WildcardTermEnumPtr e = newLucene<WildcardTermEnum>(r, newLucene<Term>(L"f", p)); String last; for (TermPtr t = e->term(); t; t = e->next() ? e->term() : TermPtr()) { REQUIRE(t->field() == L"f", "a term of another field"); REQUIRE(got.empty() || last < t->text(), "out of order"); last = t->text(); got.insert(last); } REQUIRE(got == want, "wildcard ", n8(p), ": ", got.size(), " terms, want ", want.size()); }
        { TopDocsPtr td = s->search(newLucene<WildcardQuery>(newLucene<Term>(L"f", p)), 1000); REQUIRE(td->totalHits == (int)want.size(), "wildcard query ", n8(p), ": ", td->totalHits, " want ", want.size()); }
        int pl = H::chance(40) ? 0 : H::rnd(base.size() + 2), pre = std::min<int>(pl, base.size()); double min = minimum(); H::note(H::str(words.size(), " words, fuzzy ", n8(base), " prefix ", pl, " minimum ", min));
        std::map<String, double> fg; FuzzyTermEnumPtr e = newLucene<FuzzyTermEnum>(r, newLucene<Term>(L"f", base), min, pl); for (TermPtr t = e->term(); t; t = e->next() ? e->term() : TermPtr()) { REQUIRE(t->field() == L"f", "a fuzzy term of another field"); fg[t->text()] = e->difference() * (1.0 - min) + min; }
        for (auto& w : words) if (w.substr(0, pre) == base.substr(0, pre)) { int n = base.size() - pre, m = w.size() - pre, len = pre + std::min(n, m); double v = len == 0 ? 0.0 : 1.0 - (double)distance(base.substr(pre), w.substr(pre)) / len; if (fg.count(w)) { REQUIRE(std::fabs(fg[w] - v) < 1e-9 && v > min - 1e-9, "fuzzy ", n8(w), ": ", fg[w], " want ", v); fg.erase(w); } else REQUIRE(v <= min + 1e-9, "fuzzy term ", n8(w), " missing, similarity ", v); }
        REQUIRE(fg.empty(), "fuzzy: a term without the prefix");
    }
}
