#include "h.h"
#include "LuceneHeaders.h"
#include "ConjunctionScorer.h"
#include "DisjunctionSumScorer.h"
#include "DisjunctionMaxScorer.h"
#include "ReqExclScorer.h"
#include "ReqOptSumScorer.h"
#include "BooleanScorer.h"
#include "BooleanScorer2.h"
#include "FilteredDocIdSetIterator.h"
#include "DefaultSimilarity.h"
#include "Collector.h"
#include "LogDocMergePolicy.h"
#include "SerialMergeScheduler.h"
using namespace Lucene;
typedef std::set<int> S;
static const int NM = DocIdSetIterator::NO_MORE_DOCS;
struct ListScorer : public Scorer {
    std::vector<int> d; int p = -1; double w = 1;
    ListScorer(const S& s) : Scorer(newLucene<DefaultSimilarity>()), d(s.begin(), s.end()) {}
    virtual int32_t docID() { return p < 0 ? -1 : p >= (int)d.size() ? NM : d[p]; }
    virtual int32_t nextDoc() { REQUIRE(docID() != NM, "a part is stepped beyond its end"); ++p; return docID(); }
    virtual int32_t advance(int32_t t) { REQUIRE(t > docID(), "a part is moved to ", t, " from ", docID()); do ++p; while (p < (int)d.size() && d[p] < t); return docID(); }
    virtual double score() { return w; }
};
static S leafSet() { S s; int mode = H::rnd(5); int x = -1; int n = mode == 0 ? H::rnd(3) : H::rnd(40); for (int i = 0; i < n; ++i) { x += 1 + (mode == 1 ? 0 : mode == 2 ? H::rnd(2) : mode == 3 ? H::rnd(6) : H::chance(90) ? H::rnd(3) : H::rnd(60)); s.insert(x); } return s; }
struct Node { ScorerPtr s; S m; std::string t; };
static std::string show(const S& s) { std::string r; for (int x : s) r += H::str(r.empty() ? "" : " ", x); return r; }
static Node leaf() { Node n; n.m = leafSet(); n.s = newLucene<ListScorer>(n.m); n.t = "{" + show(n.m) + "}"; return n; }
static S atLeast(const std::vector<Node>& v, int k) { std::map<int, int> c; for (auto& n : v) for (int x : n.m) c[x]++; S r; for (auto& e : c) if (e.second >= k) r.insert(e.first); return r; }
static Collection<ScorerPtr> coll(const std::vector<Node>& v) { Collection<ScorerPtr> c = Collection<ScorerPtr>::newInstance(); for (auto& n : v) c.add(n.s); return c; }
static std::string list(const std::vector<Node>& v) { std::string r; for (auto& n : v) r += " " + n.t; return r; }
struct Even : public FilteredDocIdSetIterator { int mod; Even(const DocIdSetIteratorPtr& i, int m) : FilteredDocIdSetIterator(i), mod(m) {} virtual bool match(int32_t d) { return d % mod == 0; } };
struct ItScorer : public Scorer { DocIdSetIteratorPtr i; ItScorer(const DocIdSetIteratorPtr& x) : Scorer(newLucene<DefaultSimilarity>()), i(x) {} virtual int32_t docID() { return i->docID(); } virtual int32_t nextDoc() { return i->nextDoc(); } virtual int32_t advance(int32_t t) { return i->advance(t); } virtual double score() { return 1; } };
static Node tree(int depth) {
    if (depth == 0 || H::chance(15)) return leaf();
    Node r; std::vector<Node> v; int n; SimilarityPtr sim = newLucene<DefaultSimilarity>();
    switch (H::rnd(7)) {
    case 0: n = 1 + H::rnd(5); for (int i = 0; i < n; ++i) v.push_back(tree(depth - 1)); r.t = "all(" + list(v) + ")"; r.m = atLeast(v, n); H::note(r.t); r.s = newLucene<ConjunctionScorer>(sim, coll(v)); break;
    case 1: { n = 2 + H::rnd(6); int k = 1 + H::rnd(H::chance(80) ? n : n + 1); for (int i = 0; i < n; ++i) v.push_back(tree(depth - 1)); r.t = H::str("atleast", k, "(") + list(v) + ")"; r.m = atLeast(v, k); H::note(r.t); r.s = newLucene<DisjunctionSumScorer>(coll(v), k); break; }
    case 2: { Node a = tree(depth - 1), b = tree(depth - 1); r.t = "not(" + a.t + " " + b.t + ")"; H::note(r.t); for (int x : a.m) if (!b.m.count(x)) r.m.insert(x); r.s = newLucene<ReqExclScorer>(a.s, b.s); break; }
    case 3: { Node a = tree(depth - 1), b = tree(depth - 1); r.t = "opt(" + a.t + " " + b.t + ")"; H::note(r.t); r.m = a.m; r.s = newLucene<ReqOptSumScorer>(a.s, b.s); break; }
    case 4: { n = 1 + H::rnd(6); std::vector<Node> u; for (int i = 0; i < n; ++i) { v.push_back(tree(depth - 1)); if (v.back().s->nextDoc() != NM) u.push_back(v.back()); } r.t = "max(" + list(v) + ")"; r.m = atLeast(v, 1); H::note(r.t); r.s = newLucene<DisjunctionMaxScorer>(0.1, sim, coll(u), (int)u.size()); break; }
    case 5: { Node a = tree(depth - 1); int m = 1 + H::rnd(3); r.t = H::str("mod", m, "(") + a.t + ")"; for (int x : a.m) if (x % m == 0) r.m.insert(x); r.s = newLucene<ItScorer>(newLucene<Even>(a.s, m)); break; }
    default: { std::vector<Node> q, p, o; int nq = H::rnd(3), np = H::rnd(3), no = H::rnd(5); if (!nq && !no) no = 1;
        for (int i = 0; i < nq; ++i) q.push_back(tree(depth - 1)); for (int i = 0; i < np; ++i) p.push_back(tree(depth - 1)); for (int i = 0; i < no; ++i) o.push_back(tree(depth - 1));
        int k = no ? H::rnd(no + 1) : 0; r.t = "bool(must" + list(q) + " not" + list(p) + H::str(" should>=", k) + list(o) + ")"; H::note(r.t);
        S a = nq ? atLeast(q, nq) : atLeast(o, std::max(1, k)), b = atLeast(p, 1), c = atLeast(o, std::max(k, 1));
        for (int x : a) if (!b.count(x) && (k == 0 || c.count(x))) r.m.insert(x);
        r.s = newLucene<BooleanScorer2>(sim, k, coll(q), coll(p), coll(o)); break; }
    }
    return r;
}
static void drive(Node& n) {
    H::note(n.t); std::string tr; int cur = -1; int adv = H::chance(20) ? 0 : H::chance(20) ? 100 : 50;
    while (true) {
        bool a = H::chance(adv); int t = a ? cur + 1 + (H::chance(50) ? H::rnd(3) : H::rnd(40)) : 0; if (a && H::chance(5)) t = cur + 500;
        tr += a ? H::str(" adv", t) : " next"; H::note(n.t + " :" + tr);
        int d = a ? n.s->advance(t) : n.s->nextDoc(); auto i = n.m.lower_bound(a ? t : cur + 1); int e = i == n.m.end() ? NM : *i;
        REQUIRE(d == e, a ? "advance" : "nextDoc", " gives ", d, " want ", e); REQUIRE(n.s->docID() == d, "docID ", n.s->docID(), " want ", d);
        if (d == NM) break; cur = d; if (H::chance(50)) { n.s->score(); REQUIRE(n.s->docID() == d, "scoring moved it"); }
    }
}
SECTION(flat, 3) { Node n = tree(1); drive(n); }
SECTION(nested, 3) { Node n = tree(2 + H::rnd(2)); drive(n); }
SECTION(many, 1) { std::vector<Node> v; int n = 2 + H::rnd(40); for (int i = 0; i < n; ++i) v.push_back(leaf()); int k = 1 + H::rnd(4); Node r; r.t = H::str("atleast", k, "(") + list(v) + ")"; r.m = atLeast(v, k); r.s = newLucene<DisjunctionSumScorer>(coll(v), k); drive(r);
    v.clear(); S common; for (int i = 0; i < 30; ++i) common.insert(H::rnd(200)); n = 2 + H::rnd(12); for (int i = 0; i < n; ++i) { Node l; l.m = leafSet(); l.m.insert(common.begin(), common.end()); l.s = newLucene<ListScorer>(l.m); l.t = "{" + show(l.m) + "}"; v.push_back(l); } Node c; c.t = "all(" + list(v) + ")"; c.m = atLeast(v, n); H::note(c.t); c.s = newLucene<ConjunctionScorer>(newLucene<DefaultSimilarity>(), coll(v)); drive(c); }
// ---- Boolean queries over an index large enough for several windows of the out-of-order scorer
struct Got : public Collector { std::vector<int> d; int base = 0; bool ooo; Got(bool o) : ooo(o) {} ScorerPtr sc;
    virtual void setScorer(const ScorerPtr& s) { sc = s; } virtual void collect(int32_t x) { d.push_back(base + x); sc->score(); } virtual void setNextReader(const IndexReaderPtr&, int32_t b) { base = b; } virtual bool acceptsDocsOutOfOrder() { return ooo; } };
static std::vector<S> terms; static IndexSearcherPtr searcher; static std::set<int> live;
static const wchar_t* W[] = { L"t0", L"t1", L"t2", L"t3", L"t4", L"t5", L"t6", L"t7" };
static void build() {
    if (searcher) return; terms.resize(8); RAMDirectoryPtr dir = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMaxBufferedDocs(5200); LogDocMergePolicyPtr mp = newLucene<LogDocMergePolicy>(w); mp->setMergeFactor(100); w->setMergePolicy(mp); w->setMergeScheduler(newLucene<SerialMergeScheduler>()); int n = 7300, per[] = { 2, 3, 7, 50, 700, 2048, 1, 20 };
    for (int i = 0; i < n; ++i) { String t = L"x"; for (int k = 0; k < 8; ++k) if (k == 6 ? (i / 300) % 5 == 0 : H::rnd(per[k]) == 0) { t += L" "; t += W[k]; terms[k].insert(i); } DocumentPtr d = newLucene<Document>(); d->add(newLucene<Field>(L"f", t, Field::STORE_NO, Field::INDEX_ANALYZED)); w->addDocument(d); }
    w->close(); IndexReaderPtr r = IndexReader::open(dir, false); for (int i = 0; i < n; ++i) { if (H::rnd(50) == 0) r->deleteDocument(i); else live.insert(i); } searcher = newLucene<IndexSearcher>(r);
}
struct QN { QueryPtr q; S m; std::string t; };
static QN query(int depth) {
    QN r; if (depth == 0 || H::chance(10)) { int k = H::rnd(9); if (k == 8) { r.q = newLucene<TermQuery>(newLucene<Term>(L"f", L"none")); r.t = "none"; } else { r.q = newLucene<TermQuery>(newLucene<Term>(L"f", W[k])); for (int x : terms[k]) if (live.count(x)) r.m.insert(x); r.t = H::str("t", k); } return r; }
    BooleanQueryPtr b = newLucene<BooleanQuery>(H::chance(50)); int n = 1 + H::rnd(5); if (H::chance(5)) n = 40; std::map<int, int> should; S must, no; int nm = 0, ns = 0; bool first = true; r.t = "(";
    bool onlyOpt = H::chance(60);
    for (int i = 0; i < n; ++i) { QN c = query(n > 10 ? 0 : depth - 1); int o = n > 10 ? (H::chance(10) ? 0 : 2) : onlyOpt ? (H::chance(75) ? 0 : 2) : H::rnd(3); r.t += (o == 0 ? " " : o == 1 ? " +" : " -") + c.t;
        b->add(c.q, o == 0 ? BooleanClause::SHOULD : o == 1 ? BooleanClause::MUST : BooleanClause::MUST_NOT);
        if (o == 0) { ns++; for (int x : c.m) should[x]++; } else if (o == 1) { nm++; if (first) must = c.m; else { S q; for (int x : must) if (c.m.count(x)) q.insert(x); must = q; } first = false; } else no.insert(c.m.begin(), c.m.end()); }
    int k = H::chance(40) ? H::rnd(ns + 2) : 0; if (k) b->setMinimumNumberShouldMatch(k); r.t += H::str(")>=", k);
    for (int x : live) { if (no.count(x)) continue; int s = should.count(x) ? should[x] : 0; if (nm ? (must.count(x) && s >= k) : (ns && s >= std::max(1, k))) r.m.insert(x); }
    r.q = b; return r;
}
SECTION(queries, 3) {
    build(); QN q = query(1 + H::rnd(2)); bool o = H::chance(60); H::note(q.t + (o ? " any order" : " in order")); boost::shared_ptr<Got> g = newLucene<Got>(o); searcher->search(q.q, g);
    if (!o) for (size_t i = 1; i < g->d.size(); ++i) REQUIRE(g->d[i] > g->d[i - 1], "documents out of order: ", g->d[i - 1], " then ", g->d[i]);
    S s(g->d.begin(), g->d.end()); REQUIRE(s.size() == g->d.size(), "a document collected twice");
    for (int x : q.m) REQUIRE(s.count(x), "document ", x, " matches but is not found"); for (int x : s) REQUIRE(q.m.count(x), "document ", x, " found but does not match");
    int lim = 1 + H::rnd(20); TopDocsPtr t = searcher->search(q.q, FilterPtr(), lim); REQUIRE(t->totalHits == (int)q.m.size(), "top docs count ", t->totalHits, " want ", q.m.size());
}
