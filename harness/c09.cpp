#include "h.h"
#include <cmath>
#include "PriorityQueue.h"
#include "HitQueue.h"
#include "ScoreDoc.h"
#include "TopDocs.h"
#include "TopScoreDocCollector.h"
#include "_TopScoreDocCollector.h"
#include "Scorer.h"
#include "IndexReader.h"
#include "MultiSearcher.h"
#include "_MultiSearcher.h"
#include "IndexSearcher.h"
#include "IndexWriter.h"
#include "RAMDirectory.h"
#include "WhitespaceAnalyzer.h"
#include "Document.h"
#include "Field.h"
#include "TermQuery.h"
#include "MatchAllDocsQuery.h"
#include "Term.h"
using namespace Lucene;
// ---- the general queue, against a sorted multiset -------------------------------------------
struct Val { int key, id; };
typedef std::shared_ptr<Val> VP;
struct Q : public PriorityQueue<VP> {
    Q(int n) : PriorityQueue<VP>(n) {}
    virtual bool lessThan(const VP& a, const VP& b) { return a->key < b->key; }
};
static void heapOk(Q& q, const std::vector<VP>& in) {
    REQUIRE(q.size() == (int)in.size(), "size ", q.size(), " want ", in.size());
    REQUIRE(q.empty() == in.empty(), "empty()");
    VP t = q.top();
    if (in.empty()) { REQUIRE(!t, "top of an empty queue"); return; }
    int m = INT_MAX; bool there = false; for (auto& v : in) { m = std::min(m, v->key); there |= v == t; }
    REQUIRE(t && t->key == m && there, "top is ", t ? t->key : -1, " least element is ", m, " of ", in.size());
}
static void take(std::vector<VP>& in, const VP& v, const char* w) { auto i = std::find(in.begin(), in.end(), v); REQUIRE(i != in.end(), w, " gave an element that is not in the queue"); in.erase(i); }
SECTION(queue, 3) {
    int N = H::chance(10) ? 0 : 1 + H::rnd(H::chance(80) ? 12 : 300), keys = 1 + H::rnd(H::chance(50) ? 5 : 10000), id = 0; boost::shared_ptr<Q> qp = newInstance<Q>(N); qp->initialize(); Q& q = *qp;
    std::vector<VP> in; std::string h = H::str("N=", N);
    REQUIRE(q.maxSize() == N, "maxSize");
    for (int k = 0; k < 120; ++k) {
        VP v = std::make_shared<Val>(Val{ (int)H::rnd(keys), id++ });
        switch (H::rnd(7)) {
        case 0: case 1: if ((int)in.size() < N) { h += H::str(" add", v->key); H::note(h); VP r = q.add(v); in.push_back(v); REQUIRE(r == q.top(), "add does not return the top"); }
            else if (N && H::chance(10)) { h += " addfull"; H::note(h); bool t = false; try { q.add(v); } catch (IndexOutOfBoundsException&) { t = true; } REQUIRE(t, "adding to a full queue accepted"); return; } break;
        case 2: case 3: { h += H::str(" ovf", v->key); H::note(h); bool full = (int)in.size() == N; VP r = q.addOverflow(v);
            if (!full) { REQUIRE(!r, "element dropped from a queue that was not full"); in.push_back(v); }
            else { REQUIRE(r, "nothing dropped from a full queue"); in.push_back(v); take(in, r, "addOverflow"); for (auto& y : in) REQUIRE(!(y->key < r->key), "dropped ", r->key, " but kept the smaller ", y->key); } break; }
        case 4: { h += " pop"; H::note(h); VP r = q.pop(); if (in.empty()) REQUIRE(!r, "pop of an empty queue"); else { for (auto& y : in) REQUIRE(r && !(y->key < r->key), "pop gives ", r ? r->key : -1, " but ", y->key, " is smaller"); take(in, r, "pop"); } break; }
        case 5: if (!in.empty()) { VP t = q.top(); t->key = H::rnd(keys); h += H::str(" upd", t->key); H::note(h); VP r = q.updateTop(); REQUIRE(r == q.top(), "updateTop does not return the top"); } break;
        default: if (H::chance(8)) { h += " clear"; H::note(h); q.clear(); in.clear(); } break;
        }
        heapOk(q, in);
    }
    int last = INT_MIN;
    while (!in.empty()) { VP r = q.pop(); REQUIRE(r, "queue empty too early"); REQUIRE(r->key >= last, "elements out of order"); last = r->key; take(in, r, "pop"); heapOk(q, in); }
}
// sorted output: fill and empty at every size
SECTION(sorting, 1) {
    int n = H::rnd(70); boost::shared_ptr<Q> q = newInstance<Q>(n + H::rnd(3)); q->initialize(); std::vector<int> k; std::string h;
    for (int i = 0; i < n; ++i) { int x = H::rnd(H::chance(50) ? 4 : 100); k.push_back(x); h += H::str(x, ","); H::note(h); q->add(std::make_shared<Val>(Val{ x, i })); }
    std::sort(k.begin(), k.end()); for (int i = 0; i < n; ++i) { VP r = q->pop(); REQUIRE(r && r->key == k[i], "element ", i, " is ", r ? r->key : -1, " want ", k[i]); }
}
// ---- the collectors --------------------------------------------------------------------------
struct OneScorer : public Scorer {
    OneScorer() : Scorer(SimilarityPtr()) {} double s = 0; int d = -1;
    virtual double score() { return s; } virtual int32_t docID() { return d; } virtual int32_t nextDoc() { return d; } virtual int32_t advance(int32_t) { return d; }
};
struct Hit { int doc; double s; };
static bool better(const Hit& a, const Hit& b) { return a.s > b.s || (a.s == b.s && a.doc < b.doc); }
static double someScore(int mode) {
    switch (mode) { case 0: return (double)H::rnd(4); case 1: return (double)H::rnd() / 1e19; case 2: return -(double)H::rnd(5); case 3: return H::chance(30) ? 0.0 : H::chance(50) ? 1e-300 : 1e300; default: return (double)H::rnd(1000) / 7; }
}
SECTION(collect, 4) {
    int N = 1 + H::rnd(H::chance(70) ? 10 : 60), n = H::rnd(H::chance(30) ? 6 : 150), mode = H::rnd(5), segs = 1 + H::rnd(3); bool inOrder = H::chance(50);
    boost::shared_ptr<OneScorer> sc = newLucene<OneScorer>(); TopScoreDocCollectorPtr c = TopScoreDocCollector::create(N, inOrder);
    REQUIRE(c->acceptsDocsOutOfOrder() == !inOrder, "acceptsDocsOutOfOrder");
    std::vector<Hit> all; int base = 0; std::string h = H::str(inOrder ? "in order" : "out of order", " N=", N); c->setScorer(sc);
    for (int g = 0; g < segs; ++g) {
        std::vector<int> docs; int d = 0; for (int i = 0; i < n; ++i) { d += 1 + H::rnd(3); docs.push_back(d); }
        if (!inOrder) std::shuffle(docs.begin(), docs.end(), H::rng());
        c->setNextReader(IndexReaderPtr(), base); h += H::str(" base", base); if (H::chance(50)) { sc = newLucene<OneScorer>(); c->setScorer(sc); }
        for (int x : docs) { sc->s = someScore(mode); sc->d = x; h += H::str(" ", x, ":", sc->s); H::note(h); c->collect(x); all.push_back({ base + x, sc->s }); }
        base += d + 1 + H::rnd(10);
        REQUIRE(c->getTotalHits() == (int)all.size(), "total hits ", c->getTotalHits());
    }
    std::sort(all.begin(), all.end(), better);
    int kept = std::min<int>(N, all.size()), start = H::chance(60) ? 0 : H::rnd(kept + 2) - (int)H::rnd(2), many = H::chance(50) ? N : (int)H::rnd(kept + 3);
    int style = H::rnd(3); TopDocsPtr t;
    if (style == 0) { start = 0; many = N; t = c->topDocs(); } else if (style == 1) { many = N; t = c->topDocs(start); } else t = c->topDocs(start, many);
    h += H::str(" | topDocs(", start, ",", many, ")"); H::note(h);
    if (start < 0 || start >= kept || many <= 0) { REQUIRE(t->scoreDocs.size() == 0, "hits outside the kept range"); return; }
    int want = std::min(kept - start, many);
    REQUIRE(t->totalHits == (int)all.size(), "total hits ", t->totalHits, " want ", all.size());
    REQUIRE(t->scoreDocs.size() == want, "returns ", t->scoreDocs.size(), " hits, want ", want);
    for (int i = 0; i < want; ++i) REQUIRE(t->scoreDocs[i]->doc == all[start + i].doc && t->scoreDocs[i]->score == all[start + i].s, "hit ", i, " is ", t->scoreDocs[i]->doc, " score ", t->scoreDocs[i]->score, " want ", all[start + i].doc, " score ", all[start + i].s);
    REQUIRE(t->maxScore == all[0].s, "max score ", t->maxScore, " want ", all[0].s);
}
SECTION(hitqueue, 1) {
    HitQueuePtr q = newLucene<HitQueue>(10, false);
    auto mk = [] { return newLucene<ScoreDoc>((int)H::rnd(4), someScore(H::rnd(4))); };
    ScoreDocPtr a = mk(), b = mk(); if (H::chance(50)) b->score = a->score;
    H::note(H::str(a->doc, ":", a->score, " ", b->doc, ":", b->score));
    REQUIRE(q->lessThan(a, b) == better({ b->doc, b->score }, { a->doc, a->score }), "lessThan");
    REQUIRE(q->size() == 0 && !q->top(), "queue without sentinels starts empty");
    int n = 1 + H::rnd(8); HitQueuePtr p = newLucene<HitQueue>(n, true); REQUIRE(p->size() == n, "sentinels");
    ScoreDocPtr s = p->top(); REQUIRE(s && s->doc == INT_MAX && s->score == -std::numeric_limits<double>::infinity(), "sentinel value");
}
// ---- whole searches: paging and merging of sub-searchers agree with the full ranking -----------
SECTION(search, 2) {
    int parts = 1 + H::rnd(3); Collection<SearchablePtr> ss = Collection<SearchablePtr>::newInstance(); int n = 0;
    for (int p = 0; p < parts; ++p) {
        RAMDirectoryPtr dir = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
        w->setMaxBufferedDocs(2 + H::rnd(5)); int m = H::rnd(25);
        for (int i = 0; i < m; ++i) { DocumentPtr d = newLucene<Document>(); String t; int k = H::rnd(4); for (int j = 0; j < k; ++j) t += L"a "; k = H::rnd(4); for (int j = 0; j < k; ++j) t += L"b "; d->add(newLucene<Field>(L"f", t, Field::STORE_NO, Field::INDEX_ANALYZED)); w->addDocument(d); }
        w->close(); n += m; ss.add(newLucene<IndexSearcher>(dir, true));
    }
    SearcherPtr s = newLucene<MultiSearcher>(ss); QueryPtr q = newLucene<TermQuery>(newLucene<Term>(L"f", L"a"));
    TopDocsPtr all = s->search(q, FilterPtr(), std::max(1, n)); int k = all->scoreDocs.size();
    H::note(H::str(parts, " parts, ", n, " docs, ", k, " hits"));
    REQUIRE(all->totalHits == k, "total hits");
    for (int i = 1; i < k; ++i) { Hit a{ all->scoreDocs[i - 1]->doc, all->scoreDocs[i - 1]->score }, b{ all->scoreDocs[i]->doc, all->scoreDocs[i]->score }; REQUIRE(better(a, b), "hits ", i - 1, " and ", i, " out of order: ", a.doc, ":", a.s, " ", b.doc, ":", b.s); }
    for (int r = 0; r < 4; ++r) { int N = 1 + H::rnd(k + 2); TopDocsPtr t = s->search(q, FilterPtr(), N); REQUIRE(t->totalHits == k && t->scoreDocs.size() == std::min(N, k), "top ", N, " of ", k);
        for (int i = 0; i < t->scoreDocs.size(); ++i) REQUIRE(t->scoreDocs[i]->doc == all->scoreDocs[i]->doc && t->scoreDocs[i]->score == all->scoreDocs[i]->score, "top ", N, " differs from the full ranking at ", i); }
}
