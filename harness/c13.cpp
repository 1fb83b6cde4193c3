#include "idx.h"
#include "MultiReader.h"
#include "MultiSearcher.h"
#include "ReaderUtil.h"
#include "MergeDocIDRemapper.h"
#include "SegmentMergeInfo.h"
#include "LogByteSizeMergePolicy.h"
#include "ParallelMultiSearcher.h"
#include "TermFreqVector.h"
#include "DirectoryReader.h"
#include "SegmentInfo.h"
#include "SegmentInfos.h"
#include "ParallelMultiSearcher.h"
typedef std::vector<int> Ints;
static Ints sizes(int n) { Ints s; for (int i = 0; i < n; ++i) s.push_back(H::chance(30) ? 0 : 1 + (int)H::rnd(H::chance(20) ? 500 : 6)); return s; }
static Collection<int32_t> coll(const Ints& v) { Collection<int32_t> c = Collection<int32_t>::newInstance(); for (int x : v) c.add(x); return c; }
static int owner(const Ints& s, int n) { int b = 0; for (size_t k = 0; k < s.size(); ++k) { if (n < b + s[k]) return (int)k; b += s[k]; } return -1; }
SECTION(search, 1) {
    Ints s = sizes(1 + H::rnd(20)), st; int t = 0; for (int x : s) { st.push_back(t); t += x; }
    H::note(H::str(s.size(), " parts, ", t, " documents"));
    for (int i = 0; i < t; i += 1 + H::rnd(1 + t / 50)) {
        int w = owner(s, i); Ints st2 = st; st2.push_back(t);
        REQUIRE(ReaderUtil::subIndex(i, coll(st)) == w, "subIndex of ", i, " is ", ReaderUtil::subIndex(i, coll(st)), " want ", w);
        REQUIRE(ReaderUtil::subIndex(i, coll(st2)) == w, "subIndex with total of ", i);
        REQUIRE(DirectoryReader::readerIndex(i, coll(st2), (int)s.size()) == w, "readerIndex of ", i);
    }
}
SECTION(remapper, 2) {
    // an index of segments with deletions; merge an interior run of them
    int n = 1 + H::rnd(12), f = H::rnd(n), m = 1 + H::rnd(n - f); DirectoryPtr d = newLucene<RAMDirectory>();
    SegmentInfosPtr all = newLucene<SegmentInfos>(), run = newLucene<SegmentInfos>(); Ints cnt; std::vector<std::vector<bool>> del; std::vector<bool> has;
    for (int i = 0; i < n; ++i) {
        int c = 1 + H::rnd(9); cnt.push_back(c); SegmentInfoPtr si = newLucene<SegmentInfo>(L"_" + StringUtils::toString(i), c, d); all->add(si); if (i >= f && i < f + m) run->add(si);
        has.push_back(H::chance(70)); std::vector<bool> x(c); if (has[i]) for (int k = 0; k < c; ++k) x[k] = H::chance(40); if (H::chance(10) && has[i]) x.assign(c, true); del.push_back(x);
    }
    Collection< Collection<int32_t> > maps = Collection< Collection<int32_t> >::newInstance(m); Collection<int32_t> dels = Collection<int32_t>::newInstance(m); int merged = 0, total = 0;
    for (int j = 0; j < m; ++j) { Ints mp; int k = 0, dc = 0; for (int i = 0; i < cnt[f + j]; ++i) { if (del[f + j][i]) { mp.push_back(-1); ++dc; } else mp.push_back(k++); } if (has[f + j]) maps[j] = coll(mp); dels[j] = dc; merged += k; total += cnt[f + j]; }
    MergeDocIDRemapperPtr r = newLucene<MergeDocIDRemapper>(all, maps, dels, newLucene<OneMerge>(run, false), merged);
    int old = 0, now = 0;
    for (int i = 0; i < n; ++i) for (int k = 0; k < cnt[i]; ++k, ++old) {
        bool in = i >= f && i < f + m, gone = in && del[i][k];
        if (!gone) { REQUIRE(r->remap(old) == now, "document ", old, " (segment ", i, " of ", n, ", merged ", f, "+", m, ") becomes ", r->remap(old), " want ", now); ++now; }
    }
    REQUIRE(r->remap(old) == now, "number after the last document becomes ", r->remap(old), " want ", now);
}
// ---- real indexes
struct Ix { RAMDirectoryPtr dir; std::vector<int> ids; std::vector<bool> gone; };      // gone but not expunged documents keep their number
static DocumentPtr mk(int id) {
    DocumentPtr d = newLucene<Document>(); d->add(newLucene<Field>(L"id", StringUtils::toString(id), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
    d->add(newLucene<Field>(L"mod", StringUtils::toString(id % 3), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
    d->add(newLucene<Field>(L"tv", L"t" + StringUtils::toString(id) + L" x", Field::STORE_NO, Field::INDEX_ANALYZED, Field::TERM_VECTOR_YES)); return d;
}
static IndexWriterPtr writer(const DirectoryPtr& d, bool create, int buf, int mf) {
    IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), create, IndexWriter::MaxFieldLengthUNLIMITED);
    LogDocMergePolicyPtr p = newLucene<LogDocMergePolicy>(w); p->setMergeFactor(mf); p->setUseCompoundFile(H::chance(50)); p->setUseCompoundDocStore(H::chance(50)); w->setMergePolicy(p);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>()); w->setMaxBufferedDocs(buf); w->setMergeFactor(mf); return w;
}
static Ix make(int& next, int n) {
    Ix x; x.dir = newLucene<RAMDirectory>(); IndexWriterPtr w = writer(x.dir, true, 2 + H::rnd(5), 10); for (int i = 0; i < n; ++i) { x.ids.push_back(next); w->addDocument(mk(next++)); } w->close(); x.gone.assign(n, false);
    if (n && H::chance(60)) { IndexReaderPtr r = IndexReader::open(x.dir, false); for (int i = 0; i < n; ++i) if (H::chance(25)) { r->deleteDocument(i); x.gone[i] = true; } r->close(); }
    return x;
}
// the whole reader against the sequence of (id, gone)
static void whole(const IndexReaderPtr& r, const Ints& ids, const std::vector<bool>& gone, const std::string& w) {
    int live = 0; for (bool g : gone) live += !g;
    REQUIRE(r->maxDoc() == (int)ids.size(), w, ": maxDoc ", r->maxDoc(), " want ", ids.size()); REQUIRE(r->numDocs() == live, w, ": numDocs ", r->numDocs(), " want ", live);
    REQUIRE(r->hasDeletions() == (live != (int)ids.size()), w, ": hasDeletions");
    for (size_t i = 0; i < ids.size(); ++i) {
        REQUIRE(r->isDeleted((int)i) == (bool)gone[i], w, ": isDeleted(", i, ")"); if (gone[i]) continue;
        String s = r->document((int)i)->get(L"id"); REQUIRE(s == StringUtils::toString(ids[i]), w, ": document ", i, " is ", H::narrow(s), " want ", ids[i]);
        TermFreqVectorPtr tv = r->getTermFreqVector((int)i, L"tv"); REQUIRE(tv && tv->getTerms()[0] == L"t" + StringUtils::toString(ids[i]), w, ": term vector of document ", i);
        TermDocsPtr td = r->termDocs(newLucene<Term>(L"id", StringUtils::toString(ids[i]))); REQUIRE(td->next() && td->doc() == (int)i && !td->next(), w, ": postings of id ", ids[i], " do not give ", i);
    }
    for (int m = 0; m < 3; ++m) {
        TermDocsPtr td = r->termDocs(newLucene<Term>(L"mod", StringUtils::toString(m))); Collection<int32_t> D = Collection<int32_t>::newInstance(7), F = Collection<int32_t>::newInstance(7); bool bulk = H::chance(50); int have = 0, at = 0;
        for (size_t i = 0; i < ids.size(); ++i) { if (gone[i] || ids[i] % 3 != m) continue; int d; if (bulk) { if (at == have) { have = td->read(D, F); at = 0; } d = at < have ? D[at++] : -1; } else d = td->next() ? td->doc() : -1; REQUIRE(d == (int)i, w, ": postings of mod ", m, " give ", d, " want ", i); }
        REQUIRE(bulk ? (at == have && td->read(D, F) == 0) : !td->next(), w, ": more postings of mod ", m);
        td = r->termDocs(newLucene<Term>(L"mod", StringUtils::toString(m))); int p = -1;      // skipTo across parts
        for (int k = 0; k < 6; ++k) { int t = p + 1 + H::rnd(1 + ids.size() / 3); int e = -1; for (size_t i = t; i < ids.size(); ++i) if (!gone[i] && ids[i] % 3 == m) { e = (int)i; break; } bool b = td->skipTo(t); REQUIRE(b == (e >= 0) && (!b || td->doc() == e), w, ": skipTo(", t, ") of mod ", m, " gives ", b ? td->doc() : -1, " want ", e); if (!b) break; p = e; }
    }
}
SECTION(readers, 4) {
    int next = 0, n = 1 + H::rnd(5); Collection<IndexReaderPtr> rs = Collection<IndexReaderPtr>::newInstance(); Collection<SearchablePtr> ss = Collection<SearchablePtr>::newInstance(); Ints ids; std::vector<bool> gone; std::string log;
    for (int i = 0; i < n; ++i) {
        Ix x = make(next, H::chance(25) ? 0 : H::rnd(20)); log += H::str(" ", x.ids.size()); IndexReaderPtr r = IndexReader::open(x.dir, false); ss.add(newLucene<IndexSearcher>(r));
        if (H::chance(20)) { Collection<IndexReaderPtr> in = Collection<IndexReaderPtr>::newInstance(); in.add(r); Ix y = make(next, H::rnd(6)); in.add(IndexReader::open(y.dir, false)); r = newLucene<MultiReader>(in); ss[i] = newLucene<IndexSearcher>(r); x.ids.insert(x.ids.end(), y.ids.begin(), y.ids.end()); x.gone.insert(x.gone.end(), y.gone.begin(), y.gone.end()); log += H::str("+", y.ids.size()); }
        rs.add(r); ids.insert(ids.end(), x.ids.begin(), x.ids.end()); gone.insert(gone.end(), x.gone.begin(), x.gone.end());
    }
    H::note("parts" + log); IndexReaderPtr mr = newLucene<MultiReader>(rs, true); whole(mr, ids, gone, "multi reader");
    // searching through parts gives global numbers
    SearcherPtr s = H::chance(50) ? SearcherPtr(newLucene<MultiSearcher>(ss)) : SearcherPtr(newLucene<ParallelMultiSearcher>(ss)); REQUIRE(s->maxDoc() == (int)ids.size(), "searcher maxDoc"); MultiSearcherPtr ms = boost::dynamic_pointer_cast<MultiSearcher>(s);
    for (int k = 0; k < 6 && !ids.empty(); ++k) {
        int i = H::rnd(ids.size()); TopDocsPtr t = s->search(newLucene<TermQuery>(newLucene<Term>(L"id", StringUtils::toString(ids[i]))), 5);
        REQUIRE(t->totalHits == (gone[i] ? 0 : 1), "search for id ", ids[i], ": ", t->totalHits, " hits"); if (!gone[i]) { REQUIRE(t->scoreDocs[0]->doc == i, "search for id ", ids[i], " gives ", t->scoreDocs[0]->doc, " want ", i); REQUIRE(s->doc(i)->get(L"id") == StringUtils::toString(ids[i]), "searcher's document ", i); }
        int sub = ms->subSearcher(i); REQUIRE(ms->subDoc(i) == i - ms->starts[sub] && ms->subDoc(i) < ss[sub]->maxDoc() && ms->subDoc(i) >= 0, "subDoc of ", i);
    }
    for (int k = 0; k < 5 && !ids.empty(); ++k) { int i = H::rnd(ids.size()); if (gone[i]) continue; mr->deleteDocument(i); gone[i] = true; log += H::str(" del", i); H::note("parts" + log); }
    whole(mr, ids, gone, "multi reader after deletions"); 
}
SECTION(merging, 5) {
    // buffered deletes carried through merges, expunging, optimising, adding indexes: documents keep their order of adding
    RAMDirectoryPtr d = newLucene<RAMDirectory>(); int next = 0; Ints ids; std::map<int, bool> gone; std::string log; bool first = true;
    for (int round = 0, R = 1 + H::rnd(4); round < R; ++round) {
        int buf = 2 + H::rnd(4), mf = 2 + H::rnd(3); IndexWriterPtr w = writer(d, first, buf, mf); first = false; w->setMaxBufferedDeleteTerms(H::chance(50) ? IndexWriter::DISABLE_AUTO_FLUSH : 1 + H::rnd(6)); H::note(log += H::str(" [buf", buf, " mf", mf));
        for (int k = 0, K = H::rnd(30); k < K; ++k) {
            int o = H::rnd(20); H::note(log);
            if (o < 11) { H::note(log += H::str(" +", next)); ids.push_back(next); w->addDocument(mk(next++)); }
            else if (o < 14 && !ids.empty()) { int i = ids[H::rnd(ids.size())]; H::note(log += H::str(" -", i)); w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(i))); gone[i] = true; }
            else if (o < 15 && !ids.empty()) { int i = ids[H::rnd(ids.size())]; bool g = gone[i]; H::note(log += H::str(" u", i)); w->updateDocument(newLucene<Term>(L"id", StringUtils::toString(i)), mk(i)); if (!g) { ids.erase(std::find(ids.begin(), ids.end(), i)); } else { ids.erase(std::find(ids.begin(), ids.end(), i)); gone[i] = false; } ids.push_back(i); }
            else if (o < 16 && !ids.empty()) { int m = H::rnd(3); H::note(log += H::str(" q", m)); w->deleteDocuments(newLucene<TermQuery>(newLucene<Term>(L"mod", StringUtils::toString(m)))); for (int i : ids) if (i % 3 == m) gone[i] = true; }
            else if (o < 17) { H::note(log += " c"); w->commit(); } else if (o < 18) { H::note(log += " x"); w->expungeDeletes(); } else if (o < 19 && H::chance(30)) { H::note(log += " o"); w->optimize(); }
            else if (H::chance(20)) { Ix x = make(next, H::rnd(8)); H::note(log += H::str(" a", x.ids.size())); w->addIndexesNoOptimize(newCollection<DirectoryPtr>(x.dir)); for (size_t i = 0; i < x.ids.size(); ++i) { ids.push_back(x.ids[i]); if (x.gone[i]) gone[x.ids[i]] = true; } }
        }
        if (H::chance(30)) { H::note(log += " opt"); w->optimize(); } w->close(); H::note(log += "]"); H::note(log);
        IndexReaderPtr r = IndexReader::open(d, true); Ints got, want; for (int i : ids) if (!gone[i]) want.push_back(i);
        for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) { String t = r->document(i)->get(L"id"); got.push_back(StringUtils::toInt(t)); TermDocsPtr td = r->termDocs(newLucene<Term>(L"id", t)); REQUIRE(td->next() && td->doc() == i, "postings of ", H::narrow(t), " do not give ", i); }
        if (got != want) { std::string g; for (int x : got) g += H::str(x, " "); g += "/ want "; for (int x : want) g += H::str(x, " "); REQUIRE(false, "live documents in order: ", g.substr(0, 600)); }
        REQUIRE(r->numDocs() == (int)want.size(), "numDocs ", r->numDocs());
        // the document map of each segment
        Collection<IndexReaderPtr> subs = r->getSequentialSubReaders(); if (subs) for (int k = 0; k < subs.size(); ++k) { SegmentMergeInfoPtr si = newLucene<SegmentMergeInfo>(0, subs[k]->terms(), subs[k]); Collection<int32_t> mp = si->getDocMap(); int j = 0; REQUIRE(bool(mp) == subs[k]->hasDeletions(), "document map"); if (mp) { for (int i = 0; i < subs[k]->maxDoc(); ++i) { int e = subs[k]->isDeleted(i) ? -1 : j++; REQUIRE(mp[i] == e, "map of ", i, " is ", mp[i], " want ", e); } REQUIRE(si->delCount == subs[k]->maxDoc() - j, "delCount"); } }
        r->close();
    }
}
