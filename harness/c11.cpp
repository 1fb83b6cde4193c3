#include "idx.h"
static X::Toks toks(int n, bool pay, int paymode) {
    static const wchar_t* W[] = { L"all", L"half", L"tenth", L"rare" }; X::Toks t;
    for (int i = 0; i < n; ++i) {
        int k = H::rnd(100); X::Tok x; x.text = W[k < 55 ? 0 : k < 80 ? 1 : k < 96 ? 2 : 3];
        x.inc = H::chance(60) ? 1 : H::chance(30) ? 0 : H::chance(50) ? 2 + H::rnd(130) : H::chance(80) ? H::rnd(20000) : 3000000; if (i == 0 && x.inc == 0) x.inc = 1;
        if (pay) { int n = paymode == 0 ? 4 : paymode == 1 ? (H::chance(85) ? 3 : (int)H::rnd(5)) : paymode == 2 ? (int)H::rnd(4) : (H::chance(98) ? 0 : (int)H::rnd(300)); x.payload = X::bytes(n); }
        t.push_back(x);
    }
    return t;
}
static int freqs() { int k = H::rnd(100); return k < 50 ? 1 : k < 85 ? 1 + (int)H::rnd(4) : k < 99 ? (int)H::rnd(12) : (int)H::rnd(300); }
SECTION(postings, 5) {
    int n = H::chance(40) ? 1 + H::rnd(60) : H::chance(75) ? 200 + H::rnd(700) : 4000 + H::rnd(1500), buf = H::chance(50) ? 1000000 : std::max(2, n / (2 + (int)H::rnd(5))); bool optimize = H::chance(50); int paymode = H::rnd(4); bool big = n > 2000;
    std::set<std::wstring> omit; omit.insert(L"o"); RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    LogDocMergePolicyPtr p = newLucene<LogDocMergePolicy>(w); p->setUseCompoundFile(H::chance(50)); w->setMergePolicy(p); w->setMergeScheduler(newLucene<SerialMergeScheduler>()); w->setMaxBufferedDocs(buf); w->setRAMBufferSizeMB(IndexWriter::DISABLE_AUTO_FLUSH); w->setMergeFactor(3 + H::rnd(8));
    std::vector<X::Doc> ds; int gapat = H::rnd(n), gap = H::chance(30) ? n / 3 : 0;
    for (int i = 0; i < n; ++i) { X::Doc x; x.id = i; bool hole = i >= gapat && i < gapat + gap;
        if (!hole && H::chance(92)) x.f[L"p"] = toks(big ? 1 + H::rnd(3) : freqs(), true, paymode); if (!hole && !big && H::chance(70)) x.f[L"q"] = toks(freqs(), false, 0); if (!hole && H::chance(big ? 20 : 70)) x.f[L"o"] = toks(freqs() % 5, false, 0); ds.push_back(x); w->addDocument(X::document(x, omit)); }
    H::note(H::str(n, " documents, flushed every ", buf, ", optimized ", optimize, ", payloads of kind ", paymode));
    if (optimize) w->optimize(); w->close();
    std::vector<bool> gone(n, false);
    if (H::chance(60)) { IndexReaderPtr r = IndexReader::open(d, false); int pc = H::chance(50) ? 5 : 1 + H::rnd(99), lo = H::rnd(n); for (int i = 0; i < n; ++i) if (H::chance(pc) || (i >= lo && i < lo + 40)) { r->deleteDocument(i); gone[i] = true; } r->close();
        if (H::chance(40)) { IndexWriterPtr w2 = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), false, IndexWriter::MaxFieldLengthUNLIMITED); w2->setMergeScheduler(newLucene<SerialMergeScheduler>()); w2->optimize(); w2->close(); std::vector<X::Doc> k; for (int i = 0; i < n; ++i) if (!gone[i]) k.push_back(ds[i]); ds = k; gone.assign(k.size(), false); } }
    X::Inv v; for (size_t i = 0; i < ds.size(); ++i) X::invert(v, (int)i, ds[i]);
    IndexReaderPtr r = IndexReader::open(d, true); REQUIRE(r->maxDoc() == (int)ds.size(), "maxDoc");
    if (ds.size() < 500) X::terms(r, v);
    for (auto& e : v) { if (e.first.first == L"id" && !H::chance(2)) continue; bool om = omit.count(e.first.first) > 0;
        X::docs(r, e.first, e.second, om); for (int k = 0; k < 4; ++k) X::skips(r, e.first, e.second, om, 30, k == 0 ? 3 : k == 1 ? 40 : k == 2 ? 300 : (int)ds.size() + 1);
        if (!om) X::positions(r, e.first, e.second); }
    // one enumerator over several terms in turn, left half read
    TermPositionsPtr tp = r->termPositions();
    for (int k = 0; k < 12 && !v.empty(); ++k) { auto e = v.begin(); std::advance(e, H::rnd(v.size())); if (omit.count(e->first.first)) continue; tp->seek(newLucene<Term>(e->first.first, e->first.second)); int m = H::rnd(12);
        for (auto& q : e->second) { if (r->isDeleted(q.first)) continue; if (m-- == 0) break; bool far = H::chance(30); if (far ? !tp->skipTo(q.first) : !tp->next()) REQUIRE(false, X::nm(e->first), ": ends before ", q.first); REQUIRE(tp->doc() == q.first && tp->freq() == q.second.freq, X::nm(e->first), ": reused enumerator is at ", tp->doc(), " freq ", tp->freq(), " want ", q.first, " freq ", q.second.freq);
            int c = H::chance(50) ? q.second.freq : (int)H::rnd(q.second.freq + 1); for (int j = 0; j < c; ++j) { int p = tp->nextPosition(); REQUIRE(p == q.second.pos[j].first, X::nm(e->first), ": reused enumerator position ", p, " want ", q.second.pos[j].first, " in ", q.first); if (H::chance(50)) { REQUIRE(tp->getPayloadLength() == (int)q.second.pos[j].second.size(), "payload length"); if (tp->isPayloadAvailable() && H::chance(50)) { ByteArray b = ByteArray::newInstance(H::rnd(8)); int off = H::rnd(b.size() + 1); ByteArray g = tp->getPayload(b, off); int at = g.get() == b.get() ? off : 0; REQUIRE(!memcmp(g.get() + at, q.second.pos[j].second.data(), q.second.pos[j].second.size()), "payload bytes"); } } } } }
    // the reader's own enumeration of all documents
    TermDocsPtr all = r->termDocs(TermPtr()); int at = -1; while (all->next()) { int k = at + 1; while (k < r->maxDoc() && r->isDeleted(k)) ++k; REQUIRE(all->doc() == k && all->freq() == 1, "all documents: at ", all->doc(), " want ", k); at = k; } for (int k = at + 1; k < r->maxDoc(); ++k) REQUIRE(r->isDeleted(k), "all documents: ", k, " missing");
    r->close();
}
