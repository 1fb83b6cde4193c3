#include "idx.h"
#include "ByteBlockPool.h"
#include "ByteSliceWriter.h"
#include "ByteSliceReader.h"
#include "DocumentsWriter.h"
// an allocator without a DocumentsWriter; recycled blocks are handed out again, as the real one does
struct Alloc : ByteBlockPoolAllocatorBase {
    std::vector<ByteArray> free; int made = 0;
    virtual ~Alloc() {}
    virtual void recycleByteBlocks(Collection<ByteArray> b, int32_t s, int32_t e) { for (int i = s; i < e; ++i) { free.push_back(b[i]); b[i].reset(); } }
    virtual void recycleByteBlocks(Collection<ByteArray> b) { for (int i = 0; i < b.size(); ++i) free.push_back(b[i]); }
    virtual ByteArray getByteBlock(bool) { if (!free.empty()) { ByteArray b = free.back(); free.pop_back(); for (int i = 0; i < b.size(); ++i) REQUIRE(b[i] == 0, "a recycled block is not clear at ", i); return b; } ++made; ByteArray b = ByteArray::newInstance(DocumentsWriter::BYTE_BLOCK_SIZE); memset(b.get(), 0, b.size()); return b; }
};
struct S { int start, end; std::string data; };
static void readBack(const ByteBlockPoolPtr& pool, const S& s, int k) {
    ByteSliceReaderPtr r = newLucene<ByteSliceReader>(); r->init(pool, s.start, s.end); std::string got;
    int mode = H::rnd(3);
    if (mode == 0) { while (!r->eof()) { REQUIRE(got.size() < s.data.size(), "stream ", k, " does not end after ", s.data.size(), " bytes"); got += (char)r->readByte(); } }
    else if (mode == 1) { while (got.size() < s.data.size()) { int n = std::min<size_t>(s.data.size() - got.size(), 1 + (H::chance(50) ? H::rnd(10) : H::rnd(300))); if (H::chance(30)) { got += (char)r->readByte(); continue; } std::string b(n + 4, '\x7e'); r->readBytes((uint8_t*)&b[0], 2, n); REQUIRE(b[1] == '\x7e' && b[n + 2] == '\x7e', "readBytes writes outside its range"); got += b.substr(2, n); } REQUIRE(r->eof(), "stream ", k, " not at its end after ", s.data.size(), " bytes"); }
    else { RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexOutputPtr o = d->createOutput(L"x"); int64_t n = r->writeTo(o); o->close(); REQUIRE(n == (int64_t)s.data.size(), "writeTo reports ", n, " want ", s.data.size()); IndexInputPtr in = d->openInput(L"x"); got.resize((size_t)in->length()); if (got.size()) in->readBytes((uint8_t*)&got[0], 0, (int)got.size()); }
    if (got != s.data) { size_t j = 0; while (j < got.size() && j < s.data.size() && got[j] == s.data[j]) ++j; REQUIRE(false, "stream ", k, " of ", s.data.size(), " bytes differs at ", j, " (read ", got.size(), ", mode ", mode, ")"); }
}
SECTION(streams, 3) {
    boost::shared_ptr<Alloc> al = newInstance<Alloc>(); ByteBlockPoolPtr pool = newLucene<ByteBlockPool>(al, H::chance(50)); std::string tr;
    for (int round = 0, R = 1 + H::rnd(3); round < R; ++round) {
        if (round) pool->reset();
        int n = 1 + H::rnd(H::chance(50) ? 4 : 60); std::vector<S> s; std::vector<ByteSliceWriterPtr> w; long total = H::chance(30) ? 100 : H::chance(60) ? 3000 : 200000; bool zeros = H::chance(40), keep = H::chance(50);
        tr += H::str(" round ", round, ": ", n, " streams, up to ", total, " bytes;"); H::note(tr);
        auto fresh = [&]() { if (DocumentsWriter::BYTE_BLOCK_SIZE - pool->byteUpto < ByteBlockPool::FIRST_LEVEL_SIZE() && H::chance(50)) pool->nextBuffer(); S x; int u = pool->newSlice(ByteBlockPool::FIRST_LEVEL_SIZE()); x.start = x.end = u + pool->byteOffset; s.push_back(x); ByteSliceWriterPtr v = newLucene<ByteSliceWriter>(pool); v->init(x.start); w.push_back(v); };
        fresh();
        while (total > 0) {
            if ((int)s.size() < n && H::chance(30)) fresh();
            int k = H::rnd(s.size()); int c = H::chance(60) ? 1 + H::rnd(12) : 1 + H::rnd(500); total -= c;
            if (!keep) { w[k] = newLucene<ByteSliceWriter>(pool); w[k]->init(s[k].end); }
            std::string b; for (int i = 0; i < c; ++i) b += zeros ? (char)0 : (char)H::rnd(256);
            int how = H::rnd(3);
            if (how == 0) for (char ch : b) w[k]->writeByte((uint8_t)ch);
            else if (how == 1) { std::string p = "ab" + b + "z"; w[k]->writeBytes((const uint8_t*)p.data(), 2, c); }
            else { b.clear(); for (int i = 0; i < c / 3 + 1; ++i) { uint32_t v = (uint32_t)H::edge(32); w[k]->writeVInt((int32_t)v); while (v > 0x7f) { b += (char)(v & 0x7f | 0x80); v >>= 7; } b += (char)v; } }
            s[k].data += b; s[k].end = w[k]->getAddress();
            if (H::chance(1)) readBack(pool, s[k], k);
        }
        for (size_t k = 0; k < s.size(); ++k) readBack(pool, s[k], (int)k);
    }
}
// a single long stream crossing several 32 KB blocks, at every alignment of the first block's end
SECTION(blocks, 1) {
    boost::shared_ptr<Alloc> al = newInstance<Alloc>(); ByteBlockPoolPtr pool = newLucene<ByteBlockPool>(al, false); std::vector<S> s(3); std::vector<ByteSliceWriterPtr> w;
    pool->nextBuffer(); int pad = DocumentsWriter::BYTE_BLOCK_SIZE - (int)H::rnd(900); H::note(H::str("first block filled up to ", pad)); 
    int left = pad; while (left > 200) { pool->newSlice(200); left -= 200; } if (left > 0) pool->newSlice(left);
    for (auto& x : s) { int u = pool->newSlice(5); x.start = x.end = u + pool->byteOffset; w.push_back(newLucene<ByteSliceWriter>(pool)); w.back()->init(x.start); }
    for (int i = 0, n = H::chance(20) ? 120000 : 3000; i < n; ++i) { int k = H::chance(80) ? 0 : H::rnd(3); uint8_t b = (uint8_t)H::rnd(256); w[k]->writeByte(b); s[k].data += (char)b; s[k].end = w[k]->getAddress(); }
    for (int k = 0; k < 3; ++k) readBack(pool, s[k], k);
}
// the bytes as indexing uses them: postings, positions and payloads of terms growing alternately within one flush
SECTION(indexing, 3) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>()); w->setMaxBufferedDocs(10000); X::Inv inv; int n = 1 + H::rnd(60), voc = 1 + H::rnd(H::chance(50) ? 5 : 400), pl = H::rnd(3) ? 0 : 1 + H::rnd(H::chance(20) ? 3000 : 40); int flush = H::chance(30) ? 2 + H::rnd(20) : 1 << 20; int len = H::chance(20) ? 4000 : 200;
    H::note(H::str(n, " documents, ", voc, " words, payloads up to ", pl));
    for (int i = 0; i < n; ++i) { X::Doc x; x.id = i; X::Toks t; for (int k = 0, m = H::rnd(len); k < m; ++k) t.push_back({ L"w" + StringUtils::toString((int32_t)H::rnd(voc)), H::chance(80) ? 1 : (int)H::rnd(H::chance(10) ? 100000 : 4), pl && H::chance(50) ? X::bytes(1 + H::rnd(pl)) : "" }); if (!t.empty() && t[0].inc == 0) t[0].inc = 1; x.f[L"f"] = t; if (H::chance(40)) x.f[L"g"] = X::Toks(t.begin(), t.begin() + t.size() / 2); w->addDocument(X::document(x)); X::invert(inv, i, x); if (i % flush == flush - 1) w->commit(); }
    w->close(); IndexReaderPtr r = IndexReader::open(d, true); REQUIRE(r->numDocs() == n, "documents ", r->numDocs());
    X::terms(r, inv); for (auto& e : inv) X::positions(r, e.first, e.second); r->close();
}
