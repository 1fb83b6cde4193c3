#include "h.h"
#include <unistd.h>
#include "LuceneHeaders.h"
#include "CompoundFileWriter.h"
#include "CompoundFileReader.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "MMapDirectory.h"
#include "SimpleFSDirectory.h"
#include "FileUtils.h"
using namespace Lucene;
typedef std::vector<uint8_t> Bytes;
static int len() { switch (H::rnd(7)) { case 0: return 0; case 1: return 1 + H::rnd(3); case 2: return 1024 + (int)H::rnd(5) - 2; case 3: return 16384 + (int)H::rnd(5) - 2; case 4: return 2 * 16384 + (int)H::rnd(5) - 2; case 5: return H::rnd(40000); default: return H::rnd(300); } }
static void reads(const IndexInputPtr& in0, const Bytes& m, const std::string& w, int steps) {
    IndexInputPtr in = in0; int64_t p = 0; std::string tr; std::vector<std::pair<IndexInputPtr, int64_t>> others; int n = (int)m.size();
    REQUIRE(in->length() == n, w, " length ", in->length(), " want ", n);
    for (int s = 0; s < steps; ++s) {
        REQUIRE(in->getFilePointer() == p, w, " position ", in->getFilePointer(), " want ", p, " after", tr);
        switch (H::rnd(6)) {
        case 0: { int64_t q = H::chance(70) ? H::rnd(n + 1) : std::max(0, n - (int)H::rnd(20)); in->seek(q); p = q; tr += H::str(" s", q); break; }
        case 1: if (p < n) { tr += " b"; uint8_t b = in->readByte(); REQUIRE(b == m[p], w, " byte at ", p, " is ", (int)b, " want ", (int)m[p], " after", tr); ++p; } else { tr += " b!"; bool t = false; try { in->readByte(); } catch (IOException&) { t = true; } REQUIRE(t, w, " byte read beyond the end after", tr); return; } break;
        case 2: case 3: { int k = H::chance(50) ? H::rnd(20) : H::rnd(4000); if (p + k > n) k = (int)(n - p); tr += H::str(" r", k); Bytes b(k + 8, 0xA5); in->readBytes(b.data(), 4, k); for (int i = 0; i < k; ++i) REQUIRE(b[4 + i] == m[p + i], w, " byte ", p + i, " read as ", (int)b[4 + i], " want ", (int)m[p + i], " after", tr); for (int i : { 0, 1, 2, 3, k + 4, k + 5, k + 6, k + 7 }) REQUIRE(b[i] == 0xA5, w, " wrote outside the target"); p += k; break; }
        case 4: { tr += " clone"; IndexInputPtr c = boost::dynamic_pointer_cast<IndexInput>(in->clone()); REQUIRE(c->getFilePointer() == p && c->length() == n, w, " clone is elsewhere"); others.push_back({ in, p }); if (others.size() > 1 && H::chance(50)) { int k = H::rnd(others.size()); in = others[k].first; p = others[k].second; others.erase(others.begin() + k); others.push_back({ c, c->getFilePointer() }); } else in = c; break; }
        default: if (H::chance(10)) { int k = (int)(n - p) + 1 + H::rnd(50); tr += H::str(" r!", k); Bytes b(k); bool t = false; try { in->readBytes(b.data(), 0, k); } catch (IOException&) { t = true; } REQUIRE(t, w, " ", k, " bytes read beyond the end at ", p, " after", tr); return; }
        }
    }
}
SECTION(pack, 4) {
    int kind = H::rnd(4); DirectoryPtr d; String path; static int serial = 0;
    if (kind < 2) d = newLucene<RAMDirectory>(); else { std::string s = std::string(H::env("HARNESS_SCRATCH", ".")) + H::str("/cf", (long)::getpid(), "_", serial++); path = StringUtils::toUnicode(s); if (kind == 2) d = newLucene<SimpleFSDirectory>(path); else d = newLucene<MMapDirectory>(path); }
    int n = 1 + H::rnd(8); std::map<String, Bytes> m; std::string t; std::vector<String> order;
    for (int i = 0; i < n; ++i) { String nm = L"_f" + StringUtils::toString(i) + (H::chance(50) ? L".x" : L".longextension"); Bytes b(len()); for (auto& x : b) x = (uint8_t)H::rnd(); IndexOutputPtr o = d->createOutput(nm); if (!b.empty()) o->writeBytes(b.data(), (int)b.size()); o->close(); m[nm] = b; order.push_back(nm); t += H::str(" ", b.size()); }
    H::note(H::str("directory ", kind, " lengths", t)); std::shuffle(order.begin(), order.end(), H::rng());
    CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(d, L"whole.cfs"); for (auto& f : order) w->addFile(f); bool dup = false; try { w->addFile(order[0]); } catch (IllegalArgumentException&) { dup = true; } REQUIRE(dup, "the same file added twice"); w->close();
    if (H::chance(50)) for (auto& f : order) d->deleteFile(f);
    CompoundFileReaderPtr r = H::chance(50) ? newLucene<CompoundFileReader>(d, L"whole.cfs") : newLucene<CompoundFileReader>(d, L"whole.cfs", 1 + (int)H::rnd(H::chance(50) ? 30 : 5000));
    HashSet<String> ls = r->listAll(); REQUIRE(ls.size() == n, "lists ", ls.size(), " files, want ", n);
    std::vector<IndexInputPtr> ins;
    for (auto& e : m) { REQUIRE(r->fileExists(e.first) && ls.contains(e.first), "file missing"); REQUIRE(r->fileLength(e.first) == (int64_t)e.second.size(), "file length ", r->fileLength(e.first), " want ", e.second.size()); ins.push_back(r->openInput(e.first)); }
    REQUIRE(!r->fileExists(L"nothing"), "file that was not packed"); bool t1 = false; try { r->openInput(L"nothing"); } catch (IOException&) { t1 = true; } REQUIRE(t1, "opened a file that was not packed");
    for (int k = 0; k < 2 * n; ++k) { auto e = m.begin(); int i = H::rnd(n); std::advance(e, i); if (k < n) { i = k; e = m.begin(); std::advance(e, i); } IndexInputPtr in = k < n ? ins[i] : r->openInput(e->first, 1 + H::rnd(3000)); reads(in, e->second, "file " + H::narrow(e->first), 30); }
    // all at once, byte by byte in random turns
    std::vector<int> pos(n, 0); std::vector<IndexInputPtr> again; for (auto& e : m) again.push_back(r->openInput(e.first));
    for (int s = 0; s < 400; ++s) { int i = H::rnd(n); auto e = m.begin(); std::advance(e, i); if (pos[i] < (int)e->second.size()) { uint8_t b = again[i]->readByte(); REQUIRE(b == e->second[pos[i]], "interleaved read of file ", i, " at ", pos[i]); pos[i]++; } }
    r->close(); d->close();
    if (kind >= 2) { for (auto& x : m) FileUtils::removeFile(FileUtils::joinPath(path, x.first)); FileUtils::removeFile(FileUtils::joinPath(path, L"whole.cfs")); FileUtils::removeDirectory(path); }
}
