#include "h.h"
#include "BufferedIndexOutput.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "RAMDirectory.h"
#include "IndexOutput.h"
#include "IndexInput.h"
#include "ChecksumIndexOutput.h"
#include "ChecksumIndexInput.h"
#include "FileUtils.h"
using namespace Lucene;
typedef std::vector<uint8_t> Bytes;
static void put(Bytes& f, int64_t p, const uint8_t* b, int64_t n) { if ((int64_t)f.size() < p + n) f.resize(p + n, 0); if (n) memcpy(&f[p], b, n); }
class GhostOutput : public BufferedIndexOutput {
public:
    GhostOutput() : pp(0) {}
    LUCENE_CLASS(GhostOutput);
    Bytes f; int64_t pp;
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) { put(f, pp, b + offset, length); pp += length; }
    virtual void seek(int64_t pos) { BufferedIndexOutput::seek(pos); pp = pos; }
    virtual int64_t length() { return f.size(); }
};
static uint32_t crc(const uint8_t* b, size_t n, uint32_t c = 0) { c = ~c; for (size_t i = 0; i < n; ++i) { c ^= b[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); } return ~c; }
static const int BS = 16384;
static int blen(int pos) { int fill = pos % BS; if (H::chance(3)) return H::rnd(25 * BS); switch (H::rnd(8)) { case 0: return H::rnd(10); case 1: return BS - fill; case 2: return BS - fill + (int)H::rnd(3) - 1 < 0 ? 0 : BS - fill + (int)H::rnd(3) - 1; case 3: return BS + (int)H::rnd(3) - 1; case 4: return H::rnd(3 * BS); case 5: return 2 * BS + (int)H::rnd(3) - 1; case 6: return 2 * BS - fill + (int)H::rnd(3) - 1; default: return H::rnd(BS); } }
// random history; f is the model of what the output must contain
static void drive(IndexOutputPtr o, Bytes& f, bool seeks, int ops, std::string log) {
    int64_t p = 0; Bytes b;
    for (int i = 0; i < ops && f.size() < 400000; ++i) {
        REQUIRE(o->getFilePointer() == p, "position ", o->getFilePointer(), " want ", p);
        if (log.size() > 3000) log = log.substr(log.size() - 2000);
        int op = H::rnd(12); log += H::str(" ", op, "@", p); H::note(log);
        switch (op) {
            case 0: case 1: { uint8_t x = H::rnd(); o->writeByte(x); put(f, p, &x, 1); p++; break; }
            case 2: { int n = H::chance(20) ? BS : 1 + H::rnd(200); log += H::str("x", n); for (int k = 0; k < n; ++k) { uint8_t x = H::rnd(); o->writeByte(x); put(f, p, &x, 1); p++; } break; }
            case 3: case 4: case 5: case 6: { int n = std::max(0, blen((int)p)), off = H::rnd(9); log += H::str("x", n); H::note(log); b.resize(n + off + 5); for (auto& x : b) x = H::rnd(); o->writeBytes(&b[0], off, n); put(f, p, &b[off], n); p += n; break; }
            case 7: { int n = H::rnd(30); b.resize(n + 1); for (auto& x : b) x = H::rnd(); o->writeBytes(&b[0], n); put(f, p, &b[0], n); p += n; break; }
            case 8: { uint32_t v = H::edge(32); o->writeInt(v); uint8_t x[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; put(f, p, x, 4); p += 4; break; }
            case 9: o->flush(); break;
            case 10: if (seeks) { int64_t t; switch (H::rnd(4)) { case 0: t = f.size(); break; case 1: t = 0; break; case 2: t = std::max<int64_t>(0, std::min<int64_t>(f.size(), p + (int64_t)H::rnd(40) - 20)); break; default: t = H::rnd(f.size() + 1); } log += H::str(">", t); H::note(log); o->seek(t); p = t; } break;
            default: { uint64_t v = H::edge(64); uint8_t x[10]; int n = 0; uint64_t w = v; while (w >= 128) { x[n++] = (w & 127) | 128; w >>= 7; } x[n++] = (uint8_t)w; o->writeVLong(v); put(f, p, x, n); p += n; }
        }
    }
    REQUIRE(o->getFilePointer() == p, "final position ", o->getFilePointer(), " want ", p);
    H::note(log);
}
static void eq(const Bytes& a, const Bytes& b) { REQUIRE(a.size() == b.size(), "file has ", a.size(), " bytes, want ", b.size()); for (size_t i = 0; i < a.size(); ++i) REQUIRE(a[i] == b[i], "byte ", i, " is ", (int)a[i], " want ", (int)b[i]); }
SECTION(memory, 4) {
    boost::shared_ptr<GhostOutput> g = newLucene<GhostOutput>(); Bytes f;
    drive(g, f, H::chance(60), 1 + H::rnd(60), "memory:"); g->close(); eq(g->f, f);
}
SECTION(disk, 4) {
    static String dir = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/d"); static SimpleFSDirectoryPtr sd = newLucene<SimpleFSDirectory>(dir);
    FileUtils::createDirectory(dir);
    IndexOutputPtr o = sd->createOutput(L"f"); Bytes f, g; drive(o, f, H::chance(60), 1 + H::rnd(40), "disk:"); o->close(); o.reset();
    std::ifstream in((std::string(H::env("HARNESS_SCRATCH", ".")) + "/d/f").c_str(), std::ios::binary); g.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    eq(g, f); sd->deleteFile(L"f");
}
SECTION(pairs, 1) {
    // two consecutive blocks of every length around the buffer size
    int a = H::chance(10) ? (int)H::rnd(40 * BS) : std::max(0, blen(0)), b = std::max(0, blen(a)), pre = H::rnd(3), mid = H::rnd(3); Bytes x(a + 1), y(b + 1), f; for (auto& v : x) v = H::rnd(); for (auto& v : y) v = H::rnd();
    H::note(H::str("bytes ", pre, " block ", a, " bytes ", mid, " block ", b));
    boost::shared_ptr<GhostOutput> g = newLucene<GhostOutput>();
    for (int i = 0; i < pre; ++i) { g->writeByte(7); f.push_back(7); } g->writeBytes(&x[0], 0, a); put(f, f.size(), &x[0], a);
    for (int i = 0; i < mid; ++i) { g->writeByte(9); f.push_back(9); } g->writeBytes(&y[0], 0, b); put(f, f.size(), &y[0], b);
    REQUIRE(g->getFilePointer() == (int64_t)f.size(), "position"); g->close(); eq(g->f, f);
}
SECTION(checksum, 2) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>(); IndexOutputPtr m = d->createOutput(L"c"); ChecksumIndexOutputPtr o = newLucene<ChecksumIndexOutput>(m); Bytes f;
    drive(o, f, false, 1 + H::rnd(30), "checksum:");
    uint32_t want = f.empty() ? 0 : crc(&f[0], f.size());
    REQUIRE(o->getChecksum() == (int64_t)want, "checksum ", o->getChecksum(), " want ", want);
    bool t = false; try { o->seek(0); } catch (RuntimeException&) { t = true; } REQUIRE(t, "seek on a checksumming output accepted");
    int nprep = H::rnd(3); for (int i = 0; i < nprep; ++i) { int64_t p = o->getFilePointer(); o->prepareCommit(); REQUIRE(o->getFilePointer() == p, "prepareCommit moved the position"); REQUIRE(o->getChecksum() == (int64_t)want, "prepareCommit changed the checksum");
        IndexInputPtr in = d->openInput(L"c"); in->seek(p); REQUIRE(in->readLong() != (int64_t)want, "prepared commit already carries the valid checksum"); }
    o->finishCommit(); o->close();
    IndexInputPtr in = d->openInput(L"c"); REQUIRE(in->length() == (int64_t)f.size() + 8, "length ", in->length(), " want ", f.size() + 8);
    ChecksumIndexInputPtr ci = newLucene<ChecksumIndexInput>(in); size_t p = 0; Bytes b(f.size() + 10);
    while (p < f.size()) {
        if (H::chance(50)) { uint8_t x = ci->readByte(); REQUIRE(x == f[p], "byte ", p); p++; }
        else { int n = H::rnd(std::min<size_t>(f.size() - p, 1 + H::rnd(30000)) + 1), off = H::rnd(5); ci->readBytes(&b[0], off, n); for (int k = 0; k < n; ++k) REQUIRE(b[off + k] == f[p + k], "byte ", p + k); p += n; }
        if (H::chance(10)) { REQUIRE(ci->getChecksum() == (int64_t)crc(&f[0], p), "input checksum after ", p, " bytes"); REQUIRE(ci->getFilePointer() == (int64_t)p, "input position"); }
        if (H::chance(5)) ci = boost::dynamic_pointer_cast<ChecksumIndexInput>(ci->clone()), ci->getChecksum();
        if (f.size() > 40000 && H::chance(1)) break;
    }
    if (p == f.size()) { REQUIRE(ci->getChecksum() == (int64_t)want, "input checksum ", ci->getChecksum(), " want ", want); int64_t c = ci->getChecksum(); REQUIRE(ci->readLong() == c, "stored checksum differs"); }
    t = false; try { ci->seek(0); } catch (RuntimeException&) { t = true; } REQUIRE(t, "seek on a checksumming input accepted");
}
