#include "h.h"
#include "BufferedIndexInput.h"
#include "BufferedIndexOutput.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "RAMDirectory.h"
#include "IndexOutput.h"
#include "MiscUtils.h"
#include "FileUtils.h"
using namespace Lucene;
// content of an abstract file: a byte per position
struct File { int64_t len; int mode; std::vector<uint8_t> bytes; uint64_t salt;
    uint8_t at(int64_t p) const { if (mode == 0) return bytes[p]; uint64_t x = (uint64_t)p * 0x9E3779B97F4A7C15ULL + salt; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return (uint8_t)x; } };
class GhostInput : public BufferedIndexInput {
public:
    GhostInput(const File* f = NULL, int32_t bs = 1024) : BufferedIndexInput(bs), f(f) {}
    LUCENE_CLASS(GhostInput);
    const File* f;
    virtual void readInternal(uint8_t* b, int32_t offset, int32_t length) {
        int64_t p = getFilePointer();
        if (length < 0 || p < 0 || p + length > f->len) throw H::Fail{ H::str("readInternal asked for ", length, " bytes at ", p, " of a file of ", f->len) };
        for (int32_t i = 0; i < length; ++i) b[offset + i] = f->at(p + i);
    }
    virtual void seekInternal(int64_t pos) {}
    virtual int64_t length() { return f->len; }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        LuceneObjectPtr c = BufferedIndexInput::clone(other ? other : newLucene<GhostInput>()); boost::dynamic_pointer_cast<GhostInput>(c)->f = f; return c; }
};
struct Cur { IndexInputPtr in; int64_t pos; };
static int64_t pickpos(const File& f, int64_t cur, int bs) {
    switch (H::rnd(9)) { case 0: return f.len; case 1: return f.len ? f.len - 1 - (int64_t)H::rnd(std::min<int64_t>(f.len, 10)) : 0; case 2: return 0; case 3: return std::max<int64_t>(0, std::min<int64_t>(f.len, cur + (int64_t)H::rnd(2 * bs + 1) - bs));
        case 4: return std::min<int64_t>(f.len, cur / bs * bs + bs); case 5: return std::max<int64_t>(0, std::min<int64_t>(f.len, cur + (int64_t)H::rnd(9) - 4)); case 6: return std::min<int64_t>(f.len, (int64_t)H::rnd(3 * bs)); default: return H::rnd(f.len + 1); }
}
// drives one input through a random history and compares every result with the file
static void drive(const File& f, IndexInputPtr first, int bs, bool buffered, int ops, bool hugeSeeks, std::string log) {
    std::vector<Cur> cs; cs.push_back({ first, 0 });
    std::vector<uint8_t> buf(4 * bs + 5000);
    for (int i = 0; i < ops; ++i) {
        Cur& c = cs[H::rnd(cs.size())];
        if (log.size() > 3000) log = log.substr(log.size() - 2000);
        REQUIRE(c.in->getFilePointer() == c.pos, "position ", c.in->getFilePointer(), " want ", c.pos);
        int64_t left = f.len - c.pos;
        int o = H::rnd(14);
        log += H::str(" ", (&c - &cs[0]), ":", o, "@", c.pos); H::note(log);
        auto dead = [&](std::function<void()> g, const char* w) { bool t = false; try { g(); } catch (IOException&) { t = true; } REQUIRE(t, w, " past the end at ", c.pos, " of ", f.len, " returned"); int64_t p = pickpos(f, 0, bs); c.in->seek(p); c.pos = p; };
        switch (o) {
            case 0: case 1: case 2:
                if (left <= 0) dead([&] { c.in->readByte(); }, "readByte");
                else { uint8_t b = c.in->readByte(); REQUIRE(b == f.at(c.pos), "byte at ", c.pos, " is ", (int)f.at(c.pos), " read ", (int)b); c.pos++; }
                break;
            case 3: case 4: case 5: {
                int64_t n; switch (H::rnd(7)) { case 0: n = H::rnd(8); break; case 1: n = H::rnd(bs + 2); break; case 2: n = bs + H::rnd(3) - 1; break; case 3: n = std::max<int64_t>(0, left - (int64_t)H::rnd(2)); break; case 4: n = left + 1 + H::rnd(3); break; case 5: n = H::rnd(3 * bs); break; default: n = 2 * bs + H::rnd(3) - 1; }
                if (n < 0) n = 0; if (n > (int64_t)buf.size() - 40) n = buf.size() - 40;
                int off = H::rnd(20); std::fill(buf.begin(), buf.end(), 0xA5);
                bool ub = H::chance(50); bool three = H::chance(50);
                log += H::str("x", n, three ? "t" : ub ? "b" : "u"); H::note(log);
                auto g = [&] { if (three) c.in->readBytes(&buf[0], off, (int32_t)n); else c.in->readBytes(&buf[0], off, (int32_t)n, ub); };
                if (n > left && n > 0) { dead(g, "readBytes"); break; }
                if (n == 0 && left < 0) break;
                g();
                for (int64_t k = 0; k < n; ++k) REQUIRE(buf[off + k] == f.at(c.pos + k), "block byte ", k, " of ", n, " at ", c.pos, " is ", (int)f.at(c.pos + k), " read ", (int)buf[off + k]);
                for (int64_t k = 0; k < off; ++k) REQUIRE(buf[k] == 0xA5, "byte before the target changed");
                for (int64_t k = off + n; k < (int64_t)buf.size(); ++k) REQUIRE(buf[k] == 0xA5, "byte after the target changed");
                c.pos += n; break; }
            case 6: if (left >= 4) { uint32_t v = 0; for (int k = 0; k < 4; ++k) v = (v << 8) | f.at(c.pos + k); REQUIRE((uint32_t)c.in->readInt() == v, "int at ", c.pos); c.pos += 4; } else dead([&] { c.in->readInt(); }, "readInt"); break;
            case 7: if (left >= 8) { uint64_t v = 0; for (int k = 0; k < 8; ++k) v = (v << 8) | f.at(c.pos + k); REQUIRE((uint64_t)c.in->readLong() == v, "long at ", c.pos); c.pos += 8; } else dead([&] { c.in->readLong(); }, "readLong"); break;
            case 8: case 9: {
                uint32_t v = 0; int k = 0; bool end = false; for (; k < 5 && k < left; ++k) { uint8_t b = f.at(c.pos + k); v |= (uint32_t)(b & 0x7f) << (7 * k); if (!(b & 0x80)) { end = true; ++k; break; } }
                if (end) { uint32_t r = c.in->readVInt(); REQUIRE(r == v, "vint at ", c.pos, " is ", v, " read ", r); c.pos += k; } else if (k == left && k < 5) dead([&] { c.in->readVInt(); }, "readVInt"); break; }
            case 10: { uint64_t v = 0; int k = 0; bool end = false; for (; k < 9 && k < left; ++k) { uint8_t b = f.at(c.pos + k); v |= (uint64_t)(b & 0x7f) << (7 * k); if (!(b & 0x80)) { end = true; ++k; break; } }
                if (end) { uint64_t r = c.in->readVLong(); REQUIRE(r == v, "vlong at ", c.pos, " is ", v, " read ", r); c.pos += k; } break; }
            case 11: case 12: { int64_t p = pickpos(f, c.pos, bs);
                if (hugeSeeks && H::chance(10)) p = f.len + (int64_t)(1ULL << (H::rnd(36))) - 1 + (int64_t)H::rnd(5);
                log += H::str(">", p); H::note(log); c.in->seek(p); c.pos = p; break; }
            default:
                if (H::chance(40) && buffered) { BufferedIndexInputPtr b = boost::dynamic_pointer_cast<BufferedIndexInput>(c.in); int ns = 1 + (H::chance(50) ? H::rnd(2 * bs) : H::rnd(12)); log += H::str("bs", ns); H::note(log); b->setBufferSize(ns); REQUIRE(b->getBufferSize() == ns, "buffer size ", b->getBufferSize(), " want ", ns); }
                else if (cs.size() < 5) { Cur d{ boost::dynamic_pointer_cast<IndexInput>(c.in->clone()), c.pos }; cs.push_back(d); }
        }
        REQUIRE(cs[0].in->length() == f.len, "length ", cs[0].in->length(), " want ", f.len);
    }
    for (auto& c : cs) REQUIRE(c.in->getFilePointer() == c.pos, "final position ", c.in->getFilePointer(), " want ", c.pos);
}
static void content(File& f, int64_t n) { f.mode = 0; f.len = n; f.bytes.resize(n); int m = H::rnd(3); for (auto& b : f.bytes) b = m == 0 ? H::rnd() : m == 1 ? (H::chance(60) ? 0x80 | H::rnd(128) : H::rnd(128)) : (uint8_t)(&b - &f.bytes[0]); }
static int64_t flen(int bs) { switch (H::rnd(7)) { case 0: return H::rnd(10); case 1: return bs; case 2: return bs * (1 + H::rnd(4)) + (int64_t)H::rnd(3) - 1; case 3: return H::rnd(3 * bs); case 4: return H::rnd(20 * bs + 1); case 5: return bs - 1; default: return 1 + H::rnd(5 * bs); } }
static int bsize() { switch (H::rnd(6)) { case 0: return 1 + H::rnd(4); case 1: return 1 + H::rnd(20); case 2: return 1024; case 3: return 8 + H::rnd(9); case 4: return 1 + H::rnd(300); default: return 16; } }
SECTION(memory, 4) {
    int bs = bsize(); File f; content(f, flen(bs));
    drive(f, newLucene<GhostInput>(&f, bs), bs, true, 1 + H::rnd(120), true, H::str("memory len ", f.len, " buffer ", bs, ":"));
}
SECTION(large_file, 2) {
    int bs = bsize(); File f; f.mode = 1; f.salt = H::rnd(); f.len = (int64_t)(1ULL << (20 + H::rnd(20))) + (int64_t)H::rnd(2 * bs) - bs; if (H::chance(30)) f.len = (1LL << 31) + (int64_t)H::rnd(4 * bs) - 2 * bs;
    drive(f, newLucene<GhostInput>(&f, bs), bs, true, 1 + H::rnd(120), true, H::str("large len ", f.len, " buffer ", bs, ":"));
}
static void writeFile(const String& p, const File& f) { std::ofstream o(StringUtils::toUTF8(p).c_str(), std::ios::binary); if (f.len) o.write((const char*)&f.bytes[0], f.len); }
SECTION(disk, 3) {
    String dir = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/d");
    static SimpleFSDirectoryPtr sd = newLucene<SimpleFSDirectory>(dir); static MMapDirectoryPtr md = newLucene<MMapDirectory>(dir); FileUtils::createDirectory(dir);
    int bs = bsize(); File f; content(f, flen(bs)); if (H::chance(2)) content(f, 1 + H::rnd(300000));
    writeFile(dir + L"/f", f);
    bool mm = H::chance(40);
    IndexInputPtr in = mm ? md->openInput(L"f", bs) : H::chance(20) ? sd->openInput(L"f") : sd->openInput(L"f", bs);
    drive(f, in, bs, !mm, 1 + H::rnd(60), !mm, H::str(mm ? "mmap" : "simplefs", " len ", f.len, " buffer ", bs, ":"));
    in->close(); sd->deleteFile(L"f");
}
SECTION(small_exhaustive, 1) {
    // every pair (start, block length) of a small file for a small buffer, after priming reads
    int bs = 1 + H::rnd(6); File f; content(f, H::rnd(20));
    std::vector<uint8_t> b(64);
    for (int prime = 0; prime <= f.len; ++prime) for (int pre = 0; pre <= 2 && prime + pre <= f.len; ++pre) for (int n = 0; prime + pre + n <= f.len + 1; ++n) for (int ub = 0; ub < 2; ++ub) {
        H::note(H::str("len ", f.len, " buffer ", bs, " seek ", prime, " bytes ", pre, " block ", n, " useBuffer ", ub));
        boost::shared_ptr<GhostInput> in = newLucene<GhostInput>(&f, bs); in->seek(prime); for (int k = 0; k < pre; ++k) REQUIRE(in->readByte() == f.at(prime + k), "byte");
        bool t = false; try { in->readBytes(&b[0], 1, n, ub); } catch (IOException&) { t = true; }
        REQUIRE(t == (n > 0 && prime + pre + n > f.len), "error ", t);
        if (!t) { for (int k = 0; k < n; ++k) REQUIRE(b[1 + k] == f.at(prime + pre + k), "block byte ", k); REQUIRE(in->getFilePointer() == prime + pre + n, "position ", in->getFilePointer()); }
    }
}
ONCE(mmap_special) {
    String dir = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/e");
    MMapDirectoryPtr md = newLucene<MMapDirectory>(dir); FileUtils::createDirectory(dir); File f; content(f, 0); writeFile(dir + L"/empty", f);
    bool ok = true; try { IndexInputPtr in = md->openInput(L"empty"); ok = in->length() == 0; } catch (LuceneException&) { ok = false; }
    REQUIRE(ok, "an empty file cannot be opened through MMapDirectory");
    bool t = false; try { md->openInput(L"absent"); } catch (FileNotFoundException&) { t = true; } REQUIRE(t, "a missing file opened");
    File g; content(g, 10); writeFile(dir + L"/ten", g); IndexInputPtr in = md->openInput(L"ten"), c = boost::dynamic_pointer_cast<IndexInput>(in->clone());
    c->seek(3); REQUIRE(in->getFilePointer() == 0 && c->readByte() == g.at(3), "clone"); in->close(); t = false; try { in->clone(); } catch (AlreadyClosedException&) { t = true; } REQUIRE(t, "clone of a closed input");
}
