#include "h.h"
#include "RAMOutputStream.h"
#include "RAMInputStream.h"
#include "RAMFile.h"
#include "RAMDirectory.h"
using namespace Lucene;
typedef std::vector<uint8_t> Bytes;
static int64_t around() { int64_t m; switch (H::rnd(6)) { case 0: m = H::rnd(20); break; case 1: m = 1024 * (int64_t)H::rnd(5) + (int64_t)H::rnd(5) - 2; break; case 2: m = H::rnd(5000); break; case 3: m = 1024 * (int64_t)(1 + H::rnd(3)); break; case 4: m = 1 + H::rnd(3); break; default: m = H::rnd(1100); } return std::max<int64_t>(0, m); }
struct RIn { IndexInputPtr in; int64_t pos; };
static void reads(const Bytes& f, IndexInputPtr first, int ops, std::string& log) {
    std::vector<RIn> cs; cs.push_back({ first, 0 }); Bytes buf(9000);
    for (int i = 0; i < ops; ++i) {
        RIn& c = cs[H::rnd(cs.size())]; int64_t left = (int64_t)f.size() - c.pos; if (log.size() > 3000) log = log.substr(log.size() - 2000);
        REQUIRE(c.in->length() == (int64_t)f.size(), "length ", c.in->length(), " want ", f.size());
        REQUIRE(c.in->getFilePointer() == c.pos, "reader position ", c.in->getFilePointer(), " want ", c.pos);
        int o = H::rnd(8); log += H::str(" r", &c - &cs[0], ":", o, "@", c.pos); H::note(log);
        if (o < 3) {
            bool t = false; uint8_t b = 0; try { b = c.in->readByte(); } catch (IOException&) { t = true; }
            REQUIRE(t == (left <= 0), "readByte at ", c.pos, " of ", f.size(), t ? " failed" : " returned");
            if (!t) { REQUIRE(b == f[c.pos], "byte at ", c.pos, " read ", (int)b, " want ", (int)f[c.pos]); c.pos++; }
            else { REQUIRE(c.in->getFilePointer() == c.pos, "position after a failed read ", c.in->getFilePointer(), " want ", c.pos); }
        } else if (o < 5) {
            int64_t n = H::chance(25) ? std::max<int64_t>(0, left + (int64_t)H::rnd(3) - 1) : around(); if (n > 8000) n = 8000; int off = H::rnd(30);
            std::fill(buf.begin(), buf.end(), 0xA5); log += H::str("x", n); H::note(log);
            bool t = false; try { if (H::chance(50)) c.in->readBytes(&buf[0], off, (int32_t)n); else c.in->readBytes(&buf[0], off, (int32_t)n, H::chance(50)); } catch (IOException&) { t = true; }
            REQUIRE(t == (n > 0 && n > left), "readBytes ", n, " at ", c.pos, " of ", f.size(), t ? " failed" : " returned");
            if (t) { int64_t p = H::rnd(f.size() + 1); c.in->seek(p); c.pos = p; continue; }
            for (int64_t k = 0; k < n; ++k) REQUIRE(buf[off + k] == f[c.pos + k], "block byte ", k, " at ", c.pos);
            for (int k = 0; k < off; ++k) REQUIRE(buf[k] == 0xA5, "byte before the target written"); for (int k = 0; k < 20; ++k) REQUIRE(buf[off + n + k] == 0xA5, "byte after the target written");
            c.pos += n;
        } else if (o < 7) {
            int64_t p; switch (H::rnd(8)) { case 0: p = f.size(); break; case 1: p = (int64_t)f.size() / 1024 * 1024; break; case 2: p = f.size() + 1 + H::rnd(3000); break; case 3: p = (1LL << 32) + (int64_t)H::rnd(100); break; case 4: p = std::min<int64_t>(f.size(), around()); break; default: p = H::rnd(f.size() + 1); }
            log += H::str(">", p); H::note(log); c.in->seek(p); c.pos = p;
        } else if (cs.size() < 4) { IndexInputPtr k = boost::dynamic_pointer_cast<IndexInput>(c.in->clone()); int64_t p = c.pos; cs.push_back({ k, p }); }
    }
}
SECTION(history, 4) {
    // a model byte array next to a RAM file
    RAMDirectoryPtr dir; RAMOutputStreamPtr out; IndexOutputPtr io; bool viaDir = H::chance(50);
    if (viaDir) { dir = newLucene<RAMDirectory>(); io = dir->createOutput(L"_1.fdt"); out = boost::dynamic_pointer_cast<RAMOutputStream>(io); } else { out = newLucene<RAMOutputStream>(); io = out; }
    Bytes f; int64_t pos = 0; std::string log = viaDir ? "dir" : "file"; int ops = 1 + H::rnd(25); int64_t closed = 0;
    auto put = [&](int64_t p, uint8_t b) { if (p >= (int64_t)f.size()) f.resize(p + 1); f[p] = b; };
    for (int i = 0; i < ops; ++i) {
        int o = H::rnd(12); log += H::str(" ", o, "@", pos); H::note(log);
        REQUIRE(out->getFilePointer() == pos, "writer position ", out->getFilePointer(), " want ", pos);
        if (o < 2) { uint8_t b = H::rnd(); out->writeByte(b); put(pos++, b); }
        else if (o < 6) { int64_t n = H::chance(20) ? (1024 - pos % 1024) : around(); int off = H::rnd(9); Bytes b(off + n + 5); for (auto& x : b) x = H::rnd(); log += H::str("x", n); H::note(log); out->writeBytes(&b[0], off, (int32_t)n); for (int64_t k = 0; k < n; ++k) put(pos + k, b[off + k]); pos += n; }
        else if (o < 8) { int64_t p = H::chance(30) ? (int64_t)f.size() : H::chance(30) ? (int64_t)H::rnd(f.size() / 1024 + 1) * 1024 : (int64_t)H::rnd(f.size() + 1); log += H::str(">", p); H::note(log); out->seek(p); pos = p; }
        else if (o == 8) { out->flush(); REQUIRE(out->length() == (int64_t)f.size(), "length ", out->length(), " want ", f.size()); }
        else if (o == 9 && H::chance(30)) { out->reset(); f.clear(); pos = 0; }
        else if (o == 10) {
            out->flush(); RAMOutputStreamPtr t = newLucene<RAMOutputStream>(); Bytes pre(H::rnd(40)); for (auto& x : pre) x = H::rnd(); if (!pre.empty()) t->writeBytes(&pre[0], 0, pre.size());
            out->writeTo(t); t->flush(); REQUIRE(t->length() == (int64_t)(pre.size() + f.size()), "copy has ", t->length(), " bytes, want ", pre.size() + f.size());
            Bytes all = pre; all.insert(all.end(), f.begin(), f.end()); std::string l2 = log + " copy"; reads(all, newLucene<RAMInputStream>(t->file), 6, l2);
            REQUIRE(out->getFilePointer() == pos, "position after writeTo");
        }
        else { out->flush(); reads(f, newLucene<RAMInputStream>(out->file), 1 + H::rnd(12), log); }
    }
    out->close(); log += " close"; H::note(log);
    IndexInputPtr in;
    if (viaDir) {
        REQUIRE(dir->fileLength(L"_1.fdt") == (int64_t)f.size(), "directory reports ", dir->fileLength(L"_1.fdt"), " want ", f.size()); in = dir->openInput(L"_1.fdt");
        REQUIRE(dir->fileExists(L"_1.fdt"), "exists");
        if (H::chance(20)) { RAMDirectoryPtr c = newLucene<RAMDirectory>(DirectoryPtr(dir)); in = c->openInput(L"_1.fdt"); }
        if (H::chance(20)) { IndexOutputPtr o2 = dir->createOutput(L"_1.fdt"); Bytes b(around() + 1, 7); o2->writeBytes(&b[0], 0, b.size()); o2->close(); if (!H::chance(50)) { in = dir->openInput(L"_1.fdt"); f = b; } }
    } else in = newLucene<RAMInputStream>(out->file);
    reads(f, in, 1 + H::rnd(60), log);
    // full byte-by-byte and block comparison
    in->seek(0); for (size_t k = 0; k < f.size(); ++k) { uint8_t b = in->readByte(); REQUIRE(b == f[k], "byte ", k, " is ", (int)b, " want ", (int)f[k]); }
    bool t = false; try { in->readByte(); } catch (IOException&) { t = true; } REQUIRE(t, "a read past the end of ", f.size(), " bytes returned");
}
SECTION(lengths, 1) {
    // every length near a block boundary, sequential write, every read start near a boundary
    int64_t n = H::chance(80) ? 1024 * (int64_t)H::rnd(4) + (int64_t)H::rnd(7) - 3 : (int64_t)H::rnd(4000); if (n < 0) n = 0; Bytes f(n + 1); for (auto& x : f) x = H::rnd();
    RAMOutputStreamPtr o = newLucene<RAMOutputStream>(); int64_t cut = H::rnd(n + 1); if (cut) o->writeBytes(&f[0], 0, (int32_t)cut); if (n - cut) o->writeBytes(&f[0], (int32_t)cut, (int32_t)(n - cut)); o->close();
    RAMInputStreamPtr in = newLucene<RAMInputStream>(o->file); Bytes b(5000);
    H::note(H::str("length ", n, " written as ", cut, "+", n - cut));
    REQUIRE(in->length() == n && o->length() == n, "length ", in->length());
    for (int64_t s = 0; s <= n; s = s + 1 < n && H::chance(97) ? s + 1 + H::rnd(90) : s + 1) {
        in->seek(s); REQUIRE(in->getFilePointer() == s, "position ", in->getFilePointer(), " want ", s);
        bool t = false; uint8_t x = 0; try { x = in->readByte(); } catch (IOException&) { t = true; } REQUIRE(t == (s >= n), "read at ", s, " of ", n, t ? " failed" : " returned"); if (!t) REQUIRE(x == f[s], "byte ", s);
        int64_t m = std::min<int64_t>(n - s, H::rnd(2100)); in->seek(s); in->readBytes(&b[0], 0, (int32_t)m); for (int64_t k = 0; k < m; ++k) REQUIRE(b[k] == f[s + k], "block byte ", k, " from ", s);
    }
}
