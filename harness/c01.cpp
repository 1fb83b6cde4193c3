#include "h.h"
#include "RAMDirectory.h"
#include "RAMOutputStream.h"
#include "RAMInputStream.h"
#include "RAMFile.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileUtils.h"
using namespace Lucene;
static std::vector<uint8_t> ref_vint(uint64_t v) { std::vector<uint8_t> r; while (v > 127) { r.push_back((v & 127) | 128); v >>= 7; } r.push_back(v); return r; }
static std::string opstr(const std::vector<std::pair<int, uint64_t>>& ops) { std::string d; for (auto& p : ops) d += H::str(p.first, ":", p.second, " "); return d; }
struct Mem { RAMFilePtr f = newLucene<RAMFile>(); RAMOutputStreamPtr o = newLucene<RAMOutputStream>(f); RAMInputStreamPtr in() { o->flush(); return newLucene<RAMInputStream>(f); } };
static void mix(const std::vector<std::pair<int, uint64_t>>& ops) {
    Mem m; std::vector<uint8_t> exp; std::string d;
    for (auto& p : ops) d += H::str(p.first, ":", p.second, " ");
    H::note(d);
    for (auto& p : ops) switch (p.first) {
        case 0: m.o->writeByte((uint8_t)p.second); exp.push_back(p.second); break;
        case 1: m.o->writeInt((int32_t)p.second); for (int i = 3; i >= 0; --i) exp.push_back(p.second >> (8 * i)); break;
        case 2: m.o->writeLong((int64_t)p.second); for (int i = 7; i >= 0; --i) exp.push_back(p.second >> (8 * i)); break;
        case 3: { m.o->writeVInt((int32_t)p.second); auto r = ref_vint((uint32_t)p.second); exp.insert(exp.end(), r.begin(), r.end()); break; }
        default: { m.o->writeVLong((int64_t)p.second); auto r = ref_vint(p.second); exp.insert(exp.end(), r.begin(), r.end()); }
    }
    RAMInputStreamPtr in = m.in();
    REQUIRE((int64_t)exp.size() == in->length(), exp.size(), " vs ", in->length());
    for (size_t i = 0; i < exp.size(); ++i) { uint8_t b = in->readByte(); REQUIRE(b == exp[i], "byte ", i, " got ", (int)b, " want ", (int)exp[i]); }
    in->seek(0);
    for (auto& p : ops) switch (p.first) {
        case 0: { uint8_t b = in->readByte(); REQUIRE(b == (uint8_t)p.second, "byte"); break; }
        case 1: { int32_t v = in->readInt(); REQUIRE(v == (int32_t)p.second, v); break; }
        case 2: { int64_t v = in->readLong(); REQUIRE(v == (int64_t)p.second, v); break; }
        case 3: { int32_t v = in->readVInt(); REQUIRE(v == (int32_t)p.second, v); break; }
        default: { int64_t v = in->readVLong(); REQUIRE(v == (int64_t)p.second, v); }
    }
    REQUIRE(in->getFilePointer() == in->length(), "position after reading back");
}
SECTION(codec_mix, 1) {
    std::vector<std::pair<int, uint64_t>> ops; int n = 1 + H::rnd(40);
    static bool first = true;
    if (first) { first = false; for (auto& k : H::inputs()) for (auto v : k.second) for (int t = 1; t < 5; ++t) ops.push_back({ t, v }); }
    for (int i = 0; i < n; ++i) { int t = H::rnd(5); ops.push_back({ t, H::edge(t == 0 ? 8 : (t == 1 || t == 3) ? 32 : 64) }); }
    mix(ops);
}
ONCE(vint_boundaries) {
    std::vector<std::pair<int, uint64_t>> ops;
    for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) { uint64_t v = (1ULL << k) + d; ops.push_back({ 4, v }); ops.push_back({ 2, v }); if (k < 32) { ops.push_back({ 3, (uint32_t)v }); ops.push_back({ 1, (uint32_t)v }); } }
    ops.push_back({ 3, 0xffffffffu }); ops.push_back({ 3, 0x80000000u }); ops.push_back({ 4, ~0ULL });
    mix(ops);
}

// the same codecs through each kind of directory, with values lying across the buffers of both sides
static void dirs(DirectoryPtr d, const char* kind) {
    int n = H::chance(30) ? 1 + H::rnd(20) : 200 + H::rnd(6000); int bias = H::rnd(6);
    std::vector<std::pair<int, uint64_t>> ops; for (int i = 0; i < n; ++i) { int t = bias < 5 && H::chance(80) ? bias : H::rnd(5); ops.push_back({ t, H::edge(t == 0 ? 8 : (t == 1 || t == 3) ? 32 : 64) }); }
    int bufsize = 1 + H::rnd(H::chance(50) ? 40 : 5000); H::note(H::str(kind, " buffer ", bufsize, " : ", n < 30 ? opstr(ops) : H::str(n, " values, kind ", bias)));
    IndexOutputPtr o = d->createOutput(L"codec"); std::vector<uint8_t> exp; std::vector<int64_t> at;
    for (auto& p : ops) { at.push_back(exp.size()); switch (p.first) {
        case 0: o->writeByte((uint8_t)p.second); exp.push_back(p.second); break;
        case 1: o->writeInt((int32_t)p.second); for (int i = 3; i >= 0; --i) exp.push_back(p.second >> (8 * i)); break;
        case 2: o->writeLong((int64_t)p.second); for (int i = 7; i >= 0; --i) exp.push_back(p.second >> (8 * i)); break;
        case 3: { o->writeVInt((int32_t)p.second); auto r = ref_vint((uint32_t)p.second); exp.insert(exp.end(), r.begin(), r.end()); break; }
        default: { o->writeVLong((int64_t)p.second); auto r = ref_vint(p.second); exp.insert(exp.end(), r.begin(), r.end()); } } 
        REQUIRE(o->getFilePointer() == (int64_t)exp.size(), "output position after value ", at.size() - 1); }
    o->close();
    IndexInputPtr in = d->openInput(L"codec", bufsize);
    REQUIRE(in->length() == (int64_t)exp.size(), "file length");
    auto rd = [&](size_t i) { auto& p = ops[i]; REQUIRE(in->getFilePointer() == at[i], "input position before value ", i); 
        switch (p.first) {
        case 0: REQUIRE(in->readByte() == (uint8_t)p.second, "value ", i); break;
        case 1: { int32_t v = in->readInt(); REQUIRE(v == (int32_t)p.second, "value ", i, " got ", v); break; }
        case 2: { int64_t v = in->readLong(); REQUIRE(v == (int64_t)p.second, "value ", i, " got ", v); break; }
        case 3: { int32_t v = in->readVInt(); REQUIRE(v == (int32_t)p.second, "value ", i, " got ", v); break; }
        default: { int64_t v = in->readVLong(); REQUIRE(v == (int64_t)p.second, "value ", i, " got ", v); } } };
    for (size_t i = 0; i < ops.size(); ++i) rd(i);
    REQUIRE(in->getFilePointer() == in->length(), "position after reading back");
    for (int k = 0; k < 50; ++k) { size_t i = H::rnd(ops.size()); in->seek(at[i]); rd(i); if (i + 1 < ops.size()) rd(i + 1); }
    in->close(); d->deleteFile(L"codec");
}
static String sdir(const char* n) { String s = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/" + n); FileUtils::createDirectory(s); return s; }
SECTION(directories, 2) {
    static SimpleFSDirectoryPtr sd = newLucene<SimpleFSDirectory>(sdir("s")); static MMapDirectoryPtr md = newLucene<MMapDirectory>(sdir("m"));
    switch (H::rnd(3)) { case 0: dirs(sd, "simple"); break; case 1: dirs(md, "mmap"); break; default: dirs(newLucene<RAMDirectory>(), "ram"); }
}
