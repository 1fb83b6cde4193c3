#include "h.h"
#include "MiscUtils.h"
#include "RAMDirectory.h"
#include "SimpleFSDirectory.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "UTF8Stream.h"
#include "UnicodeUtils.h"
#include "FileReader.h"
#include "InputStreamReader.h"
#include "StringReader.h"
#include "BufferedReader.h"
#include "FileUtils.h"
using namespace Lucene;
static void put(std::string& r, uint32_t c) {
    if (c < 0x80) r.push_back((char)c);
    else if (c < 0x800) { r.push_back((char)(0xc0 | c >> 6)); r.push_back((char)(0x80 | (c & 63))); }
    else if (c < 0x10000) { r.push_back((char)(0xe0 | c >> 12)); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
    else { r.push_back((char)(0xf0 | c >> 18)); r.push_back((char)(0x80 | (c >> 12 & 63))); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
}
static std::string u8(const String& s) { std::string r; for (wchar_t c : s) put(r, (uint32_t)c); return r; }
static wchar_t cp(bool astral = true) {
    static const uint32_t E[] = { 0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffd, 0x1fffe, 0x1ffff, 0x20000, 0x10fffe, 0x10ffff };
    for (;;) { uint32_t c; switch (H::rnd(7)) { case 0: c = E[H::rnd(19)]; break; case 1: c = H::rnd(0x800); break; case 2: c = H::rnd(0x10000); break; case 3: c = H::rnd(0x110000); break; case 4: c = 0x40 * H::rnd(0x4400) + (H::chance(50) ? 63 : 0); break; default: c = 32 + H::rnd(95); }
        if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff) || (!astral && c > 0xffff)) continue; return (wchar_t)c; }
}
static String text(bool astral = true, int maxn = 0) { int n = maxn ? H::rnd(maxn) : H::chance(80) ? H::rnd(12) : H::chance(90) ? H::rnd(300) : H::rnd(9000); String s; bool mono = H::chance(15); wchar_t m = cp(astral); for (int i = 0; i < n; ++i) s += mono ? m : cp(astral); return s; }
static std::string hx(const String& s) { std::string d; for (size_t i = 0; i < s.size() && i < 60; ++i) { char b[16]; snprintf(b, sizeof b, "U+%04X ", (unsigned)s[i]); d += b; } return H::str(s.size(), " characters: ", d); }
static std::string bytes(const ByteArray& b, int n) { return std::string((const char*)b.get(), n); }
static String cut(const String& s, size_t n) { return s.size() > n ? s.substr(0, n) : s; }
SECTION(convert, 2) {
    String s = text(); H::note(hx(s)); std::string u = u8(s);
    SingleString t = StringUtils::toUTF8(s); REQUIRE(t == u, "bytes of toUTF8, ", t.size(), " want ", u.size());
    REQUIRE(StringUtils::toUTF8(s.c_str(), s.size()) == u, "bytes of toUTF8(pointer, length)");
    REQUIRE(StringUtils::toUnicode(t) == s, "toUnicode(toUTF8(text)) differs");
    REQUIRE(StringUtils::toUnicode((const uint8_t*)u.data(), u.size()) == s, "toUnicode(pointer, length) differs");
    static UTF8ResultPtr r8 = newLucene<UTF8Result>(); static UnicodeResultPtr r32 = newLucene<UnicodeResult>();
    int n = StringUtils::toUTF8(s.c_str(), s.size(), r8); REQUIRE(n == (int)u.size() && r8->length == n && bytes(r8->result, n) == u, "toUTF8 into a reused result");
    int m = StringUtils::toUnicode((const uint8_t*)u.data(), u.size(), r32); REQUIRE(m == (int)s.size() && r32->length == m && String(r32->result.get(), m) == s, "toUnicode into a reused result");
    ByteArray a(ByteArray::newInstance(4 * s.size() + 1 + H::rnd(3))); int k = StringUtils::toUTF8(s.c_str(), s.size(), a); REQUIRE(k == (int)u.size() && bytes(a, k) == u, "toUTF8 into an array");
    if (H::chance(30)) { ByteArray x(ByteArray::newInstance(u.size() ? u.size() : 1)); int q = StringUtils::toUTF8(s.c_str(), s.size(), x); REQUIRE(q == (int)u.size() && bytes(x, q) == u, "toUTF8 into an array that just fits"); }
}
static void each(uint32_t from, uint32_t to) { String s; for (uint32_t c = from; c < to; ++c) if (c < 0xd800 || c > 0xdfff) s += (wchar_t)c; H::note(H::str("code points ", from, " to ", to)); std::string u = u8(s); REQUIRE(StringUtils::toUTF8(s) == u, "bytes"); REQUIRE(StringUtils::toUnicode(u) == s, "text back");
    for (uint32_t c = from; c < to; c += 1 + (c & 7)) if (c < 0xd800 || c > 0xdfff) { String o(1, (wchar_t)c); H::note(hx(o)); std::string w; put(w, c); REQUIRE(StringUtils::toUTF8(o) == w && StringUtils::toUnicode(w) == o, "one character"); } }
ONCE(every_code_point) { for (uint32_t c = 0; c < 0x110000; c += 0x1000) each(c, c + 0x1000); }
static DirectoryPtr dir() { static DirectoryPtr d[2]; int k = H::chance(80) ? 0 : 1; if (!d[k]) { if (k) { String p = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/txt"); FileUtils::createDirectory(p); d[k] = newLucene<SimpleFSDirectory>(p); } else d[k] = newLucene<RAMDirectory>(); } return d[k]; }
SECTION(stored, 2) {
    DirectoryPtr d = dir(); int n = 1 + H::rnd(30); std::vector<int> kind; std::vector<String> v; std::vector<std::map<String, String>> maps; std::string dsc;
    IndexOutputPtr o = d->createOutput(L"t"); std::vector<int64_t> at; std::string expect;
    auto vint = [&](uint32_t x) { while (x > 127) { expect.push_back((char)((x & 127) | 128)); x >>= 7; } expect.push_back((char)x); };
    for (int i = 0; i < n; ++i) {
        int k = H::rnd(4); String s = text(k != 1 && k != 2); std::map<String, String> mp; at.push_back(o->getFilePointer()); kind.push_back(k); v.push_back(s); dsc += H::str(k, ":", hx(cut(s, 12)), "; "); H::note(dsc);
        if (k == 0) { o->writeString(s); }
        else if (k == 1) { int cutat = s.size() ? H::rnd(s.size()) : 0; o->writeChars(s, 0, cutat); o->writeChars(s, cutat, (int)s.size() - cutat); }
        else if (k == 2) { o->writeVInt((int)s.size()); o->writeChars(s, 0, (int)s.size()); }
        else { int m = H::rnd(5); MapStringString mm(MapStringString::newInstance()); for (int j = 0; j < m; ++j) { String a = text(true, 8), b = text(true, 8); mp[a] = b; mm.put(a, b); } if (m == 0 && H::chance(50)) mm.reset(); o->writeStringStringMap(mm); }
        maps.push_back(mp);
        if (k == 0) { std::string u = u8(s); REQUIRE(o->getFilePointer() - at.back() == (int64_t)(u.size() + (u.size() < 128 ? 1 : u.size() < 16384 ? 2 : 3)), "bytes written for a string"); }
    }
    o->close(); IndexInputPtr in = d->openInput(L"t");
    auto rd = [&](int i) { H::note(H::str("item ", i, " of ", dsc)); REQUIRE(in->getFilePointer() == at[i], "position before item ", i); const String& s = v[i];
        if (kind[i] == 0) { String r = in->readString(); REQUIRE(r == s, "string read: ", hx(r)); }
        else if (kind[i] == 1) { if (H::chance(30)) { in->skipChars((int)s.size()); return; } std::vector<wchar_t> b(s.size() + 4, L'#'); int k = in->readChars(b.data(), 2, (int)s.size()); REQUIRE(k == (int)s.size() && String(b.data() + 2, s.size()) == s && b[1] == L'#' && b[s.size() + 2] == L'#', "characters read: ", k); }
        else if (kind[i] == 2) { IndexInputPtr c = boost::dynamic_pointer_cast<IndexInput>(in->clone()); c->setModifiedUTF8StringsMode(); if (H::chance(50)) c = boost::dynamic_pointer_cast<IndexInput>(c->clone()); String r = c->readString(); REQUIRE(r == s, "old-style string read: ", hx(r)); in->seek(c->getFilePointer()); }
        else { MapStringString m = in->readStringStringMap(); REQUIRE(m && m.size() == (int)maps[i].size(), "map size"); for (auto& e : maps[i]) REQUIRE(m.contains(e.first) && m.get(e.first) == e.second, "map entry of ", hx(e.first)); } };
    for (int i = 0; i < n; ++i) rd(i);
    REQUIRE(in->getFilePointer() == in->length(), "position at the end");
    for (int k = 0; k < 5; ++k) { int i = H::rnd(n); in->seek(at[i]); rd(i); }
    in->close(); d->deleteFile(L"t");
}
SECTION(streams, 1) {
    static String p = StringUtils::toUnicode(std::string(H::env("HARNESS_SCRATCH", ".")) + "/stream.txt"); String s = text(); if (s.empty()) s = L"x"; H::note(hx(s)); std::string u = u8(s);
    { std::ofstream f(StringUtils::toUTF8(p).c_str(), std::ios::binary); f.write(u.data(), u.size()); }
    InputStreamReaderPtr r = newLucene<InputStreamReader>(newLucene<FileReader>(p)); String got; std::vector<wchar_t> b(5000); 
    for (;;) { int want = H::chance(50) ? 1 + H::rnd(5) : 1 + H::rnd(3000); int k = r->read(b.data(), 0, want); if (k <= 0) break; REQUIRE(k <= want, "more than asked for"); got.append(b.data(), k); }
    REQUIRE(got == s, "text from a UTF-8 stream: ", hx(got)); r->close();
}
