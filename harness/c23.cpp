#include "h.h"
#include "LuceneHeaders.h"
#include "NumberTools.h"
#include "DateField.h"
#include "QueryParser.h"
#include "MiscUtils.h"
using namespace Lucene;
static const wchar_t* SPECIAL = L"\\+-!():^[]\"{}~*?|&";
static bool special(wchar_t c) { return c && wcschr(SPECIAL, c); }
static wchar_t ch() { switch (H::rnd(6)) { case 0: case 1: return SPECIAL[H::rnd(18)]; case 2: return (wchar_t)H::rnd(128); case 3: return (wchar_t)(32 + H::rnd(95)); case 4: return (wchar_t)H::rnd(0xd800); default: return (wchar_t)(0x10000 + H::rnd(0x1000)); } }
static void escaping(const String& s) {
    H::note(H::narrow(s)); String want; for (wchar_t c : s) { if (special(c)) want += L'\\'; want += c; }
    String got = QueryParser::escape(s); REQUIRE(got == want, "escape: ", H::narrow(got));
}
ONCE(every_character) { for (wchar_t c = 0; c < 0x3000; ++c) { escaping(String(1, c)); escaping(String(L"a") + c + L"b"); } }
SECTION(escape, 2) { String s; for (int n = H::chance(90) ? H::rnd(20) : H::rnd(3000); n > 0; --n) s += ch(); escaping(s); }
static int64_t num() { int64_t v = H::chance(50) ? (int64_t)H::edge(64) : H::chance(50) ? (int64_t)(((uint64_t)H::rnd(1u << 31) << 33) ^ ((uint64_t)H::rnd(1u << 31) << 11) ^ H::rnd(2048)) : (int64_t)H::rnd(5000) - 2500; return v; }
static int64_t E[] = { INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, -36, -35, -1, 0, 1, 35, 36, INT32_MAX, (int64_t)INT32_MAX + 1, INT32_MIN, INT64_MAX - 1, INT64_MAX };
static std::string radix(int64_t v, int b) { uint64_t m = v < 0 ? 0 - (uint64_t)v : v; std::string s; do { s += "0123456789abcdefghijklmnopqrstuvwxyz"[m % b]; m /= b; } while (m); if (v < 0) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static int64_t pick() { return H::chance(20) ? E[H::rnd(15)] : num(); }
SECTION(radix_forms, 2) {
    int64_t v = pick(); int b = 2 + H::rnd(35); H::note(H::str(v, " radix ", b)); String s = StringUtils::toString(v, b); REQUIRE(H::narrow(s) == radix(v, b), "toString: ", H::narrow(s), " want ", radix(v, b)); REQUIRE(StringUtils::toLong(s, b) == v, "toLong of ", H::narrow(s), ": ", StringUtils::toLong(s, b));
    if (H::chance(30)) REQUIRE(StringUtils::toLong(String(v < 0 ? L"-" : L"") + String(H::rnd(4), L'0') + s.substr(v < 0 ? 1 : 0), b) == v, "toLong with leading zeros");
    REQUIRE(StringUtils::toLong(StringUtils::toString(v)) == v, "decimal"); int32_t i = (int32_t)v; REQUIRE(StringUtils::toInt(StringUtils::toString(i)) == i, "decimal int");
}
SECTION(sortable, 2) {
    int64_t a = pick(), b = H::chance(30) ? a + (int64_t)H::rnd(3) - 1 : pick(); if ((a < 0) != (b < 0) && H::chance(50)) b = a; H::note(H::str(a, ", ", b)); String x = NumberTools::longToString(a), y = NumberTools::longToString(b);
    REQUIRE((int)x.length() == NumberTools::STR_SIZE(), "size ", x.length()); REQUIRE(NumberTools::stringToLong(x) == a, "stringToLong(", H::narrow(x), ") = ", NumberTools::stringToLong(x)); REQUIRE((x < y) == (a < b) && (x == y) == (a == b), "order: ", H::narrow(x), " ", H::narrow(y));
    REQUIRE(x >= NumberTools::MIN_STRING_VALUE() && x <= NumberTools::MAX_STRING_VALUE(), "outside the extremes");
    const int64_t LIM = 101559956668416LL; int64_t t = a < 0 ? -(a + 1) : a, u = b < 0 ? -(b + 1) : b; if (H::chance(70)) { t %= LIM; u %= LIM; } String p, q; bool tp = true, tq = true; try { p = DateField::timeToString(t); } catch (RuntimeException&) { tp = false; } try { q = DateField::timeToString(u); } catch (RuntimeException&) { tq = false; }
    REQUIRE(tp == (t < LIM) && tq == (u < LIM), "DateField: times that have a text form"); if (tp) { REQUIRE(DateField::stringToTime(p) == t, "DateField: ", H::narrow(p), " back to ", DateField::stringToTime(p)); if (tq) REQUIRE((p < q) == (t < u), "DateField: order"); REQUIRE(p >= DateField::MIN_DATE_STRING() && p <= DateField::MAX_DATE_STRING(), "DateField: extremes"); }
    bool thrown = false; try { DateField::timeToString(-1 - (t % 1000)); } catch (RuntimeException&) { thrown = true; } REQUIRE(thrown, "DateField: a negative time");
}
