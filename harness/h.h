// Shared scaffolding of the native replay harnesses (bounded stand-ins, counterexample replay).
#pragma once
#include "LuceneInc.h"
#include "StringUtils.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <chrono>
#include <random>
#include <algorithm>
#include <csignal>
namespace H {
struct Fail { std::string m; };
inline std::mt19937_64& rng() { static std::mt19937_64 r; return r; }
inline uint64_t rnd() { return rng()(); }
inline uint64_t rnd(uint64_t n) { return n ? rng()() % n : 0; }
inline int64_t rng_in(int64_t a, int64_t b) { return a + (int64_t)rnd((uint64_t)(b - a + 1)); }
inline bool chance(int pct) { return (int)rnd(100) < pct; }
inline const char* env(const char* k, const char* d) { const char* v = getenv(k); return v ? v : d; }
inline int fails = 0;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
// values taken from the verifier's countermodels: name -> list of values
inline std::map<std::string, std::vector<uint64_t>>& inputs() {
    static std::map<std::string, std::vector<uint64_t>> m; static bool done = false;
    if (!done) { done = true; std::ifstream f(env("HARNESS_INPUTS", "/dev/null")); std::string l;
        while (std::getline(f, l)) { size_t p = l.find('='); if (p == std::string::npos) continue; char* e; uint64_t v = strtoull(l.c_str() + p + 1, &e, 10); if (e != l.c_str() + p + 1) m[l.substr(0, p)].push_back(v); } }
    return m;
}
inline std::vector<uint64_t> input(const std::string& n) { auto i = inputs().find(n); return i == inputs().end() ? std::vector<uint64_t>() : i->second; }
// boundary-biased integers
inline uint64_t edge(int bits) {
    uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1), v;
    switch (rnd(6)) { case 0: v = rnd(); break; case 1: v = 1ULL << rnd(bits); break; case 2: v = (1ULL << rnd(bits)) - 1; break;
        case 3: v = rnd(300); break; case 4: v = m - rnd(3); break; default: v = (1ULL << rnd(bits)) + rnd(5) - 2; }
    return v & m;
}
template <class... A> std::string str(A&&... a) { std::ostringstream o; (void)std::initializer_list<int>{ (o << a, 0)... }; return o.str(); }
#define REQUIRE(c, ...) do { if (!(c)) throw H::Fail{ H::str(#c, " : ", __VA_ARGS__) }; } while (0)
inline std::string narrow(const std::wstring& w) { std::ostringstream o; for (wchar_t c : w) { if (c >= 32 && c < 127) o << (char)c; else o << "\\x" << std::hex << (unsigned)c << std::dec; } return o.str(); }
inline std::string lastSection, lastInput;
inline void note(const std::string& s) { lastInput = s; }
inline void onsig(int s) { printf("FAIL %s: crashed with signal %d; input: %s\n", lastSection.c_str(), s, lastInput.c_str()); fflush(stdout); _exit(1); }
struct Sec { std::string name; double share; std::function<void()> f; int fixed; };
inline std::vector<Sec>& secs() { static std::vector<Sec> s; return s; }
// one(): a single randomised case; run repeatedly for its share of the time budget (at least min times)
inline int sec(const char* n, double share, std::function<void()> f, int fixed = 0) { secs().push_back({ n, share, f, fixed }); return 0; }
#define SECTION(name, share) static void name(); static int reg_##name = H::sec(#name, share, name); static void name()
#define ONCE(name) static void name(); static int reg_##name = H::sec(#name, 0, name, 1); static void name()
inline int run() {
    int part = atoi(env("HARNESS_PART", "0")), parts = atoi(env("HARNESS_PARTS", "1"));
    double S = atof(env("HARNESS_SECS", "10")); double tot = 0;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(s, onsig);
    for (auto& s : secs()) tot += s.share;
    int idx = 0;
    for (auto& s : secs()) {
        if (s.fixed && (idx++ % parts) != part) continue;
        rng().seed(atoll(env("HARNESS_SEED", "1")) * 1000003 + part * 7919 + std::hash<std::string>()(s.name) % 1000);
        double end = now() + S * s.share / (tot > 0 ? tot : 1); long n = 0;
        lastSection = s.name;
        do {
            lastInput.clear();
            std::string err;
            try { s.f(); n++; }
            catch (Fail& e) { err = e.m; }
            catch (Lucene::LuceneException& e) { err = H::str("unexpected LuceneException of type ", (int)e.getType(), " ", narrow(e.getError())); }
            catch (std::exception& e) { err = std::string("unexpected std::exception ") + e.what(); }
            catch (...) { err = "unexpected exception"; }
            if (!err.empty()) { printf("FAIL %s: %s%s%s\n", s.name.c_str(), err.c_str(), lastInput.empty() ? "" : " | input: ", lastInput.c_str()); fflush(stdout); fails++; n++; break; }
        } while (!s.fixed && (now() < end));
        printf("SECTION %s cases=%ld\n", s.name.c_str(), n); fflush(stdout);
    }
    fflush(stdout);
    _exit(fails ? 1 : 0);
}
}
int main() { return H::run(); }
