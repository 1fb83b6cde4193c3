#include "h.h"
#include "SmallDouble.h"
#include "Similarity.h"
#include "MiscUtils.h"
#include "Collection.h"
using namespace Lucene;
static double ref(int c) { if (!c) return 0; return ldexp((c & 3) * 0.25 + 1.0, (((c >> 3) + 48) << 1 | ((c >> 2) & 1)) - 127); }
static int code(double f) {
    if (f <= 0) return 0;
    double x = (double)(float)f; int r = 1; for (int c = 1; c < 256; ++c) if (ref(c) <= x) r = c; return r; }
static void one(double f) {
    H::note(H::str("value ", f, " bits ", MiscUtils::doubleToRawLongBits(f)));
    int a = SmallDouble::doubleToByte(f), b = Similarity::encodeNorm(f); REQUIRE(a == code(f), "code ", a, " want ", code(f)); REQUIRE(b == a, "encodeNorm ", b);
}
ONCE(codes) {
    for (int c = 0; c < 256; ++c) {
        H::note(H::str("code ", c)); double d = SmallDouble::byteToDouble((uint8_t)c); REQUIRE(d == ref(c), "decodes to ", d, " want ", ref(c));
        REQUIRE(Similarity::decodeNorm((uint8_t)c) == d, "decodeNorm differs ", Similarity::decodeNorm((uint8_t)c)); REQUIRE(Similarity::getNormDecoder()[c] == d, "norm table differs");
        REQUIRE(SmallDouble::doubleToByte(d) == c, "does not encode back");
        if (c) { REQUIRE(d > SmallDouble::byteToDouble((uint8_t)(c - 1)), "decoded values not increasing"); }
        for (int k = -3; k <= 3; ++k) { float f = (float)d; int32_t b; memcpy(&b, &f, 4); b += k; if (b < 0) continue; memcpy(&f, &b, 4); one(f); one(-f); }
    }
    for (double f : { 0.0, -0.0, 1e-300, 4.9e-324, 1e300, 1.7e308, (double)INFINITY, -(double)INFINITY, -1.0, 1.0, 0.5, 1e-10, 5e-10 }) one(f);
}
SECTION(random_values, 1) {
    double p = 0; int pc = 0;
    for (auto v : H::input("f")) { double d; memcpy(&d, &v, 8); if (d == d) one(d); }
    double f; uint64_t b = H::rnd(); if (H::chance(70)) { uint64_t e = 1023 - 40 + H::rnd(80); b = (b & 0x800fffffffffffffULL) | (e << 52); } memcpy(&f, &b, 8); if (f != f) return;
    one(f);
    double g = f * (1 + (double)H::rnd(1000) / 1000); if (g == g && f > 0) { H::note(H::str(f, " <= ", g)); REQUIRE(SmallDouble::doubleToByte(f) <= SmallDouble::doubleToByte(g), "order reversed"); }
}
