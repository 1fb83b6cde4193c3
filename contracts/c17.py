"""C17: the one-byte norm code."""
from .common import *
from check import Lemma
SD, MU, SIM = "Lucene::SmallDouble", "Lucene::MiscUtils", "Lucene::Similarity"
F64, F32 = z3.Float64(), z3.Float32()
RNE = z3.RNE()
def d64(x): return z3.FPVal(float(x), F64)
def single(f): return z3.fpFPToFP(RNE, f, F32)
def dec32(c):
    """value of code c (8-bit term) as the documented format: three mantissa bits, five exponent bits, zero exponent point 15"""
    b = ((zx(z3.LShR(c, 3), 32) + 48) << 24) | (zx(c & 7, 32) << 21)
    return z3.If(c == 0, z3.FPVal(0.0, F32), z3.fpBVToFP(b, F32))
def dec(c): return z3.fpFPToFP(RNE, dec32(c), F64)
def spec(f, r):
    """r is the code of f: zero for values that are not positive, else the greatest code (at least 1) whose value does not exceed f rounded to single precision"""
    x = single(f)
    return [("not positive -> zero", Imp(z3.fpLEQ(f, d64(0)), r == 0)), ("positive -> not zero", Imp(z3.fpGT(f, d64(0)), r != 0)),
            ("code's value does not exceed the input", Imp(And(z3.fpGT(f, d64(0)), r != 1), z3.fpLEQ(dec32(r), x))),
            ("next code's value exceeds the input", Imp(And(z3.fpGT(f, d64(0)), r != 255), z3.fpGT(dec32(r + 1), x)))]
def bits_of(f): return z3.fpToIEEEBV(f)
def dbl(name):
    def s(b):
        x = z3.fpBVToFP(b.bv(name, 64), F64)
        return [x]
    return s
cs = []
def C(fn, *a, **k): cs.append(Contract(fn, *a, **k)); return cs[-1]
retw = lambda w: (lambda c: z3.BitVec(uniq("r"), w))
def nn(c): return [("not a NaN", z3.Not(z3.fpIsNaN(c.a[0])))]
def e_bits(c):
    return [("bit pattern of the value in single precision", z3.fpBVToFP(Z(c.ret, 32), F32) == single(c.a[0]))]
C(MU + "::doubleToIntBits", setup=dbl("value"), requires=nn, modifies=lambda c: [], ensures=e_bits, ret=retw(32))
C(MU + "::doubleToRawIntBits", setup=dbl("value"), requires=nn, modifies=lambda c: [], ensures=e_bits, ret=retw(32))
C(MU + "::intBitsToDouble", setup=lambda b: [b.i32("bits")], modifies=lambda c: [], requires=lambda c: [], ret=lambda c: z3.FP(uniq("d"), F64),
  ensures=lambda c: [("value of the bit pattern", Or(z3.fpIsNaN(z3.fpBVToFP(Z(c.a[0], 32), F32)), c.ret == z3.fpFPToFP(RNE, z3.fpBVToFP(Z(c.a[0], 32), F32), F64)))])
C(SD + "::doubleToByte", setup=dbl("f"), requires=nn, modifies=lambda c: [], ensures=lambda c: spec(c.a[0], Z(c.ret, 8)), ret=retw(8))
C(SD + "::byteToDouble", setup=lambda b: [b.bv("b", 8)], modifies=lambda c: [], ensures=lambda c: [("value of the code", c.ret == dec(Z(c.a[0], 8)))], ret=lambda c: z3.FP(uniq("d"), F64))
C(SIM + "::encodeNorm", setup=dbl("f"), requires=nn, modifies=lambda c: [], ensures=lambda c: spec(c.a[0], Z(c.ret, 8)), ret=retw(8))
def mono_single():
    a, b = z3.FP("a", F64), z3.FP("b", F64)
    return [([z3.fpLEQ(a, b)], [], z3.fpLEQ(single(a), single(b)))]
def mono():
    # given rounding to single precision is monotonic (previous lemma), larger inputs never get smaller codes
    a, b = z3.FP("a", F64), z3.FP("b", F64); r, s = z3.BitVecs("r s", 8); x, y = z3.FP("x", F32), z3.FP("y", F32)
    sub = lambda p: z3.substitute(p, (single(a), x), (single(b), y))
    H = [sub(p) for _, p in spec(a, r) + spec(b, s)] + [z3.fpLEQ(a, b), z3.fpLEQ(x, y)]
    return [(H, [], z3.ULE(r, s))]
def inverse():
    c, r = z3.BitVecs("c r", 8)
    return [([p for _, p in spec(dec(c), r)], [], r == c)]
def decmono():
    c = z3.BitVec("c", 8)
    return [([c != 255], [], z3.fpLT(dec(c), dec(c + 1))), ([], [], z3.fpGEQ(dec(c), d64(0))), ([], [], dec(z3.BitVecVal(0, 8)) == d64(0))]
def extremes():
    f = z3.FP("f", F64); r = z3.BitVec("r", 8)
    S = [p for _, p in spec(f, r)]
    return [(S + [z3.fpGEQ(f, dec(z3.BitVecVal(255, 8)))], [], r == 255), (S + [z3.fpGT(f, d64(0)), z3.fpLT(f, dec(z3.BitVecVal(1, 8))), z3.fpLT(single(f), dec32(z3.BitVecVal(1, 8)))], [], r == 1)]
LEMMAS = [Lemma("rounding to single precision is monotonic", mono_single), Lemma("a larger value never gets a smaller code", mono), Lemma("every code decodes to a value that encodes to it", inverse),
          Lemma("decoded values increase with the code", decmono), Lemma("extreme values", extremes)]
CONTRACTS = cs
TUS = ["util/SmallDouble.cpp", "util/MiscUtils.cpp", "search/Similarity.cpp"]
HARNESS = "c17.cpp"
SECS = 5
