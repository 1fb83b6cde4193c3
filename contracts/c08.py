"""C08: prefix-coded numeric terms and range splitting."""
from .common import *
from check import Lemma
NU = "Lucene::NumericUtils"; ILL, NFE = EXC("IllegalArgument"), EXC("NumberFormat")
F64 = z3.Float64()
BUF = {64: 11, 32: 6}; START = {64: 0x20, 32: 0x60}
sgn = lambda w: z3.BitVecVal(1 << (w - 1), w)
def nch(shift, w): return z3.UDiv(z3.BitVecVal(w - 1, 32) - shift, z3.BitVecVal(7, 32)) + 1
def sortable(v, shift, w):
    """unsigned pattern whose order is the order of v at this precision"""
    return z3.LShR(v ^ sgn(w), shift if w == 32 else sx(shift))
def group(u, j): return zx(z3.Extract(6, 0, z3.LShR(u, 7 * j)), 32)
def is_code(at, n, v, shift, w):
    """the n characters at(0..) are the documented prefix code of v at this shift"""
    u = sortable(v, shift, w); k = nch(shift, w); m = (w - 1) // 7 + 1
    return And(n == sx(k) + 1, at(z3.BitVecVal(0, 64)) == START[w] + shift, [Imp(z3.UGT(k, j), at(sx(k) - j) == group(u, j)) for j in range(m)])
cs = []
def C(fn, *a, **k): cs.append(Contract(fn, *a, **k)); return cs[-1]
def carray(b, n=None):
    reg = b.array("buffer", 4, n if n is not None else b.i64("buffer_n")); o = Ptr(b.vc.new_obj(b.st, "chararray"))
    n32 = z3.Extract(31, 0, Z(n if n is not None else z3.BitVec("buffer_n", 64), 64)); b.lucene_array(o, reg, n32)
    return o
def enc_buf(w, name):
    def setup(b): return [b.bv("val", w), b.i32("shift"), carray(b)]
    def req(c):
        reg, n = larr(c, c.a[2]); return [("buffer has the documented size", And(n >= BUF[w], Z(c.n(reg), 64) == sx(n)))]
    def ens(c):
        A = c.arr(larr(c, c.a[2])[0]); v, s = Z(c.a[0], w), Z(c.a[1], 32)
        return [("the prefix code of the value", is_code(lambda i: A[i], sx(Z(c.ret, 32)), v, s, w)), ("fits the buffer", And(Z(c.ret, 32) > 0, Z(c.ret, 32) <= BUF[w]))]
    bad = lambda c: [(ILL, Or(Z(c.a[1], 32) < 0, Z(c.a[1], 32) > w - 1))]
    C(NU + "::" + name, 3, setup=setup, requires=req, raises=bad, modifies=lambda c: [(larr(c, c.a[2])[0], 0, 4)], ensures=ens, ret=lambda c: z3.BitVec(uniq("len"), 32), name=NU + "::" + name + "/3", maxunroll=14)
    def s2(b): return [Ptr(b.vc.new_obj(b.st, "ret")), b.bv("val", w), b.i32("shift")]
    def strcode(c, v, s):
        from engine import strings
        S = strings.get(c.vc, c.st, c.a[0]); return [("the prefix code of the value", is_code(lambda i: S.at(i), Z(S.len, 64), v, s, w))]
    C(NU + "::" + name, 2, setup=s2, modifies=mods_string, ret=ret_string, raises=lambda c: [(ILL, Or(Z(c.a[2], 32) < 0, Z(c.a[2], 32) > w - 1))], ensures=lambda c: strcode(c, Z(c.a[1], w), Z(c.a[2], 32)), name=NU + "::" + name + "/2")
    C(NU + "::" + name, 1, setup=lambda b: s2(b)[:2], modifies=mods_string, ret=ret_string, nouse=[NU + "::" + name + "/2"], ensures=lambda c: strcode(c, Z(c.a[1], w), z3.BitVecVal(0, 32)), name=NU + "::" + name + "/1")
enc_buf(64, "longToPrefixCoded"); enc_buf(32, "intToPrefixCoded")
def dec(w, name):
    def setup(b):
        o, reg, A, n = b.newstring("coded"); b.v, b.s = b.bv("v", w), b.i32("shift")
        return [o]
    def req(c):
        from engine import strings
        S = strings.get(c.vc, c.st, c.a[0]); v, s = z3.BitVec("v", w), z3.BitVec("shift", 32)
        return [("the string is the code of v at this shift", And(s >= 0, s <= w - 1, is_code(lambda i: S.at(i), Z(S.len, 64), v, s, w)))]
    def ens(c):
        v, s = z3.BitVec("v", w), z3.BitVec("shift", 32); S = s if w == 32 else sx(s)
        return [("the value with the dropped bits cleared", Z(c.ret, w) == z3.LShR(v, S) << S)]
    C(NU + "::" + name, 1, setup=setup, requires=req, modifies=lambda c: [], ensures=ens, maxunroll=14)
    # a first character that is no valid shift is rejected
    def req2(c):
        from engine import strings
        S = strings.get(c.vc, c.st, c.a[0]); return [("not empty", Z(S.len, 64) >= 1), ("impossible shift", Or(S.at(0) < START[w], S.at(0) > START[w] + w - 1))]
    C(NU + "::" + name, 1, setup=lambda b: [b.newstring("coded")[0]], requires=req2, modifies=lambda c: [], raises=lambda c: [(NFE, z3.BoolVal(True))], ensures=lambda c: [z3.BoolVal(False)], name=NU + "::" + name + "/bad prefix", maxunroll=2, when=lambda c: False)
dec(64, "prefixCodedToLong"); dec(32, "prefixCodedToInt")
# ---- doubles
def dsort(x):
    b = z3.fpToIEEEBV(x); return z3.If(b < 0, b ^ z3.BitVecVal((1 << 63) - 1, 64), b)
nn = lambda c: [("not a NaN", z3.Not(z3.fpIsNaN(c.a[0])))]
C(NU + "::doubleToSortableLong", setup=lambda b: [z3.fpBVToFP(b.i64("val"), F64)], requires=nn, modifies=lambda c: [], ensures=lambda c: [("sortable bits", Z(c.ret, 64) == dsort(c.a[0]))], ret=lambda c: z3.BitVec(uniq("sl"), 64))
C(NU + "::sortableLongToDouble", setup=lambda b: [b.i64("val")], modifies=lambda c: [], ret=lambda c: z3.FP(uniq("d"), F64), ensures=lambda c: [("inverse", c.ret == z3.fpBVToFP(z3.If(Z(c.a[0], 64) < 0, Z(c.a[0], 64) ^ z3.BitVecVal((1 << 63) - 1, 64), Z(c.a[0], 64)), F64))])
def l_double():
    x, y = z3.BitVecs("x y", 64); a, b = z3.fpBVToFP(x, F64), z3.fpBVToFP(y, F64)
    H = [z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b))]
    return [(H + [z3.fpLT(a, b)], [], dsort(a) < dsort(b)), (H + [dsort(a) == dsort(b)], [], x == y), (H, [], z3.If(dsort(a) < 0, dsort(a) ^ z3.BitVecVal((1 << 63) - 1, 64), dsort(a)) == x)]
def l_order(w):
    def f():
        out = []; v1, v2 = z3.BitVecs("v1 v2", w)
        for s in range(w):
            n = (w - 1 - s) // 7 + 1; sh = z3.BitVecVal(s, 32); u1, u2 = sortable(v1, sh, w), sortable(v2, sh, w)
            lt = z3.BoolVal(False)
            for j in range(n): x, y = group(u1, j), group(u2, j); lt = Or(z3.ULT(x, y), And(x == y, lt))      # lexicographic, first character first
            out.append(([], [], lt == ((v1 >> s) < (v2 >> s))))
        return out
    return f
LEMMAS = [Lemma("sortable doubles order and invert", l_double), Lemma("order of long terms at every precision", l_order(64)), Lemma("order of int terms at every precision", l_order(32))]
# ---- range splitting: ghost M counts for every value the ranges handed to the builder that match it
LB, IB = "Lucene::LongRangeBuilder", "Lucene::IntRangeBuilder"
def hit(v, lo, hi, s): return And((v >> s) >= (lo >> s), (v >> s) <= (hi >> s))
one, zero8 = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)
def cov(cond): return z3.If(cond, one, zero8)
def M(v, o): return v.ghost(o, "M")
def upd(c, o, lo, hi, s): return M(c, o), FA(lambda v: M(c, o)[v] == M(c.old, o)[v] + cov(hit(v, lo, hi, s)))
def virt(cls, w):
    def ens(c):
        lo, hi = sx(Z(c.a[1], w)), sx(Z(c.a[2], w)); return [upd(c, c.this, lo, hi, sx(Z(c.a[3], 32)))[1]]
    cs.append(Contract(cls + "::addRange", 3, assumed=True, modifies=lambda c: [(c.this.reg, "g:M", 0)], ensures=ens, name="assumed:" + cls + "::addRange"))
virt(LB, 64); virt(IB, 32)
def builder(b, w):
    o = b.obj("builder", LB if w == 64 else IB, exact=False); b.setghost(o, "M", z3.Array("matched0", B64, z3.BitVecSort(8))); return o
def bld(c): return c.vc.load(c.st, c.a[0], PTR)
def inrange(v, w): return And(v >= -(1 << (w - 1)), v < (1 << (w - 1))) if w < 64 else z3.BoolVal(True)
for w in (64, 32):
    def s_add(b, w=w): return [b.sp(builder(b, w)), z3.BitVecVal(w, 32), b.i64("minBound"), b.i64("maxBound"), b.i32("shift")]
    def r_add(c, w=w): return [("a precision", And(Z(c.a[4], 32) >= 0, Z(c.a[4], 32) < w)), ("bounds", And(inrange(Z(c.a[2], 64), w), inrange(Z(c.a[3], 64), w)))]
    def e_add(c, w=w): return [("the range at this precision", upd(c, bld(c), Z(c.a[2], 64), Z(c.a[3], 64), sx(Z(c.a[4], 32)))[1])]
    is_w = lambda c, w=w: cst(simp(Z(c.a[1], 32))) == w
    C(NU + "::addRange", 5, setup=s_add, requires=r_add, modifies=lambda c: [(bld(c).reg, "g:M", 0)], ensures=e_add, name=NU + "::addRange/%d" % w, when=is_w)
    def s_spl(b, w=w): return [b.sp(builder(b, w)), z3.BitVecVal(w, 32), b.i32("precisionStep"), b.i64("minBound"), b.i64("maxBound")]
    def r_spl(c, w=w): return [("bounds", And(inrange(Z(c.a[3], 64), w), inrange(Z(c.a[4], 64), w)))]
    def low(s): return (z3.BitVecVal(1, 64) << s) - 1
    def i_spl(c, w=w):
        o = bld_c(c); lo0, hi0 = Z(c.cargs[3], 64), Z(c.cargs[4], 64); lo, hi, s = Z(c.var("minBound"), 64), Z(c.var("maxBound"), 64), sx(Z(c.var("shift"), 32)); ps = Z(c.cargs[2], 32)
        return [("precision", And(s >= 0, s < w, ps >= 1, Or(s == 0, ps < w))), ("bounds shrink", And(lo0 <= lo, lo <= hi, (hi | low(s)) <= (hi0 | low(s)), hi <= hi0)), ("on the grid", And(lo & low(s) == 0, hi & low(s) == 0)),
                ("covered plus remaining is the range", FA(lambda v: M(c, o)[v] + cov(And(v >= lo, v <= (hi | low(s)))) == M(c.pre, o)[v] + cov(And(v >= lo0, v <= hi0))))]
    def bld_c(c): return c.vc.load(c.st, c.cargs[0], PTR)
    def e_spl(c, w=w): o = bld(c); return [("every value of the range is matched exactly once, no other value at all", FA(lambda v: M(c, o)[v] == M(c.old, o)[v] + cov(And(v >= Z(c.a[3], 64), v <= Z(c.a[4], 64)))))]
    cs.append(Contract(NU + "::splitRange", 5, setup=s_spl, requires=r_spl, modifies=lambda c: [(bld(c).reg, "g:M", 0)],
      raises=lambda c: [(ILL, Z(c.a[2], 32) < 1)], ensures=e_spl, name=NU + "::splitRange/%d" % w, when=is_w, use=[NU + "::addRange/%d" % w], loops=[LoopSpec(i_spl, name="split loop")], timeout=60000))
# the default builder hands on the two bounds as terms of that precision
for w, cls, enc in ((64, LB, "longToPrefixCoded"), (32, IB, "intToPrefixCoded")):
    def r_str(c, w=w):
        from engine import strings
        a = c.vc.pre_args; S, T = strings.get(c.vc, c.st, c.a[1]), strings.get(c.vc, c.st, c.a[2]); s = Z(a[3], 32)
        return [("term of the lower bound", is_code(lambda i: S.at(i), Z(S.len, 64), Z(a[1], w), s, w)), ("term of the upper bound", is_code(lambda i: T.at(i), Z(T.len, 64), Z(a[2], w), s, w))]
    cs.append(Contract(cls + "::addRange", 2, assumed=True, requires=r_str, modifies=lambda c: [(c.this.reg, "g:calls", 0)], ensures=lambda c: [c.ghost(c.this, "calls") == c.old.ghost(c.this, "calls") + 1], name="assumed:" + cls + "::addRange(terms)"))
    def s_b(b, w=w, cls=cls):
        o = b.obj("builder", cls, exact=False); b.setghost(o, "calls", z3.BitVec("calls0", 32)); return [o, b.bv("min", w), b.bv("max", w), b.i32("shift")]
    C(cls + "::addRange", 3, setup=s_b, modifies=lambda c: [(c.this.reg, "g:calls", 0)], raises=lambda c, w=w: [(ILL, Or(Z(c.a[3], 32) < 0, Z(c.a[3], 32) > w - 1))], ensures=lambda c: [("one range handed on", c.ghost(c.this, "calls") == c.old.ghost(c.this, "calls") + 1)],
      use=["assumed:" + cls + "::addRange(terms)", NU + "::" + enc + "/2"], name=cls + "::addRange/strings", when=lambda c: False)
CONTRACTS = cs
TUS = ["util/NumericUtils.cpp", "util/MiscUtils.cpp"]
HARNESS = "c08.cpp"
SECS = 10
