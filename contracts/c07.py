"""C07: OpenBitSet, its iterator and the word-level counts."""
from .common import *
from check import Lemma
BS, IT, BU = "Lucene::OpenBitSet", "Lucene::OpenBitSetIterator", "Lucene::BitUtil"
P = z3.Function("bits64", B64, B64)              # number of one bits of a word
def ptree(x, lo=0, hi=64):
    """sum of the bits of x as a 32-bit number"""
    if hi - lo == 1: return z3.ZeroExt(31, z3.Extract(lo, lo, x))
    m = (lo + hi) // 2
    return ptree(x, lo, m) + ptree(x, m, hi)
def pdef(x): return P(x) == zx(ptree(x), 64)
from engine import driver
def tzt(b):
    r = z3.BitVecVal(8, 8)
    for k in reversed(range(8)): r = z3.If(z3.Extract(k, k, b) == 1, z3.BitVecVal(k, 8), r)
    return r
driver.TABLES.append(("Lucene::BitUtil::ntzTable", lambda i: tzt(i), lambda k: 8 if k == 0 else (k & -k).bit_length() - 1))
def nib(b, w=32):
    """positions (1-based) of the one bits of the low byte of b, lowest in the lowest nibble"""
    r = z3.BitVecVal(0, w)
    for k in reversed(range(8)): r = z3.If(z3.Extract(k, k, b) == 1, (r << 4) | (k + 1), r)
    return r
def nibpy(k):
    r = 0
    for b in reversed(range(8)):
        if k >> b & 1: r = r << 4 | b + 1
    return r - (1 << 32) if r >= 1 << 31 else r
driver.TABLES.append(("Lucene::OpenBitSetIterator::bitlist", lambda i: nib(i), nibpy))
ZERO, ONE, ONES = z3.BitVecVal(0, 64), z3.BitVecVal(1, 64), z3.BitVecVal(-1, 64)
MAXW = 1 << 24
def wbit(w, k): return (z3.LShR(w, k) & 1) == 1
def bit(A, j): return wbit(A[z3.LShR(j, 6)], j & 63)
cs = []
def C(fn, *a, **k): cs.append(Contract(fn, *a, **k)); return cs[-1]
R = lambda w: (lambda c: z3.BitVec(uniq("r"), w))
retb = lambda c: z3.Bool(uniq("r"))

# ---------------------------------------------------------------- words
def w64(b): return [b.bv("x", 64)]
def swar(x):
    """the number of one bits by doubling field widths - equal to the sum of the bits by the lemma below"""
    c = lambda v: z3.BitVecVal(v, 64)
    x = x - (z3.LShR(x, 1) & c(0x5555555555555555)); x = (x & c(0x3333333333333333)) + (z3.LShR(x, 2) & c(0x3333333333333333)); x = (x + z3.LShR(x, 4)) & c(0x0f0f0f0f0f0f0f0f)
    x = x + z3.LShR(x, 8); x = x + z3.LShR(x, 16); x = x + z3.LShR(x, 32)
    return z3.Extract(31, 0, x) & 0x7f
C(BU + "::pop", 1, setup=w64, modifies=lambda c: [], ensures=lambda c: [("number of one bits", And(zx(Z(c.ret, 32), 64) == P(c.a[0]), z3.ULE(Z(c.ret, 32), 64)) if c.call else (Z(c.ret, 32) == swar(c.a[0])))], ret=R(32))
def csa_fact(a, b, c): return 2 * P((a & b) | ((a ^ b) & c)) + P((a ^ b) ^ c) == P(a) + P(b) + P(c)      # lemma "carry save"
def and_fact(x, y): return 2 * P(x & y) + P(x ^ y) == P(x) + P(y)                                        # lemma "half adder"
def setup_csa(b):
    h, l = Ptr(b.vc.new_arr(b.st, "h", 8, z3.BitVecVal(1, 64))), Ptr(b.vc.new_arr(b.st, "l", 8, z3.BitVecVal(1, 64)))
    return [h, l] + [b.bv(n, 64) for n in "abc"]
def e_csa(c):
    h, l = Z(c.vc.load(c.st, c.a[0], I64), 64), Z(c.vc.load(c.st, c.a[1], I64), 64); a, b, d = [Z(x, 64) for x in c.a[2:]]
    if c.call: return [2 * P(h) + P(l) == P(a) + P(b) + P(d)]
    return [("carry", h == ((a & b) | ((a ^ b) & d))), ("sum", l == ((a ^ b) ^ d))]
def m_ref(p): return (p.reg, p.off, 8) if p.reg.kind == "obj" else (p.reg, 0, 8)
C(BU + "::CSA", 5, setup=setup_csa, modifies=lambda c: [m_ref(c.a[0]), m_ref(c.a[1])], ensures=e_csa)
def tz(v, r, w):
    return And(r >= 0, r < w, (z3.LShR(v, r) & 1) == 1, (v & ((z3.BitVecVal(1, w) << r) - 1)) == 0)
for w, d in ((64, "(long)"), (32, "(int)")):
    C(BU + "::ntz", 1, pred=lambda s, d=d: d in s, setup=lambda b, w=w: [b.bv("v", w)], requires=lambda c: [("not zero", c.a[0] != 0)], modifies=lambda c: [],
      ensures=lambda c, w=w: [("lowest one bit", tz(Z(c.a[0], w), zx(Z(c.ret, 32), w) if w > 32 else Z(c.ret, 32), w))], ret=R(32), name="ntz" + d)
for n in ("ntz2", "ntz3"):
    C(BU + "::" + n, 1, setup=w64, requires=lambda c: [("not zero", c.a[0] != 0)], modifies=lambda c: [], ensures=lambda c: [("lowest one bit", tz(c.a[0], zx(Z(c.ret, 32), 64), 64))], ret=R(32))
def pow2(v, w): return Or(v == 0, And([Imp((z3.LShR(v, k) & 1) == 1, v == z3.BitVecVal(1, w) << k) for k in range(w)]))
for w, d in ((64, "(long)"), (32, "(int)")):
    C(BU + "::isPowerOfTwo", 1, pred=lambda s, d=d: d in s, setup=lambda b, w=w: [b.bv("v", w)], modifies=lambda c: [], ensures=lambda c, w=w: [("power of two or zero", ZB(c.ret) == pow2(Z(c.a[0], w), w))], ret=retb, name="isPowerOfTwo" + d)
    def e_nh(c, w=w):
        v, r = Z(c.a[0], w), Z(c.ret, w)
        return [("least power of two not below", Imp(And(v > 0, v <= z3.BitVecVal(1 << (w - 2), w)), And(pow2(r, w), r != 0, r >= v, z3.LShR(r, 1) < v))), ("zero", Imp(v == 0, r == 0))]
    C(BU + "::nextHighestPowerOfTwo", 1, pred=lambda s, d=d: d in s, setup=lambda b, w=w: [b.bv("v", w)], modifies=lambda c: [], ensures=e_nh, ret=R(w), name="nextHighestPowerOfTwo" + d)
# ---- counts over word arrays: prefix sums of the bits of the combined words
OPS = {"pop_array": lambda a, b: a, "pop_intersect": lambda a, b: a & b, "pop_union": lambda a, b: a | b, "pop_andnot": lambda a, b: a & ~b, "pop_xor": lambda a, b: a ^ b}
def psum(v, op, A, B=None):
    """ghost prefix sums of bits64(op(A[i],B[i])) - a definitional extension"""
    vc, st = v.vc, v.st
    m = getattr(vc, "_ps7", None)
    if m is None: m = vc._ps7 = {}
    k = (op, A.get_id(), B.get_id() if B is not None else 0)
    if k not in m:
        Q = z3.Array(uniq("ps_" + op), B64, B64); f = OPS[op]
        m[k] = (Q, FA(lambda i: Imp(rng(i, 0, B31), Q[i + 1] == Q[i] + P(f(A[i], B[i] if B is not None else None))), name="ps", trig=None), A, B)
    Q, F, _, _ = m[k]
    if not any(x is F for x in st.facts): st.assume(Q[ZERO] == 0, F)
    return Q
def seg(c, op, frm, n, A, B=None):
    Q = psum(c, op, A, B)
    return Q[frm + n] - Q[frm]
def argr(c, k): return c.a[k].reg, Z(c.a[k].idx, 64)
def arrs(v, a, two):
    """the word arrays as seen through the pointers (which point at element 0)"""
    return [v.arr(a[k].reg) for k in range(2 if two else 1)]
def nA(c, two): return c.a[2 if two else 1:]
def r_pop(two):
    def f(c):
        off, n = [sx(Z(x, 32)) for x in nA(c, two)]
        out = [("window in the arrays", And([And(off >= 0, n >= 0, off + n <= Z(c.n(c.a[k].reg), 64), off + n < (1 << 30)) for k in range(2 if two else 1)]))]
        for k in range(2 if two else 1): out.append(("whole array", Z(c.a[k].idx, 64) == 0))
        return out
    return f
def s_pop(two):
    def f(b):
        out = []
        for nm in "AB"[:2 if two else 1]:
            n = z3.BitVec("n" + nm, 64); b.assume(n >= 0, n < (1 << 30))
            out.append(Ptr(b.array(nm, 8, n)))
        return out + [b.i32("wordOffset"), b.i32("numWords")]
    return f
def half_trig(e):
    if e.decl().name() != "bits64": return None
    x = e.arg(0)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BAND and x.num_args() == 2: return (x.arg(0), x.arg(1))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BNOT and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_BOR and x.arg(0).num_args() == 2:
        y, z = x.arg(0).arg(0), x.arg(0).arg(1)
        if all(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BNOT for t in (y, z)): return (y.arg(0), z.arg(0))
    return None
HALF = FA(lambda x, y: and_fact(x, y), (64, 64), name="half", trig=[half_trig])
def i_pop(op, two):
    def f(c):
        M = arrs(c, c.cargs, two); off, n = [sx(Z(x, 32)) for x in c.cargs[2 if two else 1:]]
        i = sx(Z(c.var("i"), 32)); v = lambda s: Z(c.var(s), 64)
        Q = psum(c, op, *M)
        return [("position", And(i >= off, i <= off + n)), ("no bits in the small count", v("tot") == 0),
                ("bits so far", 8 * v("tot8") + 4 * P(v("fours")) + 2 * P(v("twos")) + P(v("ones")) == Q[i] - Q[off])]
    return f
for op, f in OPS.items():
    two = op != "pop_array"
    def e_pop(c, op=op, two=two):
        off, n = [sx(Z(x, 32)) for x in nA(c, two)]; M = arrs(c.old, c.a, two)
        return [("number of bits of the combined words", Z(c.ret, 64) == seg(c, op, off, n, *M))]
    def r2(c, two=two, op=op):
        if not c.call: c.st.assume(HALF, pdef(ZERO))
        return r_pop(two)(c)
    C(BU + "::" + op, 4 if two else 3, setup=s_pop(two), requires=r2, modifies=lambda c: [], ensures=e_pop, ret=R(64), assumed=True,
      loops=[LoopSpec(i_pop(op, two), dec=lambda c: sx(Z(c.var("n"), 32)) - sx(Z(c.var("i"), 32)), name=op + " loop")])

# ---------------------------------------------------------------- the set
def st_(v, o):
    reg, n = larr(v, o, "bits")
    return dict(A=v.arr(reg), n=sx(n), w=sx(Z(v.fld(o, "wlen"), 32)), reg=reg)
def inv(v, o):
    s = st_(v, o)
    return [("words in use are allocated", And(s["w"] >= 0, s["w"] <= s["n"], s["n"] <= MAXW)), ("words beyond are clear", FA(lambda k: Imp(rng(k, s["w"], s["n"]), s["A"][k] == 0), name="tail"))]
def mk(b, name="set"):
    o = b.obj(name, BS); n = z3.BitVec("n_" + name, 32)
    reg = b.array(name + ".bits", 8, sx(n)); b.lucene_array(b.sub(o, "bits"), reg, n)
    b.inputs["wlen"] = Z(b.fld(o, "wlen"), 32)
    return o
def setup(*ps):
    def f(b): return [mk(b)] + [b.bv(n, w) for n, w in ps]
    return f
IDX = lambda w: (("index", w),)
RNG = lambda w: (("startIndex", w), ("endIndex", w))
def req(c): return inv(c, c.this)
def i64(x, w=64): return Z(x, 64) if w == 64 else sx(Z(x, 32))
def member(s, j): return And(j < 64 * s["n"], bit(s["A"], j))
BITS = 64 * MAXW
def m_bits(c): return [(st_(c, c.this)["reg"], 0, 8)]
def m_grow(c):
    q = c.sub(c.this, "bits")
    return m_bits(c) + [loc(c, c.this, "wlen")] + ([] if not c.call else [])
def allbits(name, s0, s1, f):
    """for every index: the new membership is f(old membership, index)"""
    return (name, FA(lambda j: Imp(And(j >= 0, j < BITS), member(s1, j) == f(member(s0, j), j)), name="mem"))
def w_of(d): return 64 if "long" in d else 32
def P1(w): return lambda d: ("(long)" if w == 64 else "(int)") in d
def P2(w): return lambda d: ("(long, long)" if w == 64 else "(int, int)") in d
for w in (32, 64):
    def e_get(c, w=w): return [("membership", ZB(c.ret) == member(st_(c, c.this), i64(c.a[1], w)))]
    def r_idx(c, w=w): return req(c) + [("not negative", And(i64(c.a[1], w) >= 0, i64(c.a[1], w) < (1 << 37)))]
    def r_in(c, w=w): return req(c) + [("index within the words in use", And(i64(c.a[1], w) >= 0, i64(c.a[1], w) < 64 * st_(c, c.this)["w"]))]
    C(BS + "::get", 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_idx, modifies=lambda c: [], ensures=e_get, ret=retb, name="OpenBitSet::get/%d" % w)
    C(BS + "::fastGet", 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_in, modifies=lambda c: [], ensures=e_get, ret=retb, name="OpenBitSet::fastGet/%d" % w)
    def chg(f):
        def e(c, w=w):
            x = i64(c.a[1], w)
            return [allbits("exactly this index changes", st_(c.old, c.this), st_(c, c.this), lambda m, j: z3.If(j == x, f(m), m))] + inv(c, c.this)
        return e
    TR, FL, NG = (lambda m: z3.BoolVal(True)), (lambda m: z3.BoolVal(False)), (lambda m: Not(m))
    for fn, f in (("fastSet", TR), ("fastClear", FL), ("fastFlip", NG)):
        C(BS + "::" + fn, 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_in, modifies=m_bits, ensures=chg(f), name="OpenBitSet::%s/%d" % (fn, w))
    def withret(f, g):
        def e(c, w=w): return [("result", ZB(c.ret) == g(member(st_(c.old, c.this), i64(c.a[1], w))))] + f(c)
        return e
    C(BS + "::getAndSet", 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_in, modifies=m_bits, ensures=withret(chg(TR), lambda m: m), ret=retb, name="OpenBitSet::getAndSet/%d" % w)
    C(BS + "::flipAndGet", 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_in, modifies=m_bits, ensures=withret(chg(NG), Not), ret=retb, name="OpenBitSet::flipAndGet/%d" % w)
    def r_rng(c, w=w):
        return req(c) + [("start not negative", And(i64(c.a[1], w) >= 0, i64(c.a[1], w) < (1 << 36), i64(c.a[2], w) < (1 << 36)))]
    def e_clr(c, w=w):
        a, b = i64(c.a[1], w), i64(c.a[2], w)
        return [allbits("exactly the range is cleared", st_(c.old, c.this), st_(c, c.this), lambda m, j: And(m, Not(And(j >= a, j < b))))] + inv(c, c.this)
    C(BS + "::clear", 2, pred=P2(w), setup=setup(*RNG(w)), requires=r_rng, modifies=m_bits, ensures=e_clr, name="OpenBitSet::clear(range)/%d" % w)
    # next set bit
    def r_nsb(c, w=w): return req(c) + [("not negative", And(i64(c.a[1], w) >= 0, i64(c.a[1], w) < (1 << 36)))]
    def clean(s, a, b): return FA(lambda j: Imp(And(j >= a, j < b, j >= 0), Not(member(s, j))), name="gap")
    def e_nsb(c, w=w):
        s = st_(c, c.this); x = i64(c.a[1], w); r = i64(c.ret, w)
        end = z3.If(r == -1, z3.BitVecVal(BITS, 64), r)
        return [("none before the result", FA(lambda j: Imp(And(j >= x, j < end), Not(member(s, j))), name="gap")), ("result is a member", Or(r == -1, And(r >= x, member(s, r))))]
    def i_nsb(c, w=w):
        o = c.cargs[0]; s = st_(c, o); x = i64(c.cargs[1], w); i = sx(Z(c.var("i"), 32))
        return [("position", And(i >= (x >> 6), i < s["w"])), ("none so far", FA(lambda k: Imp(And(k > (x >> 6), k <= i), s["A"][k] == 0), name="zw")), ("first word", z3.LShR(s["A"][x >> 6], x & 63) == 0)]
    C(BS + "::nextSetBit", 1, pred=P1(w), setup=setup(*IDX(w)), requires=r_nsb, modifies=lambda c: [], ensures=e_nsb, ret=R(w), name="OpenBitSet::nextSetBit/%d" % w,
      loops=[LoopSpec(i_nsb, dec=lambda c: st_(c, c.cargs[0])["w"] - sx(Z(c.var("i"), 32)), name="nextSetBit loop")])
C(BS + "::getBit", 1, setup=setup(*IDX(32)), requires=lambda c: req(c) + [("index within the words", And(i64(c.a[1], 32) >= 0, i64(c.a[1], 32) < 64 * st_(c, c.this)["n"]))], modifies=lambda c: [],
  ensures=lambda c: [("membership", Z(c.ret, 32) == z3.If(member(st_(c, c.this), i64(c.a[1], 32)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))], ret=R(32))
def r_g(c): return req(c) + [("not negative, below the size limit", And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) < 64 * (MAXW // 2)))]
def chg64(f):
    def e(c):
        x = Z(c.a[1], 64)
        return [allbits("exactly this index changes", st_(c.old, c.this), st_(c, c.this), lambda m, j: z3.If(j == x, f(m), m))] + inv(c, c.this)
    return e
C(BS + "::set", 1, setup=setup(*IDX(64)), requires=r_g, ensures=chg64(TR), name="OpenBitSet::set")
C(BS + "::flip", 1, setup=setup(*IDX(64)), requires=r_g, ensures=chg64(NG), name="OpenBitSet::flip")
C(BS + "::clear", 1, setup=setup(*IDX(64)), requires=lambda c: req(c) + [("not negative", And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) < (1 << 36)))], modifies=m_bits, ensures=chg64(FL), name="OpenBitSet::clear")
def r_gr(c): return req(c) + [("range below the size limit", And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) < 64 * (MAXW // 2), Z(c.a[2], 64) <= 64 * (MAXW // 2)))]
def e_rng(f):
    def e(c):
        a, b = Z(c.a[1], 64), Z(c.a[2], 64)
        return [allbits("exactly the range changes", st_(c.old, c.this), st_(c, c.this), lambda m, j: z3.If(And(j >= a, j < b), f(m), m))] + inv(c, c.this)
    return e
C(BS + "::set", 2, setup=setup(*RNG(64)), requires=r_gr, ensures=e_rng(TR), name="OpenBitSet::set(range)")
def i_flip(c):
    o = c.cargs[0]; s, s0 = st_(c, o), st_(c.pre, o); i = sx(Z(c.var("i"), 32)); a, b = Z(c.cargs[1], 64), Z(c.cargs[2], 64)
    f = lambda m: Not(m)
    hi = i << 6
    return [("position", And(i > (a >> 6), i <= ((b - 1) >> 6))), ("flipped up to here", FA(lambda j: Imp(And(j >= 0, j < BITS), member(s, j) == z3.If(And(j >= a, j < hi), Not(member(s0, j)), member(s0, j))), name="mem"))] + inv(c, o)[:2]
C(BS + "::flip", 2, setup=setup(*RNG(64)), requires=r_gr, ensures=e_rng(NG), name="OpenBitSet::flip(range)", loops=[LoopSpec(i_flip, dec=lambda c: sx(Z(c.var("endWord"), 32)) - sx(Z(c.var("i"), 32)), name="flip loop")])
C(BS + "::cardinality", 0, setup=setup(), requires=req, modifies=lambda c: [], ensures=lambda c: [("number of bits", Z(c.ret, 64) == seg(c, "pop_array", ZERO, st_(c, c.this)["w"], st_(c, c.this)["A"]))], ret=R(64))

# ---------------------------------------------------------------- two sets
def setup2(same=False, fn=0):
    def f(b):
        o = mk(b); p = o if same else mk(b, "other")
        return [o, b.sp(p)]
    return f
def oth(c): return c.vc.load(c.st, c.a[1], PTR)
def other(c, v): return st_(v, c.vc.load(c.old.st if not c.call and c.old is not None else c.st, c.a[1], PTR))
def req2(c):
    p = c.vc.load(c.st, c.a[1], PTR)
    return inv(c, c.this) + [("other: " + n, x) for n, x in inv(c, p)]
def req2g(c):
    p = c.vc.load(c.st, c.a[1], PTR)
    return req2(c) + [("below the size limit", And(st_(c, p)["w"] <= MAXW // 2, st_(c, c.this)["w"] <= MAXW // 2))]
def mem2(s, j): return And(j < 64 * s["w"], bit(s["A"], j))
def algebra(f):
    def e(c):
        p = c.vc.load(c.old.st, c.a[1], PTR)
        s0, s1, q = st_(c.old, c.this), st_(c, c.this), st_(c.old, p)
        return [("words are combined", FA(lambda k: Imp(rng(k, 0, s1["n"]), s1["A"][k] == f(z3.If(k < s0["n"], s0["A"][k], ZERO), z3.If(k < q["n"], q["A"][k], ZERO))), name="word")), ("long enough", FA(lambda k: Imp(And(k >= s1["n"], k < MAXW), f(z3.If(k < s0["n"], s0["A"][k], ZERO), z3.If(k < q["n"], q["A"][k], ZERO)) == 0), name="beyond"))] + inv(c, c.this)
    return e
def i_alg(f, v="pos"):
    """words from pos on are combined, the rest unchanged"""
    def g(c):
        o = c.cargs[0]; p = c.vc.load(c.pre.st, c.cargs[1], PTR); s, s0, q = st_(c, o), st_(c.pre, o), st_(c.pre, p)
        k0 = sx(Z(c.var(v), 32)); m = z3.If(s0["w"] < q["w"], s0["w"], q["w"])
        old = lambda k: z3.If(k < s0["n"], s0["A"][k], ZERO)
        return [("position", And(k0 >= 0, k0 <= m)), ("array", And(s["n"] >= s0["n"], s["w"] == s0["w"])),
                ("combined from here on", FA(lambda k: Imp(rng(k, 0, s["n"]), s["A"][k] == z3.If(And(k >= k0, k < m), f(s0["A"][k], q["A"][k]), old(k))), name="word"))]
    return g
def m_alg(c): return None
AND, OR, DIFF, XOR = (lambda a, b: a & b), (lambda a, b: a | b), (lambda a, b: a & ~b), (lambda a, b: a ^ b)
for fn, f, v in (("intersect", AND, "pos"), ("_union", OR, "pos"), ("remove", DIFF, "idx"), ("_xor", XOR, "pos")):
    c_ = C(BS + "::" + fn, 1, requires=req2 if fn in ("intersect", "remove") else req2g, ensures=algebra(f), name="OpenBitSet::" + fn, loops=[LoopSpec(i_alg(f, v), dec=lambda c, v=v: sx(Z(c.var(v), 32)), name=fn + " loop")])
    c_.alts = [setup2(), setup2(True)]
def e_ints(c):
    p = c.vc.load(c.st, c.a[1], PTR); s, q = st_(c, c.this), st_(c, p)
    W = z3.BitVec(uniq("witness"), 64)
    return [("false only when nothing is shared", Or(ZB(c.ret), FA(lambda k: Imp(And(k >= 0, k < s["w"], k < q["w"]), s["A"][k] & q["A"][k] == 0), name="none")))]
def i_ints(c):
    o = c.cargs[0]; p = c.vc.load(c.st, c.cargs[1], PTR); s, q = st_(c, o), st_(c, p); k0 = sx(Z(c.var("pos"), 32)); m = z3.If(s["w"] < q["w"], s["w"], q["w"])
    return [("position", And(k0 >= 0, k0 <= m)), ("nothing shared so far", FA(lambda k: Imp(And(k >= k0, k < m), s["A"][k] & q["A"][k] == 0), name="none"))]
for fn in ("_and", "_or", "andNot"):
    f, g = {"_and": (AND, "intersect"), "_or": (OR, "_union"), "andNot": (DIFF, "remove")}[fn]
    C(BS + "::" + fn, 1, setup=setup2(), requires=req2 if g != "_union" else req2g, ensures=algebra(f), name="OpenBitSet::" + fn, nouse={BS + "::" + g}, loops=[LoopSpec(i_alg(f, {"remove": "idx"}.get(g, "pos")), dec=lambda c, v={"remove": "idx"}.get(g, "pos"): sx(Z(c.var(v), 32)), name=fn + " loop")])
def i_trim(c):
    o = c.cargs[0]; s = st_(c, o); k0 = sx(Z(c.var("idx"), 32))
    return [("position", And(k0 >= -1, k0 < s["w"])), ("zero from here on", FA(lambda k: Imp(And(k > k0, k < s["w"]), s["A"][k] == 0), name="zw"))]
C(BS + "::trimTrailingZeros", 0, setup=setup(), requires=req, modifies=lambda c: [loc(c, c.this, "wlen")],
  ensures=lambda c: inv(c, c.this) + [("the last word in use is not zero", Or(st_(c, c.this)["w"] == 0, st_(c, c.this)["A"][st_(c, c.this)["w"] - 1] != 0))], loops=[LoopSpec(i_trim, dec=lambda c: sx(Z(c.var("idx"), 32)) + 1, name="trim loop")])
C(BS + "::bits2words", 1, setup=lambda b: [b.obj("set", BS), b.i64("numBits")][1:], requires=lambda c: [("size", And(Z(c.a[0], 64) >= 0, Z(c.a[0], 64) < (1 << 36)))], modifies=lambda c: [],
  ensures=lambda c: [("words needed", sx(Z(c.ret, 32)) == (Z(c.a[0], 64) + 63) >> 6)], ret=R(32))

# ---------------------------------------------------------------- iterating
NOMORE = z3.BitVecVal(0x7fffffff, 64)
def it_(v, o):
    reg, n = larr(v, o, "arr")
    g = lambda f: sx(Z(v.fld(o, f), 32))
    return dict(A=v.arr(reg), n=sx(n), words=g("words"), i=g("i"), word=Z(v.fld(o, "word"), 64), ws=g("wordShift"), ia=Z(v.fld(o, "indexArray"), 32), cur=g("curDocId"), reg=reg)
def imem(s, j): return And(j >= 0, j < 64 * s["words"], bit(s["A"], j))
def nobits(s, a, b): return FA(lambda j: Imp(And(j > a, j < b), Not(imem(s, j))), name="nobit")
def low(s): return z3.Extract(7, 0, s["word"])
def restmask(s):
    """bits of the low byte at positions above the current document"""
    d = z3.Extract(7, 0, s["cur"] - 64 * s["i"] - s["ws"] - 1)
    return low(s) & ~((z3.BitVecVal(2, 8) << d) - 1)
def iinv(v, o):
    s = it_(v, o)
    base = 64 * s["i"] + s["ws"] + 1
    idle = And(s["word"] == 0, s["ia"] == 0)
    busy = And(s["word"] != 0, s["i"] >= 0, s["i"] < s["words"], s["ws"] >= -1, s["ws"] < 63, s["word"] == z3.LShR(s["A"][s["i"]], s["ws"] + 1), s["cur"] >= base, s["cur"] < base + 8, s["cur"] < 64 * (s["i"] + 1), s["ia"] == nib(restmask(s)))
    return [("words", And(s["words"] >= 0, s["words"] <= s["n"], s["words"] <= MAXW)), ("position", And(s["i"] >= -1, s["cur"] >= -1, Imp(s["cur"] == NOMORE, s["i"] + 1 >= s["words"]))),
            ("state", Or(idle, busy)),
            ("idle: nothing before the next word", FA(lambda j: Imp(And(idle, j > s["cur"], j < 64 * (s["i"] + 1)), Not(imem(s, j))), name="idle")),
            ("idle: before the next word", Imp(idle, Or(s["cur"] < 64 * (s["i"] + 1), s["cur"] == NOMORE)))]
def isetup(*ps):
    def f(b):
        o = b.obj("it", IT); n = z3.BitVec("nwords", 32)
        reg = b.array("arr", 8, sx(n)); b.lucene_array(b.sub(o, "arr"), reg, n)
        for k in ("i", "wordShift", "curDocId", "words"): b.inputs[k] = Z(b.fld(o, k), 32)
        return [o] + [b.bv(x, 32) for x in ps]
    return f
def m_it(c): return [loc(c, c.this, n) for n in ("i", "word", "wordShift", "indexArray", "curDocId")]
def e_it(target):
    def e(c):
        s0, s1 = it_(c.old, c.this), it_(c, c.this); r = sx(Z(c.ret, 32)); frm = s0["cur"] if not target else sx(Z(c.a[1], 32)) - 1
        return [("reported as current", s1["cur"] == r), ("a member, or the end", Or(r == NOMORE, And(r > frm, imem(s1, r)))), ("none skipped", nobits(s1, frm, r))] + iinv(c, c.this)
    return e
def i_next(c):
    o = c.cargs[0]; s, s0 = it_(c, o), it_(c.pre, o)
    B = z3.If(s["word"] == 0, 64 * (s["i"] + 1), 64 * s["i"] + s["ws"] + 1)
    return [("unchanged", And(s["cur"] == s0["cur"], s["ia"] == 0, s["i"] >= s0["i"], Or(s["i"] < s["words"], s["i"] == s0["i"]))),
            ("word", Imp(s["word"] != 0, And(s["i"] >= 0, s["i"] < s["words"], s["ws"] >= -1, s["ws"] < 63, s["word"] == z3.LShR(s["A"][s["i"]], s["ws"] + 1)))),
            ("beyond the current", Or(s["cur"] < B, And(s["cur"] == NOMORE, s["word"] == 0, s["i"] + 1 >= s["words"]))), ("none before", FA(lambda j: Imp(And(j > s0["cur"], j < B), Not(imem(s, j))), name="nobit"))]
C(IT + "::nextDoc", 0, setup=isetup(), requires=lambda c: iinv(c, c.this) + [("fewer than 2^30 calls after the end", it_(c, c.this)["i"] < (1 << 30))], modifies=m_it, ensures=e_it(False), ret=R(32), timeout=60000,
  loops=[LoopSpec(i_next, dec=lambda c: (1 << 31) - sx(Z(c.fld(c.cargs[0], "i"), 32)), name="nextDoc loop")])
def i_adv(c):
    o = c.cargs[0]; s = it_(c, o); t = sx(Z(c.cargs[1], 32))
    B = z3.If(s["word"] == 0, 64 * (s["i"] + 1), 64 * s["i"])
    return [("position", And(s["i"] >= (t >> 6), s["i"] < s["words"], s["ia"] == 0)), ("word", Imp(s["word"] != 0, And(s["i"] > (t >> 6), s["word"] == s["A"][s["i"]]))),
            ("none before", FA(lambda j: Imp(And(j >= t, j < B), Not(imem(s, j))), name="nobit"))]
C(IT + "::advance", 1, setup=isetup("target"), requires=lambda c: iinv(c, c.this) + [("target not negative", Z(c.a[1], 32) >= 0)], modifies=m_it, ensures=e_it(True), ret=R(32), timeout=60000,
  loops=[LoopSpec(i_adv, dec=lambda c: (1 << 31) - sx(Z(c.fld(c.cargs[0], "i"), 32)), name="advance loop")])
CONTRACTS = cs
def l_csa():
    x, y, z = z3.BitVecs("x y z", 1)
    z2 = lambda b: z3.ZeroExt(1, b)
    one = [([], [], 2 * z2((x & y) | ((x ^ y) & z)) + z2((x ^ y) ^ z) == z2(x) + z2(y) + z2(z))]
    return one
def l_half():
    x, y = z3.BitVecs("x y", 1); z2 = lambda b: z3.ZeroExt(1, b)
    return [([], [], 2 * z2(x & y) + z2(x ^ y) == z2(x) + z2(y))]
def l_swar():
    """byte k of the folded word is the sum of the bits of byte k; the sum of bytes not above 8 is folded by the last steps"""
    x, w = z3.BitVecs("x w", 64); c = lambda v: z3.BitVecVal(v, 64)
    y = x - (z3.LShR(x, 1) & c(0x5555555555555555)); y = (y & c(0x3333333333333333)) + (z3.LShR(y, 2) & c(0x3333333333333333)); y = (y + z3.LShR(y, 4)) & c(0x0f0f0f0f0f0f0f0f)
    by = lambda v, k: z3.ZeroExt(24, z3.Extract(8 * k + 7, 8 * k, v))
    out = [([], [], And(by(y, k) == ptree(x, 8 * k, 8 * k + 8), z3.ULE(by(y, k), 8))) for k in range(8)]
    v = w + z3.LShR(w, 8); v = v + z3.LShR(v, 16); v = v + z3.LShR(v, 32)
    s = ((by(w, 0) + by(w, 1)) + (by(w, 2) + by(w, 3))) + ((by(w, 4) + by(w, 5)) + (by(w, 6) + by(w, 7)))
    out.append(([z3.ULE(by(w, k), 8) for k in range(8)], [], z3.Extract(31, 0, v) & 0x7f == s))
    return out
LEMMAS = [Lemma("doubling field widths counts the one bits", l_swar), Lemma("carry save keeps the bit count (per bit; summed over 64 bits)", l_csa), Lemma("half adder keeps the bit count (per bit; summed over 64 bits)", l_half)]
TUS = ["util/OpenBitSet.cpp", "util/OpenBitSetIterator.cpp", "util/BitUtil.cpp", "util/MiscUtils.cpp", "search/DocIdSetIterator.cpp"]
HARNESS = "c07.cpp"
SECS = 8
