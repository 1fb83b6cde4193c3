"""C18: SortedVIntList."""
from .common import *
from .codec import vlen, vbyte
SV, IT = "Lucene::SortedVIntList", "Lucene::SortedDocIdSetIterator"
EXC_IA = EXC("IllegalArgument")
MAXB = 1 << 29
VS, SS = B64, B64
def bits(v, o): return larr(v, o, "bytes")
def st_(v, o):
    reg, n = bits(v, o)
    return dict(A=v.arr(reg), n=sx(n), size=sx(Z(v.fld(o, "_size"), 32)), last=sx(Z(v.fld(o, "lastBytePos"), 32)), lastInt=Z(v.fld(o, "lastInt"), 32), reg=reg)
VL = z3.Function("vlen32", z3.BitVecSort(32), B64)
VB = [z3.Function("vbyte32_%d" % k, z3.BitVecSort(32), z3.BitVecSort(8)) for k in range(5)]
def vdef(d):
    """definition of VL and VB at d"""
    return And([VL(d) == vlen(d, 32)] + [VB[k](d) == vbyte(d, k, 32) for k in range(5)])
def bound(d): return And(VL(d) >= 1, VL(d) <= 5)       # follows from the definition (lemma below)
def bits(v, o): return larr(v, o, "bytes")
def st_(v, o):
    reg, n = bits(v, o)
    return dict(A=v.arr(reg), n=sx(n), size=sx(Z(v.fld(o, "_size"), 32)), last=sx(Z(v.fld(o, "lastBytePos"), 32)), lastInt=Z(v.fld(o, "lastInt"), 32), reg=reg)
VL = z3.Function("vlen32", z3.BitVecSort(32), B64)
VB = [z3.Function("vbyte32_%d" % k, z3.BitVecSort(32), z3.BitVecSort(8)) for k in range(5)]
def vdef(d):
    """definition of VL and VB at d"""
    return And([VL(d) == vlen(d, 32)] + [VB[k](d) == vbyte(d, k, 32) for k in range(5)])
def bound(d): return And(VL(d) >= 1, VL(d) <= 5)       # follows from the definition (lemma below)
def enc_at(A, p, d):
    """the bytes of A at p are the variable-length encoding of the 32-bit d"""
    return And([bound(d)] + [Or(VL(d) <= k, A[p + k] == VB[k](d)) for k in range(5)])
def inv(v, o, V=None, S=None):
    s = st_(v, o)
    V = v.ghost(o, "V") if V is None else V
    S = v.ghost(o, "S") if S is None else S
    d = lambda i: z3.Extract(31, 0, V[i + 1] - V[i])
    N = s["size"]
    return [("sizes", And(N >= 0, N <= s["last"], s["last"] < MAXB, s["last"] <= s["n"], s["n"] <= 2 * s["last"] + 133)),
            ("first and last", And(V[0] == 0, S[0] == 0, V[N] == sx(s["lastInt"]), S[N] == s["last"], s["lastInt"] >= 0)),
            ("values do not decrease", FA(lambda i: Imp(rng(i, 0, N), And(V[i] >= 0, V[i + 1] >= V[i], V[i + 1] < B31)), name="ord")),
            ("gaps follow each other", FA(lambda i: Imp(rng(i, 0, N), And(S[i] >= 0, bound(d(i)), S[i + 1] == S[i] + VL(d(i)), S[i + 1] <= s["last"])), name="pos")),
            ] + [("each gap is encoded, byte %d" % k, FA(lambda i, k=k: Imp(rng(i, 0, N), And(bound(d(i)), Or(VL(d(i)) <= k, s["A"][S[i] + k] == VB[k](d(i))))), name="enc%d" % k)) for k in range(5)]
def mklist(b):
    o = b.obj("list", SV)
    nb = z3.BitVec("nbytes", 32)
    reg = b.array("bytes", 1, sx(nb)); b.lucene_array(b.sub(o, "bytes"), reg, nb)
    b.setghost(o, "V", z3.Array("V", B64, B64)); b.setghost(o, "S", z3.Array("S", B64, B64))
    for f in ("_size", "lastInt", "lastBytePos"): b.inputs[f] = Z(b.fld(o, f), 32)
    return o
cs = []
def C(fn, *a, **k): cs.append(Contract(fn, *a, **k)); return cs[-1]
ret32 = lambda c: z3.BitVec(uniq("r"), 32)
def loc3(c, o):
    q = c.sub(c.this, "bytes"); return (q.reg, q.off + o, 8)
# ---- adding
def r_add(c):
    return inv(c, c.this) + [("fewer than 2^29 bytes so far", st_(c, c.this)["last"] < MAXB - 5)]
def x_add(c): return [(EXC_IA, Z(c.a[1], 32) < Z(c.fld(c.this, "lastInt"), 32))]
def e_add(c):
    o = c.old; s0, s1 = st_(o, c.this), st_(c, c.this); v = Z(c.a[1], 32)
    V = z3.Store(o.ghost(c.this, "V"), s0["size"] + 1, sx(v)); S = z3.Store(o.ghost(c.this, "S"), s0["size"] + 1, s1["last"])
    if not c.call: c.st.assume(vdef(v - s0["lastInt"]))
    out = [("one more", s1["size"] == s0["size"] + 1), ("last value", s1["lastInt"] == v)]
    if c.call: return out + [c.ghost(c.this, "V") == V, c.ghost(c.this, "S") == S] + inv(c, c.this)
    d = v - s0["lastInt"]
    return out + [("cut:earlier bytes unchanged", FA(lambda j: Imp(rng(j, 0, s0["last"]), s1["A"][j] == s0["A"][j]))),
                  ("cut:length of the new gap", And(bound(d), s1["last"] == s0["last"] + VL(d)))] + [("cut:new gap, byte %d" % k, Or(VL(d) <= k, s1["A"][s0["last"] + k] == VB[k](d))) for k in range(5)] + inv(c, c.this, V, S)
def m_add(c):
    out = [loc(c, c.this, f) for f in ("_size", "lastInt", "lastBytePos")]
    if c.call: out += [(c.this.reg, "g:V", 0), (c.this.reg, "g:S", 0)]
    return out
C(SV + "::addInt", 1, setup=lambda b: [mklist(b), b.i32("nextInt")], requires=r_add, raises=x_add, ensures=e_add, maxunroll=8, rounds=1)
# ---- iterating
def lst(v, it): return v.vc.load(v.st, v.sub(it, "_list"), PTR)
def it_inv(v, it, k):
    l = lst(v, it); V, S = v.ghost(l, "V"), v.ghost(l, "S")
    return [("iterator stands after k values", And(k >= 0, k <= st_(v, l)["size"], sx(Z(v.fld(it, "bytePos"), 32)) == S[k], sx(Z(v.fld(it, "lastInt"), 32)) == V[k]))]
def mkit(*ps):
    def f(b):
        l = mklist(b); it = b.obj("it", IT); b.set_sp(it, "_list", l); b.setghost(it, "k", z3.BitVec("k", 64))
        return [it] + [b.i32(p) for p in ps]
    return f
def r_it(c): return inv(c, lst(c, c.this)) + it_inv(c, c.this, c.ghost(c.this, "k"))
def m_it(c): return [loc(c, c.this, "bytePos"), loc(c, c.this, "lastInt")] + ([(c.this.reg, "g:k", 0)] if c.call else [])
def m_itd(c): return m_it(c) + [loc(c, c.this, "doc")]
def k1(c): return c.ghost(c.this, "k") if c.call else None
def e_step(c):
    k = c.old.ghost(c.this, "k")
    return ([c.ghost(c.this, "k") == k + 1] if c.call else []) + it_inv(c, c.this, k + 1)
def r_step(c):
    l = lst(c, c.this); V = c.ghost(l, "V"); k = c.ghost(c.this, "k")
    if not c.call: c.st.assume(vdef(z3.Extract(31, 0, V[k + 1] - V[k])))
    return r_it(c) + [("a value is left", c.ghost(c.this, "k") < st_(c, lst(c, c.this))["size"])]
C(IT + "::advance", 0, setup=mkit(), requires=r_step, modifies=m_it, ensures=e_step, name="SortedDocIdSetIterator::advance()", maxunroll=8, rounds=1)
NOMORE = 0x7fffffff
def e_next(c):
    l = lst(c, c.this); V = c.ghost(l, "V"); k = c.old.ghost(c.this, "k"); N = st_(c, l)["size"]
    return [("next value, in order", Z(c.ret, 32) == z3.If(k < N, z3.Extract(31, 0, V[k + 1]), NOMORE)), ("docID agrees", Z(c.fld(c.this, "doc"), 32) == Z(c.ret, 32))] + it_inv(c, c.this, z3.If(k < N, k + 1, k))
C(IT + "::nextDoc", 0, setup=mkit(), requires=r_it, modifies=lambda c: m_itd(c) + [(c.this.reg, "g:k", 0)], ensures=e_next, ret=ret32)
def adv_inv(c):
    it = c.cargs[0]; l = lst(c, it); V = c.ghost(l, "V"); k0 = c.pre.ghost(it, "k"); k = c.ghost(it, "k"); t = sx(Z(c.cargs[1], 32))
    return it_inv(c, it, k) + [("passed values are below the target", And(k >= k0, Or(k == k0, V[k] < t)))]
def e_adv(c):
    it = c.this; l = lst(c, it); V = c.ghost(l, "V"); k0 = c.old.ghost(it, "k"); k = c.ghost(it, "k"); t = sx(Z(c.a[1], 32)); N = st_(c, l)["size"]; r = sx(Z(c.ret, 32))
    found = And(k > k0, V[k] >= t, r == V[k], Or(k == k0 + 1, V[k - 1] < t))
    return [("first value at or after the target beyond the position", Or(found, And(r == NOMORE, k == N, Or(k == k0, V[k] < t)))), ("docID agrees", Z(c.fld(it, "doc"), 32) == Z(c.ret, 32))] + it_inv(c, it, k)
C(IT + "::advance", 1, setup=mkit("target"), requires=r_it, modifies=lambda c: m_itd(c) + [(c.this.reg, "g:k", 0)], ensures=e_adv, ret=ret32, name="SortedDocIdSetIterator::advance(target)",
  loops=[LoopSpec(adv_inv, dec=lambda c: st_(c, lst(c, c.cargs[0]))["size"] - c.ghost(c.cargs[0], "k"), name="advance loop")])
C(IT + "::docID", 0, setup=mkit(), modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 32) == Z(c.fld(c.this, "doc"), 32)], ret=ret32)
C(SV + "::size", 0, setup=lambda b: [mklist(b)], modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 32) == Z(c.fld(c.this, "_size"), 32)], ret=ret32)
from check import Lemma
LEMMAS = [Lemma("length of a variable-length gap is 1 to 5", lambda: [([vdef(z3.BitVec("d", 32))], [], bound(z3.BitVec("d", 32)))])]
CONTRACTS = cs
TUS = ["util/SortedVIntList.cpp", "search/DocIdSetIterator.cpp"]
HARNESS = "c18.cpp"
SECS = 6
