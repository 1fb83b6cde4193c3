"""primitive codec of IndexOutput/IndexInput."""
from engine.spec import *
OUT, IN = "Lucene::IndexOutput", "Lucene::IndexInput"

def vlen(v, w):
    """number of bytes of the variable-length encoding of the unsigned w-bit v"""
    n = z3.BitVecVal(1, 64)
    k = 7
    i = 2
    while k < w:
        n = z3.If(z3.LShR(v, k) != 0, z3.BitVecVal(i, 64), n)
        k += 7; i += 1
    return n
def vbyte(v, k, w):
    """k-th byte (python int k)"""
    low = z3.Extract(7, 0, z3.LShR(v, 7 * k) & 0x7f)
    more = z3.LShR(v, 7 * (k + 1)) != 0 if 7 * (k + 1) < w else z3.BoolVal(False)
    return z3.If(more, low | 0x80, low)
def vmax(w): return (w + 6) // 7

def setup_out(b):
    o = b.obj("out", OUT, exact=False)
    b.setghost(o, "out", z3.Array("out0", B64, z3.BitVecSort(8))); b.setghost(o, "outlen", z3.BitVec("outlen0", 64))
    return o
def setup_in(b):
    o = b.obj("in", IN, exact=False)
    b.setghost(o, "in", z3.Array("in0", B64, z3.BitVecSort(8))); b.setghost(o, "inpos", z3.BitVec("inpos0", 64))
    return o
def m_out(c): return [(c.this.reg, "g:out", 0), (c.this.reg, "g:outlen", 0)]
def m_in(c): return [(c.this.reg, "g:inpos", 0)]

writeByte = Contract(OUT + "::writeByte", 1, assumed=True, modifies=m_out, ensures=lambda c: [
    ("appends the byte", c.ghost(c.this, "out") == z3.Store(c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen"), Z(c.a[1], 8))),
    ("advances by one", c.ghost(c.this, "outlen") == c.old.ghost(c.this, "outlen") + 1)])
readByte = Contract(IN + "::readByte", 0, assumed=True, modifies=m_in, ret=lambda c: z3.BitVec(uniq("rb"), 8), ensures=lambda c: [
    ("returns the next byte", Z(c.ret, 8) == z3.Select(c.old.ghost(c.this, "in"), c.old.ghost(c.this, "inpos"))),
    ("advances by one", c.ghost(c.this, "inpos") == c.old.ghost(c.this, "inpos") + 1)])

def appended(c, bytes_):
    o, p = c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen")
    e = o
    for k, x in enumerate(bytes_): e = z3.Store(e, p + k, x)
    return [("bytes written", c.ghost(c.this, "out") == e), ("length", c.ghost(c.this, "outlen") == p + len(bytes_))]
def be(v, n): return [z3.Extract(8 * (n - 1 - k) + 7, 8 * (n - 1 - k), v) for k in range(n)]

def w_fixed(name, w):
    return Contract(OUT + "::" + name, 1, setup=lambda b: [setup_out(b), b.bv("value", w)], modifies=m_out, ensures=lambda c: appended(c, be(Z(c.a[1], w), w // 8)))
def r_fixed(name, w):
    def ens(c):
        a, p = c.old.ghost(c.this, "in"), c.old.ghost(c.this, "inpos")
        return [("value", Z(c.ret, w) == z3.Concat(*[a[p + k] for k in range(w // 8)])), ("advance", c.ghost(c.this, "inpos") == p + w // 8)]
    return Contract(IN + "::" + name, 0, setup=lambda b: [setup_in(b)], modifies=m_in, ret=lambda c: z3.BitVec(uniq(name), w), ensures=ens)
def w_var(name, w):
    def ens(c):
        v = Z(c.a[1], w); o, p, o2 = c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen"), c.ghost(c.this, "out")
        L = vlen(v, w)
        return [("length", c.ghost(c.this, "outlen") == p + L)] + \
            [("byte %d" % k, Imp(z3.UGT(L, k), o2[p + k] == vbyte(v, k, w))) for k in range(vmax(w))] + \
            [("other bytes untouched", FA(lambda i: Imp(z3.UGE(i - p, L), o2[i] == o[i])))]
    return Contract(OUT + "::" + name, 1, setup=lambda b: [setup_out(b), b.bv("value", w)], modifies=m_out, ensures=ens)
def enc_at(a, p, x, w):
    L = vlen(x, w)
    return And([Imp(z3.UGT(L, k), a[p + k] == vbyte(x, k, w)) for k in range(vmax(w))])
def r_var(name, w, cls=IN):
    def setup(b):
        i = setup_in(b)
        b.x = b.bv("x", w)      # the value some writer encoded at the current position
        b.assume(enc_at(b.ghost(i, "in"), b.ghost(i, "inpos"), b.x, w))
        return [i]
    def ens(c):
        a, p = c.old.ghost(c.this, "in"), c.old.ghost(c.this, "inpos")
        if not c.call:
            x = c.vc.builder.x
            return [("value", Z(c.ret, w) == x), ("advance", c.ghost(c.this, "inpos") == p + vlen(x, w))]
        return [("decodes", FA(lambda x: Imp(enc_at(a, p, x, w), And(Z(c.ret, w) == x, c.ghost(c.this, "inpos") == p + vlen(x, w))), (w,)))]
    return Contract(cls + "::" + name, 0, setup=setup, modifies=m_in, ret=lambda c: z3.BitVec(uniq(name), w), ensures=ens)
CONTRACTS = [writeByte, readByte, w_fixed("writeInt", 32), w_fixed("writeLong", 64), r_fixed("readInt", 32), r_fixed("readLong", 64),
             w_var("writeVInt", 32), w_var("writeVLong", 64), r_var("readVInt", 32), r_var("readVLong", 64)]
TUS = ["store/IndexOutput.cpp", "store/IndexInput.cpp"]
