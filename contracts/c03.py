"""C03: BufferedIndexInput over an abstract file (ghost: content F, length FL of the object)."""
from .common import *
from . import codec as c01
BI = "Lucene::BufferedIndexInput"
IO = EXC("IO")
def file(v, o): return v.ghost(o, "F"), v.ghost(o, "FL")
def setup(alloc, extra=lambda b: []):
    def f(b):
        o = b.obj("in", BI, exact=False)
        b.setghost(o, "F", z3.Array("file", B64, z3.BitVecSort(8))); b.setghost(o, "FL", b.i64("file_length"))
        if alloc:
            reg = b.array("buffer", 1, sx(Z(b.fld(o, "bufferSize"), 32)))
            b.lucene_array(b.sub(o, "buffer"), reg, b.fld(o, "bufferSize"))
            b.set(o, "__buffer", Ptr(reg))
        else:
            q = b.sub(o, "buffer")
            for k in (0, 8, 16): b.vc.store(b.st, q.at(k), PTR, NULL)
        for n in ("bufferSize", "bufferStart", "bufferLength", "bufferPosition"): b.inputs[n] = Z(b.fld(o, n), 64 if n == "bufferStart" else 32)
        return [o] + extra(b)
    return f
def st(v, o): return sx(Z(v.fld(o, "bufferSize"), 32)), Z(v.fld(o, "bufferStart"), 64), sx(Z(v.fld(o, "bufferLength"), 32)), sx(Z(v.fld(o, "bufferPosition"), 32))
def pos(v, o): s = st(v, o); return s[1] + s[3]
def buf(v, o):
    reg, n = larr(v, o, "buffer")
    return reg, (v.arr(reg) if reg is not None else None), sx(n)
def inv(v, o):
    bs, start, ln, p = st(v, o); F, FL = file(v, o); reg, B, n = buf(v, o)
    r = [("sizes", And(bs > 0, bs <= (1 << 30), FL >= 0, FL < (1 << 62), start >= 0, start < (1 << 62), p >= 0, p <= ln))]
    if reg is None: return r + [("nothing buffered", ln == 0)]
    bp = v.fld(o, "__buffer")
    return r + [("buffer is the raw buffer", isinstance(bp, Ptr) and bp.reg is reg and simpb(Z(bp.idx, 64) == 0)), ("buffer has the buffer size", n == bs), ("buffered bytes exist", And(ln <= bs, Imp(ln > 0, start + ln <= FL))),
                ("buffer holds the file's bytes", FA(lambda i: Imp(And(i >= 0, i < ln), B[i] == F[start + i])))]
def req(c): return inv(c, c.this)
FIELDS = ("bufferStart", "bufferLength", "bufferPosition")
def mods(c):
    o = c.this; q = c.sub(o, "buffer")
    r = [loc(c, o, n) for n in FIELDS] + [(q.reg, q.off + k, 8) for k in (0, 8, 16)] + [loc(c, o, "__buffer")]
    reg = buf(c, o)[0]
    return r + ([(reg, 0, 1)] if reg is not None else [])
# ---- assumed: what a subclass supplies
def rint_req(c):
    F, FL = file(c, c.this); n = sx(Z(c.a[3], 32)); off = Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32)); p = pos(c, c.this)
    return [("block lies inside the file", And(n >= 0, p >= 0, p + n <= FL)), ("target in bounds", And(off >= 0, off + n <= Z(c.n(c.a[1].reg), 64)) if c.a[1].reg is not None else n == 0)]
def rint_ens(c):
    F, FL = file(c.old, c.this); n = sx(Z(c.a[3], 32)); off = Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32)); p = pos(c.old, c.this)
    if c.a[1].reg is None: return []
    A, A0 = c.arr(c.a[1].reg), c.old.arr(c.a[1].reg)
    from engine.models import aname
    return [FA(lambda j: A[j] == z3.If(And(j >= off, j < off + n), F[p + (j - off)], A0[j]), trig=[aname(A)])]
readInternal = Contract(BI + "::readInternal", 3, assumed=True, requires=rint_req, modifies=lambda c: [(c.a[1].reg, 0, 1)] if c.a[1].reg is not None else [], ensures=rint_ens)
seekInternal = Contract(BI + "::seekInternal", 1, assumed=True, modifies=lambda c: [], ensures=lambda c: [])
length = Contract("Lucene::IndexInput::length", 0, assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("len"), 64), ensures=lambda c: [Z(c.ret, 64) == file(c, c.this)[1]])
length2 = Contract(BI + "::length", 0, assumed=True, modifies=lambda c: [], ret=length.ret, ensures=length.ensures)
ASSUME = ["Lucene::IndexInput::length", BI + "::length", BI + "::readInternal", BI + "::seekInternal"]
cs = []
def C(fn, nparams, extra=lambda b: [], alts=(True, False), use=(), **k):
    c = Contract(BI + "::" + fn, nparams, setup=None, use=ASSUME + list(use), **k)
    c.alts = [setup(x, extra) for x in alts]
    cs.append(c); return c
# readByte / refill / position / seek
def e_readByte(c):
    F, FL = file(c.old, c.this); p = pos(c.old, c.this)
    return [("the byte at the position", Z(c.ret, 8) == F[p]), ("advances by one", pos(c, c.this) == p + 1)] + inv(c, c.this)
C("readByte", 0, requires=req, modifies=mods, raises=lambda c: [(IO, pos(c, c.this) >= file(c, c.this)[1])], ensures=e_readByte)
# once a buffer exists it is kept: the form used by readVInt
C("readByte", 0, alts=(True,), name=BI + "::readByte/buffered", requires=req, modifies=lambda c: [loc(c, c.this, n) for n in FIELDS] + [(buf(c, c.this)[0], 0, 1)], ret=lambda c: z3.BitVec(uniq("rb"), 8),
  raises=lambda c: [(IO, pos(c, c.this) >= file(c, c.this)[1])], ensures=e_readByte, when=lambda c: buf(c, c.this)[0] is not None)
def e_refill(c):
    bs, start, ln, p = st(c, c.this); F, FL = file(c, c.this); p0 = pos(c.old, c.this)
    return [("position unchanged", start + p == p0), ("as much as fits", And(p == 0, ln == z3.If(FL - p0 < bs, FL - p0, bs)))] + inv(c, c.this)
C("refill", 0, requires=req, modifies=mods, raises=lambda c: [(IO, pos(c, c.this) >= file(c, c.this)[1])], ensures=e_refill)
C("getFilePointer", 0, requires=req, modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 64) == pos(c, c.this)])
C("seek", 1, extra=lambda b: [b.i64("pos")], requires=lambda c: req(c) + [And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) < (1 << 62))], modifies=mods, ensures=lambda c: [("at the target", pos(c, c.this) == Z(c.a[1], 64))] + inv(c, c.this))
C("close", 0, requires=req, modifies=mods, ensures=lambda c: [pos(c, c.this) == 0])
# readBytes
def dest(b):
    r = b.array("dest", 1, b.i64("dest_n"))
    return [Ptr(r), b.i32("offset"), b.i32("length")]
def rb_req(c):
    n = sx(Z(c.a[3], 32)); off = sx(Z(c.a[2], 32)); N = Z(c.n(c.a[1].reg), 64)
    return req(c) + [("destination holds the block", And(n >= 0, off >= 0, N >= 0, N < (1 << 31), off + n <= N))]
def e_readBytes(c):
    F, FL = file(c.old, c.this); p = pos(c.old, c.this); n = sx(Z(c.a[3], 32)); off = sx(Z(c.a[2], 32)); D, D0 = c.arr(c.a[1].reg), c.old.arr(c.a[1].reg)
    return [("the file's bytes at the position", FA(lambda k: Imp(And(k >= 0, k < n), D[off + k] == F[p + k]))), ("nothing else touched", FA(lambda j: Imp(Or(j < off, j >= off + n), D[j] == D0[j]))),
            ("advances by the length", pos(c, c.this) == p + n)] + inv(c, c.this)
rb_raise = lambda c: [(IO, And(sx(Z(c.a[3], 32)) > 0, pos(c, c.this) + sx(Z(c.a[3], 32)) > file(c, c.this)[1]))]
rb_raise2 = lambda c: [(IO, And(pos(c, c.this) + sx(Z(c.a[3], 32)) > file(c, c.this)[1], sx(Z(c.a[3], 32)) > st(c, c.this)[2] - st(c, c.this)[3]))]
rb_mods = lambda c: mods(c) + [(c.a[1].reg, 0, 1)]
C("readBytes", 4, extra=lambda b: dest(b) + [b.bool("useBuffer")], requires=rb_req, modifies=rb_mods, raises=rb_raise2, ensures=e_readBytes, name=BI + "::readBytes/4", timeout=20000, rounds=3)
C("readBytes", 3, extra=dest, requires=rb_req, modifies=rb_mods, raises=rb_raise2, ensures=e_readBytes, name=BI + "::readBytes/3", timeout=20000, rounds=3)
C("setBufferSize", 1, extra=lambda b: [b.i32("newSize")], requires=lambda c: req(c) + [Z(c.a[1], 32) > 0, Z(c.a[1], 32) <= (1 << 30)], modifies=lambda c: mods(c) + [loc(c, c.this, "bufferSize")],
  ensures=lambda c: [("position unchanged", pos(c, c.this) == pos(c.old, c.this)), ("new size", Z(c.fld(c.this, "bufferSize"), 32) == Z(c.a[1], 32))] + inv(c, c.this))
C("getBufferSize", 0, requires=req, modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 32) == Z(c.fld(c.this, "bufferSize"), 32)])
# variable-length reads, both the in-buffer fast path and the general path
def enc(F, p, x): return c01.enc_at(F, p, x, 32)
def vi_setup(b): b.x = b.i32("x"); return []
def vi_req(c):
    x = c.vc.builder_x if False else z3.BitVec("x", 32); F, FL = file(c, c.this); p = pos(c, c.this)
    return req(c) + [("a value is encoded here", enc(F, p, x)), ("all of it", p + c01.vlen(x, 32) <= FL)]
C("readVInt", 0, extra=vi_setup, use=[BI + "::readByte/buffered"], maxunroll=5, feas=3, requires=vi_req, modifies=mods, ensures=lambda c: [("the value encoded", Z(c.ret, 32) == z3.BitVec("x", 32)), ("advances by its encoding", pos(c, c.this) == pos(c.old, c.this) + c01.vlen(z3.BitVec("x", 32), 32))] + inv(c, c.this))
CONTRACTS = cs + [readInternal, seekInternal, length, length2]
TUS = ["store/BufferedIndexInput.cpp", "store/IndexInput.cpp"]
HARNESS = "c03.cpp"
SECS = 10
