"""C05: RAM files.  The file's buffers are rows of one two-dimensional byte region: position p of the
file is byte p%1024 of row p/1024 (row k is buffer number k, whose ByteArray is element k of RAMFile::buffers)."""
from .common import *
from engine.spec import lcoll, COLL
RO, RI, RF = "Lucene::RAMOutputStream", "Lucene::RAMInputStream", "Lucene::RAMFile"
IO = EXC("IO")
BSZ = 1024
MAXB = 1 << 30            # buffers in a file: 2^40 bytes
BVL = lambda n: z3.BitVecVal(n, 64)
def mkfile(b):
    f = b.obj("file", RF)
    nb = b.i64("num_buffers"); b.assume(nb >= 0, nb < MAXB)
    data = b.vc.new_arr(b.st, "data", 1, BVL(BSZ), keyed=True)
    hnd = b.array("buffer_handles", 16, nb); hnd.tags["idrows"] = {0: data}
    b.st.w(hnd)[(8, 4)] = z3.K(B64, z3.BitVecVal(BSZ, 32))
    vec = b.array("buffers", 24, nb); vec.tags["idrows"] = {0: hnd, 8: None, 16: hnd}
    b.vecobj = b.collection(b.sub(f, "buffers"), vec, nb)
    b.st.mem[vec]["n"] = nb
    f.reg.tags.update(data=data, hnd=hnd, vec=vec)
    b.inputs["length"] = Z(b.fld(f, "length"), 64)
    return f
def cb_init(b, o, cls):
    """currentBuffer is buffer number currentBufferIndex (no buffer at all while the index is -1)"""
    q = b.sub(o, "currentBuffer"); h = sptr(b, o, "file").reg.tags["hnd"]
    i = sx(Z(b.fld(o, "currentBufferIndex"), 32)); k = z3.BitVec("current_handle", 64)
    b.vc.store(b.st, q, PTR, Ptr(h, k)); b.vc.store(b.st, q.at(8), PTR, NULL); b.vc.store(b.st, q.at(16), PTR, Ptr(h, k))
def setup(cls, extra=lambda b: []):
    def f(b):
        o = b.obj("stream", cls); f_ = mkfile(b); b.set_sp(o, "file", f_); cb_init(b, o, cls)
        for n in ("currentBufferIndex", "bufferPosition", "bufferLength"): b.inputs[n] = Z(b.fld(o, n), 32)
        b.inputs["bufferStart"] = Z(b.fld(o, "bufferStart"), 64)
        return [o] + extra(b)
    return f
def fl(v, o): return sptr(v, o, "file")
def nbuf(v, f): return lcoll(v, f, "buffers")[2]
def flen(v, f): return Z(v.fld(f, "length"), 64)
def data(v, f): return v.vc.getarr(v.st, f.reg.tags["data"], 0, 1)
def row(v, o, q, j): return z3.Select(data(v, fl(v, o)), q, j)
def delta(c, e):
    """a name for e"""
    K = c.vc.__dict__.setdefault("_delta", z3.BitVec("delta", 64))
    if not any(x.eq(K == e) for x in c.st.pc): c.st.assume(K == e)
    return K
def FP(f):
    """for every position, given as row q and column j: f(position, q, j)"""
    return FA(lambda q, j: Imp(And(q >= 0, q < 2 * MAXB, j >= 0, j < BSZ), f(q * BSZ + j, q, j)), (64, 64))
def lin(c, v, o):
    """the file's contents by position: a definitional extension L[1024*q + j] == data[q, j]"""
    D = data(v, fl(v, o)); m = v.vc.__dict__.setdefault("_lin", {})
    if D.get_id() not in m:
        L = z3.Array(uniq("content"), B64, z3.BitVecSort(8))
        m[D.get_id()] = (L, D, FA(lambda q, j: Imp(And(q >= 0, q < 2 * MAXB, j >= 0, j < BSZ), L[q * BSZ + j] == z3.Select(D, q, j)), (64, 64), name="lin"))
    L, _, F = m[D.get_id()]
    if not any(x is F for x in c.st.facts): c.st.assume(F)
    return L
def st(v, o): return sx(Z(v.fld(o, "currentBufferIndex"), 32)), Z(v.fld(o, "bufferStart"), 64), sx(Z(v.fld(o, "bufferLength"), 32)), sx(Z(v.fld(o, "bufferPosition"), 32))
def pos(v, o): s = st(v, o); return s[1] + s[3]
def handle(v, o):
    p = v.vc.load(v.st, v.sub(o, "currentBuffer").at(16), PTR)
    return Z(p.idx, 64) if p.reg is not None else BVL(-1)
def n2(v, f): return Z(v.n(f.reg.tags["vec"]), 64), Z(v.n(f.reg.tags["hnd"]), 64)
def finv(v, f):
    n = nbuf(v, f)
    return [("buffer list", And(n >= 0, n < MAXB, n2(v, f)[0] == n, n2(v, f)[1] == n)), ("the length is within the buffers", And(flen(v, f) >= 0, flen(v, f) <= n * BSZ))]
def room(v, f, k): return ("room below 2^40 bytes", nbuf(v, f) + k < MAXB)
# ---------------------------------------------------------------- writer
def oinv(v, o):
    i, s, n, p = st(v, o); f = fl(v, o)
    return finv(v, f) + [("window", And(i >= -1, i < nbuf(v, f), p >= 0, p <= n)), ("no window yet", Imp(i < 0, And(s == 0, n == 0))), ("window start and size", Imp(i >= 0, And(s == i * BSZ, n == BSZ, handle(v, o) == i)))]
def wmods(c):
    o = c.this; f = fl(c, o); q = c.sub(o, "currentBuffer"); vo = c.vc.load(c.st, c.sub(f, "buffers").at(COLL), PTR); t = f.reg.tags
    return [loc(c, o, n) for n in ("currentBufferIndex", "bufferStart", "bufferLength", "bufferPosition")] + [(q.reg, q.off, 8), (q.reg, q.off + 8, 8), (q.reg, q.off + 16, 8), (t["data"], 0, 1),
            (vo.reg, 8, 8), (t["vec"], "n", 0), (t["hnd"], "n", 0), loc(c, f, "sizeInBytes")]
def lmods(c): f = fl(c, c.this); return [loc(c, f, "length"), loc(c, f, "lastModified")]
def add_apply(vc, st_, args, where=""):
    """assumed: appends one buffer of `size` bytes (contents arbitrary) and returns it"""
    out, f = args[0], args[1]
    vc.oblige(st_, Z(args[2], 32) == BSZ, "buffers have 1024 bytes", "pre", where)
    t = f.reg.tags; v = View(vc, st_)
    vo = vc.load(st_, v.sub(f, "buffers").at(COLL), PTR); e = vc.load(st_, vo.at(8), PTR)
    n = Z(e.idx, 64)
    vc.store(st_, vo.at(8), PTR, Ptr(t["vec"], simp(n + 1)))
    for r in (t["vec"], t["hnd"]):
        st_.w(r)["n"] = simp(n + 1)
        if st_.rec is not None: st_.rec.add((r, "n", 0))
    vc.store(st_, out, PTR, Ptr(t["hnd"], n)); vc.store(st_, out.at(8), PTR, NULL); vc.store(st_, out.at(16), PTR, Ptr(t["hnd"], n))
    return [(st_, "ret", None)]
add = Contract(RF + "::addBuffer", 1, assumed=True, apply=add_apply)
tm = Contract("Lucene::MiscUtils::currentTimeMillis", 0, assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("now"), 64), ensures=lambda c: [])
USE = [add.name, tm.name]
cs = []
def C(cls, fn, n, use=(), extra=lambda b: [], **k): cs.append(Contract(cls + "::" + fn, n, use=USE + list(use), setup=setup(cls, extra), **k)); return cs[-1]
def content(c, new=None, n=None, abs_=False):
    """bytes below the old capacity (and everything just written) as specified"""
    p0 = pos(c.old, c.this); o = c.this; lim = nbuf(c.old, fl(c.old, o)) * BSZ
    if new is None: return [("content", FP(lambda i, q, j: Imp(i < lim, row(c, o, q, j) == row(c.old, o, q, j))))]
    return [("bytes written", FP(lambda i, q, j: Imp(And(i >= p0, i < p0 + n), row(c, o, q, j) == new(i if abs_ else i - p0)))),
            ("other bytes kept", FP(lambda i, q, j: Imp(And(i < lim, z3.Not(And(i >= p0, i < p0 + n))), row(c, o, q, j) == row(c.old, o, q, j))))]
def kept(c): return ("the file's length field is kept", flen(c, fl(c, c.this)) == flen(c.old, fl(c.old, c.this)))
C(RO, "writeByte", 1, extra=lambda b: [b.bv("byte", 8)], requires=lambda c: oinv(c, c.this) + [room(c, fl(c, c.this), 1)], modifies=wmods,
  ensures=lambda c: content(c, lambda k: Z(c.a[1], 8), 1) + [("advances by one", pos(c, c.this) == pos(c.old, c.this) + 1), kept(c)] + oinv(c, c.this))
def src(b): return [Ptr(b.array("src", 1, b.i64("src_n"))), b.i32("offset"), b.i32("len")]
def blk(c): return c.arr(c.a[1].reg), sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32))
def wb_req(c):
    A, off, n = blk(c); N = Z(c.n(c.a[1].reg), 64)
    return oinv(c, c.this) + [room(c, fl(c, c.this), 2 + z3.LShR(n, 10)), ("block in bounds", And(n >= 0, off >= 0, N >= 0, N < (1 << 31), off + n <= N))]
def wb_ens(c):
    A, off, n = blk(c)
    return content(c, lambda i: A[i - delta(c, pos(c.old, c.this) - off)], n, True) + [("advances by the length", pos(c, c.this) == pos(c.old, c.this) + n), kept(c)] + oinv(c, c.this)
def wb_inv(c):
    a = c.cargs; o = a[0]; A, off, n = c.pre.arr(a[1].reg), sx(Z(a[2], 32)), sx(Z(a[3], 32)); p0 = pos(c.pre, o); lim = nbuf(c.pre, fl(c.pre, o)) * BSZ
    of, left = sx(Z(c.var("offset"), 32)), sx(Z(c.var("length"), 32)); k = of - off
    return [("progress", And(k >= 0, k <= n, left == n - k, pos(c, o) == p0 + k)), ("growth", And(nbuf(c, fl(c, o)) >= nbuf(c.pre, fl(c.pre, o)), nbuf(c, fl(c, o)) * BSZ <= z3.If(p0 + k + 1023 > lim, p0 + k + 1023, lim))),
            ("aligned", delta(c, p0 - off) == pos(c, o) - of), ("bytes written", FP(lambda i, q, j: Imp(And(i >= p0, i < pos(c, o)), row(c, o, q, j) == A[i - delta(c, p0 - off)]))), ("other bytes kept", FP(lambda i, q, j: Imp(And(i < lim, z3.Not(And(i >= p0, i < pos(c, o)))), row(c, o, q, j) == row(c.pre, o, q, j))))] + oinv(c, o)
C(RO, "writeBytes", 3, extra=src, requires=wb_req, modifies=wmods, ensures=wb_ens, loops=[LoopSpec(wb_inv, dec=lambda c: sx(Z(c.var("length"), 32)), name="buffer loop")])
hi = lambda c: z3.If(pos(c.old, c.this) > flen(c.old, fl(c.old, c.this)), pos(c.old, c.this), flen(c.old, fl(c.old, c.this)))
done = lambda c: ("the length is the highest position written", flen(c, fl(c, c.this)) == hi(c))
C(RO, "flush", 0, requires=lambda c: oinv(c, c.this), modifies=lmods, ensures=lambda c: [done(c)] + oinv(c, c.this))
C(RO, "close", 0, requires=lambda c: oinv(c, c.this), modifies=lmods, ensures=lambda c: [done(c)])
C(RO, "getFilePointer", 0, requires=lambda c: oinv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("position", Z(c.ret, 64) == pos(c, c.this))])
C(RO, "length", 0, requires=lambda c: oinv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("length", Z(c.ret, 64) == flen(c, fl(c, c.this)))])
C(RO, "seek", 1, extra=lambda b: [b.i64("target")], requires=lambda c: oinv(c, c.this) + [room(c, fl(c, c.this), 1), ("target within what was written", And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) <= z3.If(pos(c, c.this) > flen(c, fl(c, c.this)), pos(c, c.this), flen(c, fl(c, c.this)))))],
  modifies=lambda c: wmods(c) + lmods(c), ensures=lambda c: [done(c), ("at the target", pos(c, c.this) == Z(c.a[1], 64))] + content(c) + oinv(c, c.this))
C(RO, "reset", 0, requires=lambda c: oinv(c, c.this), modifies=lambda c: wmods(c) + lmods(c), ensures=lambda c: [("empty", And(flen(c, fl(c, c.this)) == 0, pos(c, c.this) == 0))] + oinv(c, c.this))
# writeTo: an abstract output collecting bytes
def out_ens(c):
    b, n = c.a[1], sx(Z(c.a[2], 32)); W, W0, p = c.ghost(c.this, "out"), c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen"); A = c.old.vc.getarr(c.old.st, b.reg, 0, 1)
    s = (lambda i: z3.Select(A, Z(b.key, 64), i)) if b.reg.keyed else (lambda i: A[i])
    from engine.models import aname
    return [FA(lambda i: W[i] == z3.If(And(i >= p, i < p + n), s(Z(b.idx, 64) + (i - p)), W0[i]), trig=[aname(W)]), c.ghost(c.this, "outlen") == p + n]
wout = Contract(OUT + "::writeBytes", 2, assumed=True, name="byte sink: writeBytes/2", requires=lambda c: [("block in bounds", And(sx(Z(c.a[2], 32)) >= 0, Z(c.a[1].idx, 64) >= 0, Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32)) <= BSZ))], modifies=lambda c: [(c.this.reg, "g:out", 0), (c.this.reg, "g:outlen", 0)], ensures=out_ens)
def wt_extra(b):
    m = b.obj("out", OUT, exact=False); b.setghost(m, "out", z3.Array("out0", B64, z3.BitVecSort(8))); b.setghost(m, "outlen", b.i64("outlen0")); b.assume(b.ghost(m, "outlen") >= 0, b.ghost(m, "outlen") < (1 << 60))
    b.outobj = m
    return [b.sp(m)]
def wo(c): return c.vc.load(c.st, c.cargs[1] if hasattr(c, "cargs") else c.a[1], PTR)
def wt_ens(c):
    m = wo(c.old_ctx) if hasattr(c, "old_ctx") else c.vc.load(c.old.st, c.a[1], PTR); W, W0, p0 = c.ghost(m, "out"), c.old.ghost(m, "out"), c.old.ghost(m, "outlen"); L = flen(c, fl(c, c.this))
    return [done(c), ("appends exactly the contents", FA(lambda i: Imp(And(i >= p0, i < p0 + L), W[i] == lin(c, c, c.this)[i - p0]))), ("and nothing else", c.ghost(m, "outlen") == p0 + L), ("earlier output kept", FA(lambda i: Imp(i < p0, W[i] == W0[i])))]
def wt_inv(c):
    o = c.cargs[0]; m = c.pre.vc.load(c.pre.st, c.cargs[1], PTR); f = fl(c, o); L = flen(c, f); W, W0, p0 = c.ghost(m, "out"), c.pre.ghost(m, "out"), c.pre.ghost(m, "outlen")
    p, k, e = Z(c.var("pos"), 64), sx(Z(c.var("buffer"), 32)), Z(c.var("end"), 64); q = z3.If(p < L, p, L)
    return [("buffer number", And(p == k * BSZ, k >= 0, k <= nbuf(c, f), e == L, p < L + BSZ)), ("copied so far", FA(lambda i: Imp(And(i >= p0, i < p0 + q), W[i] == lin(c, c, o)[i - p0]))), ("length so far", c.ghost(m, "outlen") == p0 + q), ("earlier output kept", FA(lambda i: Imp(i < p0, W[i] == W0[i])))]
C(RO, "writeTo", 1, use=[wout.name], extra=wt_extra, requires=lambda c: oinv(c, c.this), modifies=lambda c: lmods(c) + [(wo(c).reg, "g:out", 0), (wo(c).reg, "g:outlen", 0)], ensures=wt_ens, loops=[LoopSpec(wt_inv, dec=lambda c: Z(c.var("end"), 64) + BSZ - Z(c.var("pos"), 64), name="copy loop")])
# ---------------------------------------------------------------- reader
def ln(v, o): return Z(v.fld(o, "_length"), 64)
def iinv(v, o):
    i, s, n, p = st(v, o); f = fl(v, o); L = ln(v, o)
    return finv(v, f) + [("the stream's length is within the buffers", And(L >= 0, L <= nbuf(v, f) * BSZ)), ("window", And(i >= -1, i < (1 << 30), p >= 0, p <= BSZ)), ("no window yet", Imp(i < 0, And(s == 0, n == 0, p == 0))),
            ("window start and size", Imp(i >= 0, And(s == i * BSZ, n == z3.If(s >= L, BVL(0), z3.If(L - s > BSZ, BVL(BSZ), L - s)), Imp(n > 0, handle(v, o) == i))))]
def imods(c):
    o = c.this; q = c.sub(o, "currentBuffer")
    return [loc(c, o, n) for n in ("currentBufferIndex", "bufferStart", "bufferLength", "bufferPosition")] + [(q.reg, q.off, 8), (q.reg, q.off + 8, 8), (q.reg, q.off + 16, 8)]
past = lambda c, n: And(n > 0, pos(c, c.this) + n > ln(c, c.this))
C(RI, "readByte", 0, requires=lambda c: iinv(c, c.this), modifies=imods, raises=lambda c: [(IO, past(c, BVL(1)))],
  ensures=lambda c: [("byte", Z(c.ret, 8) == lin(c, c.old, c.this)[pos(c.old, c.this)]), ("advances by one", pos(c, c.this) == pos(c.old, c.this) + 1)] + iinv(c, c.this),
  ensures_exc=lambda c: [("position kept", pos(c, c.this) == pos(c.old, c.this))] + iinv(c, c.this))
def rb_req(c):
    A, off, n = blk(c); N = Z(c.n(c.a[1].reg), 64)
    return iinv(c, c.this) + [("target in bounds", And(n >= 0, off >= 0, N >= 0, N < (1 << 31), off + n <= N))]
def rb_ens(c):
    A, off, n = blk(c); A0 = c.old.arr(c.a[1].reg); p0 = pos(c.old, c.this)
    return [("block", FA(lambda k: Imp(And(k >= off, k < off + n), A[k] == lin(c, c.old, c.this)[k + delta(c, p0 - off)]))), ("rest of the target kept", FA(lambda k: Imp(z3.Not(And(k >= off, k < off + n)), A[k] == A0[k]))), ("advances by the length", pos(c, c.this) == p0 + n)] + iinv(c, c.this)
def rb_inv(c):
    a = c.cargs; o = a[0]; off, n = sx(Z(a[2], 32)), sx(Z(a[3], 32)); A, A0 = c.arr(a[1].reg), c.pre.arr(a[1].reg); p0 = pos(c.pre, o)
    of, left = sx(Z(c.var("offset"), 32)), sx(Z(c.var("length"), 32)); k = of - off
    return [("progress", And(k >= 0, k <= n, left == n - k, pos(c, o) == p0 + k)), ("within the file", Imp(k > 0, p0 + k <= ln(c, o))),
            ("aligned", delta(c, p0 - off) == pos(c, o) - of), ("block so far", FA(lambda j: Imp(And(j >= off, j < of), A[j] == lin(c, c.pre, o)[j + delta(c, p0 - off)]))), ("rest of the target kept", FA(lambda j: Imp(z3.Not(And(j >= off, j < off + k)), A[j] == A0[j])))] + iinv(c, o)
C(RI, "readBytes", 3, extra=src, requires=rb_req, modifies=lambda c: imods(c) + [(c.a[1].reg, 0, 1)], raises=lambda c: [(IO, past(c, blk(c)[2]))], ensures=rb_ens, ensures_exc=lambda c: iinv(c, c.this),
  loops=[LoopSpec(rb_inv, dec=lambda c: sx(Z(c.var("length"), 32)), name="buffer loop")])
C(RI, "seek", 1, extra=lambda b: [b.i64("target")], requires=lambda c: iinv(c, c.this) + [("target", And(Z(c.a[1], 64) >= 0, Z(c.a[1], 64) < (1 << 40)))], modifies=imods, ensures=lambda c: [("at the target", pos(c, c.this) == Z(c.a[1], 64))] + iinv(c, c.this))
C(RI, "getFilePointer", 0, requires=lambda c: iinv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("position", Z(c.ret, 64) == pos(c, c.this))])
C(RI, "length", 0, requires=lambda c: iinv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("length", Z(c.ret, 64) == ln(c, c.this))])
CONTRACTS = cs + [add, tm, wout]
TUS = ["store/RAMOutputStream.cpp", "store/RAMInputStream.cpp", "store/RAMFile.cpp", "store/IndexOutput.cpp", "store/IndexInput.cpp"]
HARNESS = "c05.cpp"
SECS = 10
ASSUMPTIONS = ["RAM files stay below 2^40 bytes", "RAMOutputStream::seek targets at most the length written (seeking back)"]
