"""C04: BufferedIndexOutput over an abstract file (ghost W: bytes on file, pp: the file's own position),
SimpleFSIndexOutput, and the checksumming wrappers."""
from .common import *
BO, SO, CO, CI = "Lucene::BufferedIndexOutput", "Lucene::SimpleFSIndexOutput", "Lucene::ChecksumIndexOutput", "Lucene::ChecksumIndexInput"
BS = 16384
def setup(extra=lambda b: [], cls=BO):
    def f(b):
        o = b.obj("out", cls, exact=False)
        if cls == BO: b.setghost(o, "W", z3.Array("file", B64, z3.BitVecSort(8))); b.setghost(o, "pp", b.i64("file_position"))
        reg = b.array("buffer", 1, z3.BitVecVal(BS, 64)); b.lucene_array(b.sub(o, "buffer"), reg, z3.BitVecVal(BS, 32))
        b.inputs["bufferPosition"] = Z(b.fld(o, "bufferPosition"), 32); b.inputs["bufferStart"] = Z(b.fld(o, "bufferStart"), 64)
        return [o] + extra(b)
    return f
def buf(v, o): return larr(v, o, "buffer")[0]
def fo(v, o): return sptr(v, o, "file") if o.reg.cls == SO else o
def st(v, o): return Z(v.fld(o, "bufferStart"), 64), sx(Z(v.fld(o, "bufferPosition"), 32)), v.arr(buf(v, o)), v.ghost(fo(v, o), "W"), v.ghost(fo(v, o), "pp")
def pos(v, o): s = st(v, o); return s[0] + s[1]
def at(v, o, i):
    """logical content: what the file holds once flushed"""
    start, bp, B, W, pp = st(v, o)
    return z3.If(And(i >= start, i < start + bp), B[i - start], W[i])
def inv(v, o):
    start, bp, B, W, pp = st(v, o)
    return [("buffer state", And(start >= 0, bp >= 0, bp <= BS, larr(v, o, "buffer")[1] == BS)), ("the file stands where the buffer starts", pp == start)]
def req(c): return inv(c, c.this) + [("file below 2^61 bytes", st(c, c.this)[0] < (1 << 61))]
def mods(c): o = c.this; return [loc(c, o, "bufferStart"), loc(c, o, "bufferPosition"), (buf(c, o), 0, 1), (fo(c, o).reg, "g:W", 0), (fo(c, o).reg, "g:pp", 0)]
def same(c, new=None, upto=None):
    """logical content is as before except new(i) on [pos0, pos0+upto)"""
    p0 = pos(c.old, c.this)
    return [("content", FA(lambda i: Imp(i >= 0, at(c, c.this, i) == (z3.If(And(i >= p0, i < p0 + upto), new(i - p0), at(c.old, c.this, i)) if new else at(c.old, c.this, i)))))]
# ---- assumed: the subclass's flushBuffer appends the block at the file's position
def fb_req(c):
    b, off, n = c.a[1], (sx(Z(c.a[2], 32)) if len(c.a) == 4 else z3.BitVecVal(0, 64)), sx(Z(c.a[-1], 32))
    return [("block in bounds", And(n >= 0, Z(b.idx, 64) + off >= 0, Z(b.idx, 64) + off + n <= Z(c.n(b.reg), 64)))]
def fb_ens(c):
    b, off, n = c.a[1], (sx(Z(c.a[2], 32)) if len(c.a) == 4 else z3.BitVecVal(0, 64)), sx(Z(c.a[-1], 32))
    A, W, W0, pp0 = c.old.arr(b.reg), c.ghost(c.this, "W"), c.old.ghost(c.this, "W"), c.old.ghost(c.this, "pp"); base = Z(b.idx, 64) + off
    from engine.models import aname
    return [FA(lambda i: W[i] == z3.If(And(i >= pp0, i < pp0 + n), A[base + (i - pp0)], W0[i]), trig=[aname(W)]), c.ghost(c.this, "pp") == pp0 + n]
fb = Contract(BO + "::flushBuffer", 3, assumed=True, requires=fb_req, modifies=lambda c: [(c.this.reg, "g:W", 0), (c.this.reg, "g:pp", 0)], ensures=fb_ens)
cs = []
def C(cls, fn, n, use=(BO + "::flushBuffer",), **k): cs.append(Contract(cls + "::" + fn, n, use=list(use), **k)); return cs[-1]
C(BO, "writeByte", 1, setup=setup(lambda b: [b.bv("byte", 8)]), requires=req, modifies=mods, ensures=lambda c: same(c, lambda k: Z(c.a[1], 8), 1) + [("advances by one", pos(c, c.this) == pos(c.old, c.this) + 1)] + inv(c, c.this))
C(BO, "flush", 0, setup=setup(), requires=req, modifies=mods, ensures=lambda c: same(c) + [("all on file", And(pos(c, c.this) == pos(c.old, c.this), st(c, c.this)[1] == 0))] + inv(c, c.this))
C(BO, "close", 0, setup=setup(), requires=req, modifies=mods, ensures=lambda c: same(c) + [("all on file", st(c, c.this)[1] == 0)])
C(BO, "getFilePointer", 0, setup=setup(), requires=req, modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 64) == pos(c, c.this)])
C(BO, "seek", 1, setup=setup(lambda b: [b.i64("target")]), requires=req, modifies=mods, ensures=lambda c: same(c) + [("all on file", st(c, c.this)[1] == 0), ("at the target", pos(c, c.this) == Z(c.a[1], 64))])
def src(b): return [Ptr(b.array("src", 1, b.i64("src_n"))), b.i32("offset"), b.i32("length")]
def wb(c): return c.arr(c.a[1].reg), sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32))
def wb_req(c):
    A, off, n = wb(c); N = Z(c.n(c.a[1].reg), 64)
    return req(c) + [("block in bounds", And(n >= 0, off >= 0, N >= 0, N < (1 << 31), off + n <= N))]
def wb_ens(c):
    A, off, n = wb(c)
    return same(c, lambda k: A[off + k], n) + [("advances by the length", pos(c, c.this) == pos(c.old, c.this) + n)] + inv(c, c.this)
def wb_inv(c):
    a = c.cargs; o = a[0]; A, off, n = c.pre.arr(a[1].reg), sx(Z(a[2], 32)), sx(Z(a[3], 32)); p, left = sx(Z(c.var("pos"), 32)), sx(Z(c.var("bytesLeft"), 32)); s = st(c, o); p0 = pos(c.pre, o)
    return [("piece", And(p >= 0, p <= n, left == BS - s[1], left >= 0, pos(c, o) == p0 + p)),
            ("content so far", FA(lambda i: Imp(i >= 0, at(c, o, i) == z3.If(And(i >= p0, i < p0 + p), A[off + (i - p0)], at(c.pre, o, i)))))] + inv(c, o)
C(BO, "writeBytes", 3, setup=setup(src), requires=wb_req, modifies=mods, ensures=wb_ens, loops=[LoopSpec(wb_inv, dec=lambda c: 2 * (sx(Z(c.cargs[3], 32)) - sx(Z(c.var("pos"), 32))) + z3.If(Z(c.var("bytesLeft"), 32) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), name="fill/flush loop")], rounds=3)
# ---- SimpleFSIndexOutput over OutputFile
def so_setup(extra=lambda b: []):
    def f(b):
        a = setup(extra, SO)(b); o = a[0]
        fo = b.obj("file", "Lucene::OutputFile"); b.set_sp(o, "file", fo)
        b.setghost(fo, "W", z3.Array("file", B64, z3.BitVecSort(8))); b.setghost(fo, "pp", b.i64("file_position"))
        return a
    return f
OF = "Lucene::OutputFile"
ofw = Contract(OF + "::write", 3, assumed=True, requires=fb_req, modifies=lambda c: [(c.this.reg, "g:W", 0), (c.this.reg, "g:pp", 0)], ensures=fb_ens, ret=lambda c: z3.BoolVal(True))
off_ = Contract(OF + "::flush", 0, assumed=True, modifies=lambda c: [], ensures=lambda c: [])
ofs = Contract(OF + "::setPosition", 1, assumed=True, modifies=lambda c: [(c.this.reg, "g:pp", 0)], ensures=lambda c: [c.ghost(c.this, "pp") == Z(c.a[1], 64)])
def fobj(c): return sptr(c, c.this, "file")
class Sub:
    """view of SimpleFSIndexOutput::flushBuffer's effect on its file"""
def so_fb_ens(c):
    f = fobj(c); b, o, n = c.a[1], sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32)); A, W, W0, pp0 = c.old.arr(b.reg), c.ghost(f, "W"), c.old.ghost(f, "W"), c.old.ghost(f, "pp")
    return [("the block is on file, nothing else changed", FA(lambda i: W[i] == z3.If(And(i >= pp0, i < pp0 + n), A[Z(b.idx, 64) + o + (i - pp0)], W0[i]))), ("the file advanced", c.ghost(f, "pp") == pp0 + n)]
C(SO, "flushBuffer", 3, use=[OF + "::write", OF + "::flush"], setup=so_setup(src), requires=lambda c: [And(sx(Z(c.a[3], 32)) >= 0, sx(Z(c.a[2], 32)) >= 0, sx(Z(c.a[2], 32)) + sx(Z(c.a[3], 32)) <= Z(c.n(c.a[1].reg), 64))],
  modifies=lambda c: [(fobj(c).reg, "g:W", 0), (fobj(c).reg, "g:pp", 0)], ensures=so_fb_ens)
C(SO, "seek", 1, use=[SO + "::flushBuffer", OF + "::setPosition"], setup=so_setup(lambda b: [b.i64("target")]), requires=req, modifies=mods,
  ensures=lambda c: same(c) + [("at the target", And(pos(c, c.this) == Z(c.a[1], 64), c.ghost(fobj(c), "pp") == Z(c.a[1], 64)))])
# ---- checksums: ghost crc is the running state; one step per byte / per block
BYTES = z3.ArraySort(B64, z3.BitVecSort(8))
crc1 = z3.Function("crc_byte", B64, z3.BitVecSort(8), B64); crcN = z3.Function("crc_block", B64, BYTES, B64, B64, B64); crcval = z3.Function("crc_value", B64, z3.BitVecSort(32))
CRC = "boost::crc_optimal<32ul, 79764919ul, 4294967295ul, 4294967295ul, true, true>"
CRC_CANDS = [CRC] + ["boost::crc_optimal<32ul, 79764919%s, 4294967295%s, 4294967295%s, true, true>" % (s, s, s) for s in ("u", "")]
def crcm(c): return [(c.this.reg, "g:crc", 0)]
def crc_block(c):
    if len(c.a) != 3: raise Unsupported("process_bytes arity")
    b, n = c.a[1], Z(c.a[2], 64)
    return [c.ghost(c.this, "crc") == crcN(c.old.ghost(c.this, "crc"), c.arr(b.reg), Z(b.idx, 64), n)]
crcs = []
for q in CRC_CANDS:
    crcs += [Contract(q + "::process_byte", 1, assumed=True, modifies=crcm, ensures=lambda c: [c.ghost(c.this, "crc") == crc1(c.old.ghost(c.this, "crc"), Z(c.a[1], 8))]),
             Contract(q + "::process_bytes", 2, assumed=True, modifies=crcm, ensures=crc_block),
             Contract(q + "::checksum", 0, assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("crc"), 32), ensures=lambda c: [Z(c.ret, 32) == crcval(c.ghost(c.this, "crc"))])]
# the wrapped output: file bytes out, cursor outlen
def m_out(c): return [(c.this.reg, "g:out", 0), (c.this.reg, "g:outlen", 0)]
def blk_ens(c):
    b, o, n = c.a[1], sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32)); A, W, W0, p = c.old.arr(b.reg), c.ghost(c.this, "out"), c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen")
    from engine.models import aname
    return [FA(lambda i: W[i] == z3.If(And(i >= p, i < p + n), A[Z(b.idx, 64) + o + (i - p)], W0[i]), trig=[aname(W)]), c.ghost(c.this, "outlen") == p + n]
def be_store(W, p, v, n):
    for k in range(n): W = z3.Store(W, p + k, z3.Extract(8 * (n - 1 - k) + 7, 8 * (n - 1 - k), v))
    return W
mainO = [Contract(OUT + "::writeByte", 1, assumed=True, modifies=m_out, ensures=lambda c: [c.ghost(c.this, "out") == z3.Store(c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen"), Z(c.a[1], 8)), c.ghost(c.this, "outlen") == c.old.ghost(c.this, "outlen") + 1]),
         Contract(OUT + "::writeBytes", 3, assumed=True, modifies=m_out, ensures=blk_ens),
         Contract(OUT + "::writeLong", 1, assumed=True, modifies=m_out, ensures=lambda c: [c.ghost(c.this, "out") == be_store(c.old.ghost(c.this, "out"), c.old.ghost(c.this, "outlen"), Z(c.a[1], 64), 8), c.ghost(c.this, "outlen") == c.old.ghost(c.this, "outlen") + 8]),
         Contract(OUT + "::flush", 0, assumed=True, modifies=lambda c: [], ensures=lambda c: []),
         Contract(OUT + "::seek", 1, assumed=True, modifies=lambda c: [(c.this.reg, "g:outlen", 0)], ensures=lambda c: [c.ghost(c.this, "outlen") == Z(c.a[1], 64)]),
         Contract(OUT + "::getFilePointer", 0, assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("fp"), 64), ensures=lambda c: [Z(c.ret, 64) == c.ghost(c.this, "outlen")])]
MAINO = [x.name for x in mainO]; CRCS = [x.name for x in crcs]
def co_setup(extra=lambda b: []):
    def f(b):
        o = b.obj("cso", CO); b.setghost(o, "crc", b.i64("crc0"))
        m = b.obj("main", OUT, exact=False); b.setghost(m, "out", z3.Array("out0", B64, z3.BitVecSort(8))); b.setghost(m, "outlen", b.i64("outlen0"))
        b.set_sp(o, "main", m)
        return [o] + extra(b)
    return f
def mn(c): return sptr(c, c.this, "main")
def mm(c): return [(mn(c).reg, "g:out", 0), (mn(c).reg, "g:outlen", 0), (c.this.reg, "g:crc", 0)]
def mo(v, c): return v.ghost(mn(c), "out"), v.ghost(mn(c), "outlen")
U = MAINO + CRCS
def co_byte(c):
    (W, p), (W0, p0) = mo(c, c), mo(c.old, c)
    return [("byte handed on", And(W == z3.Store(W0, p0, Z(c.a[1], 8)), p == p0 + 1)), ("byte checksummed", c.ghost(c.this, "crc") == crc1(c.old.ghost(c.this, "crc"), Z(c.a[1], 8)))]
def co_bytes(c):
    (W, p), (W0, p0) = mo(c, c), mo(c.old, c); A, off, n = wb(c)
    return [("block handed on", FA(lambda i: W[i] == z3.If(And(i >= p0, i < p0 + n), A[off + (i - p0)], W0[i]))), ("advance", p == p0 + n), ("block checksummed", c.ghost(c.this, "crc") == crcN(c.old.ghost(c.this, "crc"), A, off, n))]
C(CO, "writeByte", 1, use=U, setup=co_setup(lambda b: [b.bv("byte", 8)]), modifies=mm, ensures=co_byte)
C(CO, "writeBytes", 3, use=U, setup=co_setup(src), requires=lambda c: [And(wb(c)[2] >= 0, wb(c)[1] >= 0)], modifies=mm, ensures=co_bytes)
val = lambda c: zx(crcval(c.old.ghost(c.this, "crc")), 64)
C(CO, "getChecksum", 0, use=U, setup=co_setup(), modifies=lambda c: [], ensures=lambda c: [("the checksum", Z(c.ret, 64) == val(c))])
C(CO, "prepareCommit", 0, use=U, setup=co_setup(), modifies=mm, ensures=lambda c: [("a wrong checksum is written at the cursor", mo(c, c)[0] == be_store(mo(c.old, c)[0], mo(c.old, c)[1], val(c) - 1, 8)), ("cursor back", mo(c, c)[1] == mo(c.old, c)[1]), ("checksum state untouched", c.ghost(c.this, "crc") == c.old.ghost(c.this, "crc"))])
C(CO, "finishCommit", 0, use=U, setup=co_setup(), modifies=mm, ensures=lambda c: [("the checksum is written at the cursor", mo(c, c)[0] == be_store(mo(c.old, c)[0], mo(c.old, c)[1], val(c), 8)), ("cursor", mo(c, c)[1] == mo(c.old, c)[1] + 8)])
C(CO, "seek", 1, use=U, setup=co_setup(lambda b: [b.i64("target")]), modifies=lambda c: [], raises=lambda c: [(EXC("Runtime"), z3.BoolVal(True))])
# reading side
mainI = [Contract(IN + "::readByte", 0, assumed=True, modifies=lambda c: [(c.this.reg, "g:inpos", 0)], ret=lambda c: z3.BitVec(uniq("rb"), 8), ensures=lambda c: [Z(c.ret, 8) == c.ghost(c.this, "in")[c.old.ghost(c.this, "inpos")], c.ghost(c.this, "inpos") == c.old.ghost(c.this, "inpos") + 1])]
def ib_ens(c):
    b, o, n = c.a[1], sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32)); D, D0, F, p = c.arr(b.reg), c.old.arr(b.reg), c.ghost(c.this, "in"), c.old.ghost(c.this, "inpos"); base = Z(b.idx, 64) + o
    from engine.models import aname
    return [FA(lambda i: D[i] == z3.If(And(i >= base, i < base + n), F[p + (i - base)], D0[i]), trig=[aname(D)]), c.ghost(c.this, "inpos") == p + n]
mainI.append(Contract(IN + "::readBytes", 3, assumed=True, modifies=lambda c: [(c.this.reg, "g:inpos", 0), (c.a[1].reg, 0, 1)], ensures=ib_ens))
UI = [x.name for x in mainI] + CRCS
def ci_setup(extra=lambda b: []):
    def f(b):
        o = b.obj("csi", CI); b.setghost(o, "crc", b.i64("crc0"))
        m = b.obj("main", IN, exact=False); b.setghost(m, "in", z3.Array("in0", B64, z3.BitVecSort(8))); b.setghost(m, "inpos", b.i64("inpos0"))
        b.set_sp(o, "main", m)
        return [o] + extra(b)
    return f
def ci_byte(c):
    F, p0 = c.old.ghost(mn(c), "in"), c.old.ghost(mn(c), "inpos")
    return [("the next byte", And(Z(c.ret, 8) == F[p0], c.ghost(mn(c), "inpos") == p0 + 1)), ("byte checksummed", c.ghost(c.this, "crc") == crc1(c.old.ghost(c.this, "crc"), F[p0]))]
def ci_bytes(c):
    F, p0 = c.old.ghost(mn(c), "in"), c.old.ghost(mn(c), "inpos"); A, off, n = wb(c)
    return [("the block", FA(lambda k: Imp(And(k >= 0, k < n), A[off + k] == F[p0 + k]))), ("advance", c.ghost(mn(c), "inpos") == p0 + n), ("block checksummed", c.ghost(c.this, "crc") == crcN(c.old.ghost(c.this, "crc"), A, off, n))]
C(CI, "readByte", 0, use=UI, setup=ci_setup(), modifies=lambda c: [(mn(c).reg, "g:inpos", 0), (c.this.reg, "g:crc", 0)], ensures=ci_byte)
C(CI, "readBytes", 3, use=UI, setup=ci_setup(src), requires=lambda c: [And(wb(c)[2] >= 0, wb(c)[1] >= 0)], modifies=lambda c: [(mn(c).reg, "g:inpos", 0), (c.this.reg, "g:crc", 0), (c.a[1].reg, 0, 1)], ensures=ci_bytes)
C(CI, "getChecksum", 0, use=UI, setup=ci_setup(), modifies=lambda c: [], ensures=lambda c: [("the checksum", Z(c.ret, 64) == val(c))])
C(CI, "seek", 1, use=UI, setup=ci_setup(lambda b: [b.i64("target")]), modifies=lambda c: [], raises=lambda c: [(EXC("Runtime"), z3.BoolVal(True))])
CONTRACTS = cs + [fb, ofw, off_, ofs] + crcs + mainO + mainI
TUS = ["store/BufferedIndexOutput.cpp", "store/SimpleFSDirectory.cpp", "store/ChecksumIndexOutput.cpp", "store/ChecksumIndexInput.cpp", "store/IndexOutput.cpp"]
TRUSTED = ["boost::crc_32_type computes CRC-32 of the bytes passed to it (external)", "std::ofstream behind OutputFile writes at its position (external)"]
HARNESS = "c04.cpp"
SECS = 10
