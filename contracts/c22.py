"""C22: compound files.  Reading a packed file is reading its slice of the whole; packing copies bytes one for one."""
from .common import *
from engine.models import aname
CSI, CW = "Lucene::CSIndexInput", "Lucene::CompoundFileWriter"
IO = EXC("IO")
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
A8 = lambda n: z3.Array(n, B64, z3.BitVecSort(8))
BIG = z3.BitVecVal(1 << 60, 64)
def absfile(b, name, cls):
    o = b.obj(name, cls, exact=False); b.setghost(o, "F", A8(name + "_bytes")); b.setghost(o, "FL", b.i64(name + "_length")); b.setghost(o, "pos", b.i64(name + "_pos")); b.assume(b.ghost(o, "FL") >= 0, b.ghost(o, "FL") < BIG); return o
def isabs(c): return isinstance(c.a[0], Ptr) and c.a[0].reg is not None and "g:F" in c.st.mem[c.a[0].reg]
# ---- what the underlying input and output promise (proved for theirs by C03, C04 and C05)
IN_, OUT_ = "Lucene::IndexInput", "Lucene::IndexOutput"
def blk(c): return sx(Z(c.a[3], 32)), Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32))
def rd_req(c):
    n, off = blk(c); p = c.ghost(c.this, "pos"); return [("inside the file", And(n >= 0, p >= 0, p + n <= c.ghost(c.this, "FL"))), ("target in bounds", And(off >= 0, off + n <= Z(c.n(c.a[1].reg), 64)))]
def rd_ens(c):
    n, off = blk(c); p = c.old.ghost(c.this, "pos"); F = c.ghost(c.this, "F"); A, A0 = c.arr(c.a[1].reg), c.old.arr(c.a[1].reg)
    return [c.ghost(c.this, "pos") == p + n, FA(lambda j: A[j] == z3.If(And(j >= off, j < off + n), F[p + (j - off)], A0[j]), trig=[aname(A)])]
for k in (3, 4):
    C(IN_ + "::readBytes", k, name="abstract: IndexInput::readBytes/%d" % k, assumed=True, when=isabs, requires=rd_req, modifies=lambda c: [(c.this.reg, "g:pos", 0), (c.a[1].reg, 0, 1)], ensures=rd_ens)
C(IN_ + "::seek", 1, name="abstract: IndexInput::seek", assumed=True, when=isabs, requires=lambda c: [Z(c.a[1], 64) >= 0], modifies=lambda c: [(c.this.reg, "g:pos", 0)], ensures=lambda c: [c.ghost(c.this, "pos") == Z(c.a[1], 64)])
C(IN_ + "::length", 0, name="abstract: IndexInput::length", assumed=True, when=isabs, modifies=lambda c: [], ret=lambda c: c.ghost(c.this, "FL"), ensures=lambda c: [])
C(IN_ + "::close", 0, name="abstract: IndexInput::close", assumed=True, when=isabs, modifies=lambda c: [], ensures=lambda c: [])
for w in (IN_, OUT_): C(w + "::getFilePointer", 0, name="abstract: %s::getFilePointer" % w, assumed=True, when=isabs, modifies=lambda c: [], ret=lambda c: c.ghost(c.this, "pos"), ensures=lambda c: [])
def wr_ens(c):
    n, off = sx(Z(c.a[2], 32)), Z(c.a[1].idx, 64); p = c.old.ghost(c.this, "pos"); F, F0 = c.ghost(c.this, "F"), c.old.ghost(c.this, "F"); A = c.arr(c.a[1].reg)
    return [c.ghost(c.this, "pos") == p + n, FA(lambda j: F[j] == z3.If(And(j >= p, j < p + n), A[off + (j - p)], F0[j]), trig=[aname(F)])]
C(OUT_ + "::writeBytes", 2, name="abstract: IndexOutput::writeBytes/2", assumed=True, when=isabs, requires=lambda c: [("source in bounds", And(sx(Z(c.a[2], 32)) >= 0, Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32)) <= Z(c.n(c.a[1].reg), 64)))], modifies=lambda c: [(c.this.reg, "g:pos", 0), (c.this.reg, "g:F", 0)], ensures=wr_ens)
# ---------------------------------------------------------------- the slice
POS = z3.BitVec("slice_position", 64)
C("Lucene::BufferedIndexInput::getFilePointer", 0, name="abstract: BufferedIndexInput::getFilePointer", assumed=True, when=lambda c: "base" in c.this.reg.tags, modifies=lambda c: [], ret=lambda c: POS, ensures=lambda c: [])
def s_cs(extra):
    def g(b):
        o = b.obj("slice", CSI); base = absfile(b, "whole", IN_); o.reg.tags["base"] = base; b.set_sp(o, "base", base); b.inputs["fileOffset"] = Z(b.fld(o, "fileOffset"), 64); b.inputs["length"] = Z(b.fld(o, "_length"), 64); b.inputs["position"] = POS
        return [o] + extra(b)
    return g
def sl(v, o): return Z(v.fld(o, "fileOffset"), 64), Z(v.fld(o, "_length"), 64), v.ghost(o.reg.tags["base"], "F"), v.ghost(o.reg.tags["base"], "FL")
def cs_inv(c): fo, n, F, FL = sl(c, c.this); return [("slice of the whole", And(fo >= 0, n >= 0, fo + n <= FL, fo < BIG, n < BIG))]
def cs_req(c):
    n, off = blk(c); return cs_inv(c) + [("position", And(POS >= 0, POS < BIG)), ("target in bounds", And(n >= 0, off >= 0, off + n <= Z(c.n(c.a[1].reg), 64)))]
def cs_ens(c):
    fo, L, F, FL = sl(c, c.this); n, off = blk(c); A, A0 = c.arr(c.a[1].reg), c.old.arr(c.a[1].reg)
    return [("bytes of the slice", FA(lambda j: Imp(rng(j, 0, n), A[off + j] == F[fo + POS + j]))), ("nothing else touched", FA(lambda j: Imp(Or(j < off, j >= off + n), A[j] == A0[j]))), ("the slice stays", And(fo == sl(c.old, c.this)[0], L == sl(c.old, c.this)[1]))]
C(CSI + "::readInternal", 3, setup=s_cs(lambda b: [Ptr(b.array("dest", 1, b.i64("dest_n"))), b.i32("offset"), b.i32("length_wanted")]), requires=cs_req, raises=lambda c: [(IO, POS + blk(c)[0] > sl(c, c.this)[1])], ensures=cs_ens)
C(CSI + "::length", 0, setup=s_cs(lambda b: []), modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 64) == sl(c, c.this)[1]])
# ---------------------------------------------------------------- copying one file in
def oi_apply(vc, st, a, where=""):
    vc.store(st, a[0], PTR, a[1].reg.tags["src"]); vc.store(st, a[0].at(8), PTR, NULL); return [(st, "ret", None)]
C("Lucene::Directory::openInput", 1, name="abstract: Directory::openInput opens the file at its start", assumed=True, when=lambda c: "src" in c.a[1].reg.tags, apply=oi_apply)
C("Lucene::CheckAbort::work", 1, name="abstract: CheckAbort::work", assumed=True, modifies=lambda c: [], ensures=lambda c: [], ret=lambda c: None)
def s_cp(b):
    o = b.obj("writer", CW); d = b.obj("directory", "Lucene::Directory", exact=False); src = absfile(b, "source", IN_); out = absfile(b, "out", OUT_); d.reg.tags["src"] = src; b.setghost(src, "pos", z3.BitVecVal(0, 64))
    b.assume(b.ghost(out, "pos") >= 0, b.ghost(out, "pos") < BIG); q = b.sub(o, "_directory"); b.vc.store(b.st, q, PTR, d); b.vc.store(b.st, q.at(8), PTR, NULL); b.set_sp(o, "checkAbort", NULL)
    e = b.obj("entry", CW + "::FileEntry"); buf = b.array("chunk", 1, b.i64("chunk_size")); n = b.inputs["chunk_size"]; b.assume(n >= 1, n < (1 << 30)); ba = Ptr(b.vc.new_obj(b.st, "buffer", sym=False)); b.lucene_array(ba, buf, z3.Extract(31, 0, n))
    o.reg.tags.update(src=src, out=out, n=n)
    return [o, e, b.sp(out), ba]
def cp(v, o): t = o.reg.tags; return v.ghost(t["src"], "F"), v.ghost(t["src"], "FL"), v.ghost(t["src"], "pos"), v.ghost(t["out"], "F"), v.ghost(t["out"], "pos")
def copied(c, o, pre, n):
    S, L, sp, F, p = cp(c, o); _, _, _, F0, p0 = cp(pre, o)
    return [("bytes copied one for one", FA(lambda j: Imp(rng(j, 0, n), F[p0 + j] == S[j]), name="cp")), ("nothing else in the output changed", FA(lambda j: Imp(Or(j < p0, j >= p0 + n), F[j] == F0[j]), name="rest")), ("output advanced by as much", p == p0 + n)]
def cp_inv(c):
    o = c.cargs[0]; r = Z(c.var("remainder"), 64); S, L, sp, F, p = cp(c, o); done = z3.BitVec("copied_so_far", 64) if False else L - r
    return [("progress", And(r >= 0, r <= L, sp == L - r, L == cp(c.pre, o)[1], Z(c.var("length"), 64) == L, Z(c.var("startPtr"), 64) == cp(c.pre, o)[4], Z(c.var("chunk"), 64) == o.reg.tags["n"]))] + copied(c, o, c.pre, L - r)
C(CW + "::copyFile", 3, setup=s_cp, ensures=lambda c: copied(c, c.this, c.old, cp(c.old, c.this)[1]), loops=[LoopSpec(cp_inv, dec=lambda c: Z(c.var("remainder"), 64), name="chunks")])
CONTRACTS = cs
LEMMAS = []
TUS = ["index/CompoundFileReader.cpp", "index/CompoundFileWriter.cpp", "store/IndexInput.cpp", "store/IndexOutput.cpp", "store/BufferedIndexInput.cpp", "store/Directory.cpp"]
HARNESS = "c22.cpp"
SECS = 10
ASSUMPTIONS = []
