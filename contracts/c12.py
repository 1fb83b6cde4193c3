"""C12: byte slices.  The pool's blocks are the rows of one two-dimensional byte region: global address a is
byte a & 32767 of row a >> 15."""
from .common import *
from engine.spec import lcoll, COLL
BP, BW, BR = "Lucene::ByteBlockPool", "Lucene::ByteSliceWriter", "Lucene::ByteSliceReader"
SZ = 32768
SIZES = [5, 14, 20, 30, 40, 40, 80, 80, 120, 200]
NEXT = [1, 2, 3, 4, 5, 6, 7, 8, 9, 9]
MAXR = 60000
V = lambda n: z3.BitVecVal(n, 64)
def tab(t, l):
    r = V(t[9])
    for k in range(9): r = z3.If(l == k, V(t[k]), r)
    return r
def size_of(l): return tab(SIZES, l)
def next_of(l): return tab(NEXT, l)
def mkpool(b):
    p = b.obj("pool", BP); nb = b.i64("blocks"); b.assume(nb >= 0, nb <= MAXR)
    data = b.vc.new_arr(b.st, "block", 1, V(SZ), keyed=True)
    hnd = b.array("block_handles", 16, nb); hnd.tags["idrows"] = {0: data}
    b.st.w(hnd)[(8, 4)] = z3.K(B64, z3.BitVecVal(SZ, 32))
    vec = b.array("buffers", 24, nb); vec.tags["idrows"] = {0: hnd, 8: None, 16: hnd}
    b.collection(b.sub(p, "buffers"), vec, nb)
    p.reg.tags.update(data=data, hnd=hnd, vec=vec)
    bu = sx(Z(b.fld(p, "bufferUpto"), 32))
    arr(b, b.sub(p, "buffer"), p, bu)
    for n in ("bufferUpto", "byteUpto", "byteOffset"): b.inputs[n] = Z(b.fld(p, n), 32)
    return p
def arr(b, q, pool, k):
    """the ByteArray at q is block number k"""
    h = pool.reg.tags["hnd"]
    b.vc.store(b.st, q, PTR, Ptr(h, k)); b.vc.store(b.st, q.at(8), PTR, NULL); b.vc.store(b.st, q.at(16), PTR, Ptr(h, k))
def rowof(v, q):
    p = v.vc.load(v.st, q.at(16), PTR)
    return Z(p.idx, 64) if p.reg is not None else V(-1)
def D(v, p): return v.vc.getarr(v.st, p.reg.tags["data"], 0, 1)
def at(v, p, q, j): return z3.Select(D(v, p), q, j)
def ps(v, p):
    g = lambda f: sx(Z(v.fld(p, f), 32))
    return dict(bu=g("bufferUpto"), up=g("byteUpto"), off=g("byteOffset"), nb=lcoll(v, p, "buffers")[2], row=rowof(v, v.sub(p, "buffer")))
def CELL(f): return FA(lambda q, j: Imp(And(q >= 0, q <= MAXR, j >= 0, j < SZ), f(q, j)), (64, 64))
def free(s, q, j): return Or(q > s["bu"], And(q == s["bu"], j >= s["up"]))
def pinv(v, p):
    s = ps(v, p)
    return [("blocks", And(s["bu"] >= 0, s["bu"] < s["nb"], s["nb"] <= MAXR, s["row"] == s["bu"], s["off"] == s["bu"] * SZ, s["up"] >= 0, s["up"] <= SZ)), ("unused bytes are clear", CELL(lambda q, j: Imp(free(s, q, j), at(v, p, q, j) == 0)))]
def space(v, p): return ("room below 2^31 bytes", ps(v, p)["bu"] + 2 < MAXR)
def nb_apply(vc, st_, args, where=""):
    """assumed: continues in the next block, which is clear (new, or cleared by reset())"""
    p = args[0]; v = View(vc, st_); s = ps(v, p); t = p.reg.tags
    for n, val in (("bufferUpto", s["bu"] + 1), ("byteUpto", V(0)), ("byteOffset", s["off"] + SZ)):
        q, sz, ty = v.addr(p, n); vc.store(st_, q, I32, simp(z3.Extract(31, 0, val)))
    q = v.sub(p, "buffer"); k = simp(s["bu"] + 1)
    vc.store(st_, q, PTR, Ptr(t["hnd"], k)); vc.store(st_, q.at(8), PTR, NULL); vc.store(st_, q.at(16), PTR, Ptr(t["hnd"], k))
    vo = vc.load(st_, v.sub(p, "buffers").at(COLL), PTR); n = z3.BitVec(uniq("blocks"), 64); st_.assume(n > k, n <= MAXR, n >= s["nb"])
    vc.store(st_, vo.at(8), PTR, Ptr(t["vec"], n))
    for r in (t["vec"], t["hnd"]):
        st_.w(r)["n"] = n
        if st_.rec is not None: st_.rec.add((r, "n", 0))
    return [(st_, "ret", None)]
def repoint(c, q, p):
    """at a call site: the handle at q is some block of the pool, the list of blocks has some new length"""
    if not c.call: return
    arr(c, q, p, z3.BitVec(uniq("block"), 64))
def regrow(c, p):
    if not c.call: return
    repoint(c, c.sub(p, "buffer"), p)
    t = p.reg.tags; n = z3.BitVec(uniq("blocks"), 64); vo = c.vc.load(c.st, c.sub(p, "buffers").at(COLL), PTR)
    c.vc.store(c.st, vo.at(8), PTR, Ptr(t["vec"], n))
    for r in (t["vec"], t["hnd"]): c.st.w(r)["n"] = n
    c.st.assume(n >= 0, n <= MAXR)
nextb = Contract(BP + "::nextBuffer", 0, assumed=True, apply=nb_apply)
cs = []
def C(fn, n, **k): k.setdefault("use", [nextb.name]); cs.append(Contract(fn, n, **k)); return cs[-1]
R32 = lambda c: z3.BitVec(uniq("r"), 32)
def pmods(v, p):
    q = v.sub(p, "buffer"); vo = v.vc.load(v.st, v.sub(p, "buffers").at(COLL), PTR); t = p.reg.tags
    return [loc(v, p, n) for n in ("bufferUpto", "byteUpto", "byteOffset")] + [(q.reg, q.off, 8), (q.reg, q.off + 8, 8), (q.reg, q.off + 16, 8), (t["data"], 0, 1), (vo.reg, 8, 8), (t["vec"], "n", 0), (t["hnd"], "n", 0)]
def frame(c, p, f):
    """every byte is as specified"""
    return ("exactly these bytes change", CELL(lambda q, j: at(c, p, q, j) == f(q, j, at(c.old, p, q, j))))
def fresh(s0, s1, n):
    """the n bytes before the pool's position are new: after everything handed out before"""
    return And(s1["up"] >= n, s1["up"] <= SZ, Or(And(s1["bu"] == s0["bu"], s1["up"] - n == s0["up"]), And(s1["bu"] == s0["bu"] + 1, s1["up"] == n, s0["up"] > SZ - n)))
# ---------------------------------------------------------------- allocation
def e_new(c):
    p = c.this; regrow(c, p); n = sx(Z(c.a[1], 32)); s0, s1 = ps(c.old, p), ps(c, p)
    return [("fresh bytes", fresh(s0, s1, n)), ("start of the slice", sx(Z(c.ret, 32)) == s1["up"] - n), frame(c, p, lambda q, j, x: z3.If(And(q == s1["bu"], j == s1["up"] - 1), z3.BitVecVal(16, 8), x))] + pinv(c, p)
C(BP + "::newSlice", 1, setup=lambda b: [mkpool(b), b.i32("size")], requires=lambda c: pinv(c, c.this) + [space(c, c.this), ("size", And(sx(Z(c.a[1], 32)) >= 1, sx(Z(c.a[1], 32)) <= SZ))], modifies=lambda c: pmods(c, c.this), ensures=e_new, ret=R32)
def lev(x): return z3.ZeroExt(56, x & 15)
def r_alloc(c):
    p = c.this; s = ps(c, p); q, u = rowof(c, c.a[1]), sx(Z(c.a[2], 32))
    return pinv(c, p) + [space(c, p), ("end of a slice in use", And(q >= 0, q <= s["bu"], u >= 3, u < SZ, Not(free(s, q, u)))), ("level", z3.ULE(lev(at(c, p, q, u)), 9))]
def grown(c, p, q, u, s0, s1, x):
    """cells of the pool after a slice ending at (q, u) with end marker x was continued in a new slice"""
    l = next_of(lev(x)); n = size_of(l); nu = s1["up"] - n; adr = z3.Extract(31, 0, s1["bu"] * SZ + nu)
    o = lambda k: at(c.old, p, q, u - 3 + k)
    def f(qq, jj, old):
        r = old
        for k in range(4): r = z3.If(And(qq == q, jj == u - 3 + k), z3.Extract(31 - 8 * k, 24 - 8 * k, adr), r)
        for k in range(3): r = z3.If(And(qq == s1["bu"], jj == nu + k), o(k), r)
        return z3.If(And(qq == s1["bu"], jj == s1["up"] - 1), z3.BitVecVal(16, 8) | z3.Extract(7, 0, l), r)
    return n, nu, f
def e_alloc(c):
    p = c.this; regrow(c, p); s0, s1 = ps(c.old, p), ps(c, p); q, u = rowof(c.old, c.a[1]), sx(Z(c.a[2], 32)); x = at(c.old, p, q, u); n, nu, f = grown(c, p, q, u, s0, s1, x)
    return [("fresh bytes", fresh(s0, s1, n)), ("continues after the copied bytes", sx(Z(c.ret, 32)) == nu + 3), frame(c, p, f)] + pinv(c, p)
def s_alloc(b):
    p = mkpool(b); q = Ptr(b.vc.new_obj(b.st, "slice", sym=False)); k = b.i64("slice_block"); arr(b, q, p, k); b.assume(k >= 0, k < MAXR)
    return [p, q, b.i32("upto")]
C(BP + "::allocSlice", 2, setup=s_alloc, requires=r_alloc, modifies=lambda c: pmods(c, c.this), ensures=e_alloc, ret=R32, timeout=40000)
# ---------------------------------------------------------------- writing
def pool(v, o): return sptr(v, o, "pool")
def ws(v, o): return dict(row=rowof(v, v.sub(o, "slice")), up=sx(Z(v.fld(o, "upto"), 32)), o0=Z(v.fld(o, "offset0"), 32))
def slice_end(v, o):
    """ghost: column of the end marker of the slice being written"""
    return v.ghost(o, "end")
def winv(v, o):
    p = pool(v, o); s, w = ps(v, p), ws(v, o); e = slice_end(v, o); x = at(v, p, w["row"], e); l = lev(x)
    return pinv(v, p) + [("writer in a slice in use", And(w["row"] >= 0, w["row"] <= s["bu"], w["up"] >= 0, w["up"] <= e, e < SZ, Not(free(s, w["row"], e)))), ("end marker", And(x & 240 == 16, z3.ULE(l, 9), e + 1 >= size_of(l))), ("address base", sx(w["o0"] >> 15) == w["row"]),
                         ("rest of the slice is clear", FA(lambda j: Imp(And(j >= w["up"], j < e), at(v, p, w["row"], j) == 0), name="clr"))]
def s_w(*ps_):
    def f(b):
        p = mkpool(b); o = b.obj("writer", BW); b.set_sp(o, "pool", p); k = b.i64("slice_block"); arr(b, b.sub(o, "slice"), p, k); b.setghost(o, "end", z3.BitVec("slice_end", 64))
        for n in ("upto", "offset0"): b.inputs[n] = Z(b.fld(o, n), 32)
        return [o] + [b.bv(n, w) for n, w in ps_]
    return f
def e_wb(c):
    o = c.this; p = pool(c, o); regrow(c, p); repoint(c, c.sub(o, "slice"), p); s0, s1, w0, w1 = ps(c.old, p), ps(c, p), ws(c.old, o), ws(c, o); e = slice_end(c.old, o); b = Z(c.a[1], 8)
    full = w0["up"] == e; x = at(c.old, p, w0["row"], e); n, nu, f = grown(c, p, w0["row"], e, s0, s1, x)
    c.setghost(o, "end", simp(z3.If(full, s1["up"] - 1, e)))
    here = lambda q, j: And(q == w1["row"], j == w1["up"] - 1)
    return [("the byte", at(c, p, w1["row"], w1["up"] - 1) == b), ("same slice while it has room", Imp(Not(full), And(w1["row"] == w0["row"], w1["up"] == w0["up"] + 1, s1["up"] == s0["up"], s1["bu"] == s0["bu"]))),
            ("continued in fresh bytes when full", Imp(full, And(fresh(s0, s1, n), w1["row"] == s1["bu"], w1["up"] == nu + 4))),
            frame(c, p, lambda q, j, old: z3.If(here(q, j), b, z3.If(full, f(q, j, old), old)))] + winv(c, o)
def wmods(c): o = c.this; q = c.sub(o, "slice"); return [loc(c, o, "upto"), loc(c, o, "offset0"), (q.reg, q.off, 8), (q.reg, q.off + 8, 8), (q.reg, q.off + 16, 8), (o.reg, "g:end", 0)] + pmods(c, pool(c, o))
C(BW + "::writeByte", 1, setup=s_w(("byte", 8)), requires=lambda c: winv(c, c.this) + [space(c, pool(c, c.this))], modifies=wmods, ensures=e_wb, timeout=40000, use=[nextb.name, BP + "::allocSlice"])
C(BW + "::getAddress", 0, setup=s_w(), requires=lambda c: winv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("address of the next byte", sx(Z(c.ret, 32)) == ws(c, c.this)["row"] * SZ + ws(c, c.this)["up"])], ret=R32)
def s_init(b):
    p = mkpool(b); o = b.obj("writer", BW); b.set_sp(o, "pool", p); arr(b, b.sub(o, "slice"), p, b.i64("slice_block"))
    return [o, b.i32("address")]
def r_init(c):
    p = pool(c, c.this); a = sx(Z(c.a[1], 32)); return pinv(c, p) + [("address in use", And(a >= 0, (a >> 15) < ps(c, p)["nb"]))]
C(BW + "::init", 1, setup=s_init, requires=r_init, ensures=lambda c: [("at the address", And(ws(c, c.this)["row"] * SZ + ws(c, c.this)["up"] == sx(Z(c.a[1], 32)), ws(c, c.this)["up"] < SZ, sx(ws(c, c.this)["o0"] >> 15) == ws(c, c.this)["row"]))])
# ---------------------------------------------------------------- reading
def rs(v, o):
    g = lambda f: sx(Z(v.fld(o, f), 32))
    return dict(row=rowof(v, v.sub(o, "buffer")), up=g("upto"), lim=g("limit"), lev=g("level"), off=g("bufferOffset"), end=g("endIndex"), bu=g("bufferUpto"))
def rinv(v, o):
    p = pool(v, o); r = rs(v, o); nb = ps(v, p)["nb"]
    return [("reader window", And(r["row"] >= 0, r["row"] < nb, nb <= MAXR, r["off"] == r["row"] * SZ, r["bu"] == r["row"], r["up"] >= 0, r["up"] <= r["lim"], r["lim"] <= SZ, r["lev"] >= 0, r["lev"] <= 9, r["end"] >= 0, r["end"] < nb * SZ)), ("within the stream", r["off"] + r["lim"] <= r["end"])]
def s_r(extra=lambda b: []):
    def f(b):
        p = mkpool(b); o = b.obj("reader", BR); b.set_sp(o, "pool", p); k = b.i64("block_row"); arr(b, b.sub(o, "buffer"), p, k)
        for n in ("upto", "limit", "level", "bufferOffset", "endIndex"): b.inputs[n] = Z(b.fld(o, n), 32)
        return [o] + extra(b)
    return f
def fwd(v, p, q, j): return z3.Concat(*[at(v, p, q, j + k) for k in range(4)])
def r_next(c):
    """the forwarding address at the limit leads to a slice of the next level, in a block of the pool, before the end"""
    o = c.this; p = pool(c, o); r = rs(c, o); nb = ps(c, p)["nb"]; a = sx(fwd(c, p, r["row"], r["lim"])); n = size_of(next_of(r["lev"]))
    return [("forwarding address", And(r["lim"] + 4 <= SZ, a >= 0, (a >> 15) < nb, (a & (SZ - 1)) + n <= SZ, a < r["end"])),
            ("the last slice holds the end", Imp(a + n >= r["end"], (r["end"] >> 15) == (a >> 15)))]
def e_next(c, o=None):
    o = c.this; p = pool(c, o); repoint(c, c.sub(o, "buffer"), p); r0, r1 = rs(c.old, o), rs(c, o); a = sx(fwd(c.old, p, r0["row"], r0["lim"])); n = size_of(next_of(r0["lev"]))
    return [("at the forwarding address", r1["off"] + r1["up"] == a), ("next level", r1["lev"] == next_of(r0["lev"])), ("limit", r1["off"] + r1["lim"] == z3.If(a + n >= r1["end"], r1["end"], a + n - 4)), ("same end", r1["end"] == r0["end"])] + rinv(c, o)
def rmods(c): o = c.this; q = c.sub(o, "buffer"); return [loc(c, o, n) for n in ("upto", "limit", "level", "bufferOffset", "bufferUpto")] + [(q.reg, q.off, 8), (q.reg, q.off + 8, 8), (q.reg, q.off + 16, 8)]
C(BR + "::nextSlice", 0, setup=s_r(), requires=lambda c: rinv(c, c.this) + r_next(c), modifies=rmods, ensures=e_next)
def here(v, o): r = rs(v, o); return r["off"] + r["up"]
def next_ok(c): r = rs(c, c.this); return [(n, Imp(r["up"] == r["lim"], f)) for n, f in r_next(c)]
def e_rb(c):
    o = c.this; p = pool(c, o); r0, r1 = rs(c.old, o), rs(c, o); a = sx(fwd(c.old, p, r0["row"], r0["lim"]))
    frm = z3.If(r0["up"] == r0["lim"], a, here(c.old, o))
    return [("the byte there", Z(c.ret, 8) == at(c, p, frm >> 15, frm & (SZ - 1))), ("advances by one", here(c, o) == frm + 1)] + rinv(c, o)
C(BR + "::readByte", 0, setup=s_r(), requires=lambda c: rinv(c, c.this) + [("not at the end", here(c, c.this) != rs(c, c.this)["end"])] + next_ok(c), modifies=rmods, ensures=e_rb, ret=lambda c: z3.BitVec(uniq("b"), 8), use=[BR + "::nextSlice"])
C(BR + "::eof", 0, setup=s_r(), requires=lambda c: rinv(c, c.this), modifies=lambda c: [], ensures=lambda c: [("at the end", ZB(c.ret) == (here(c, c.this) == rs(c, c.this)["end"]))], ret=lambda c: z3.Bool(uniq("r")))
def s_rinit(b):
    p = mkpool(b); o = b.obj("reader", BR); arr(b, b.sub(o, "buffer"), p, b.i64("block_row"))
    return [o, b.sp(p), b.i32("startIndex"), b.i32("endIndex")]
def r_rinit(c):
    p = c.vc.load(c.st, c.a[1], PTR); s, e = sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32)); nb = ps(c, p)["nb"]
    return [("addresses", And(s >= 0, e >= s, e < nb * SZ, nb <= MAXR, (s & (SZ - 1)) + 5 <= SZ))]
def e_rinit(c):
    o = c.this; r = rs(c, o); s, e = sx(Z(c.a[2], 32)), sx(Z(c.a[3], 32))
    return [("at the start", And(here(c, o) == s, r["end"] == e, r["lev"] == 0)), ("limit", Imp(Or(e > s + 5, (e >> 15) == (s >> 15)), r["off"] + r["lim"] == z3.If(s + 5 >= e, e, s + 1)))]
C(BR + "::init", 3, setup=s_rinit, requires=r_rinit, ensures=e_rinit)
CONTRACTS = cs + [nextb]
TUS = ["index/ByteBlockPool.cpp", "index/ByteSliceWriter.cpp", "index/ByteSliceReader.cpp", "index/DocumentsWriter.cpp", "store/IndexInput.cpp", "util/MiscUtils.cpp"]
HARNESS = "c12.cpp"
SECS = 10
ASSUMPTIONS = ["the pool stays below 2^31 - 2^26 bytes (addresses are 32-bit)", "nextBuffer continues in a block that is clear"]
