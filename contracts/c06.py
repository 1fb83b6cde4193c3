"""C06: BitVector."""
from .common import *
BV = "Lucene::BitVector"
PC8_ = z3.Function("pc8", z3.BitVecSort(8), z3.BitVecSort(8))
def PC8(b): return zx(PC8_(b), 32)     # number of one bits of a byte
PC = PSum("pc", PC8)
LEMMAS = PC.lemmas()
from engine import driver
driver.TABLES.append((BV + "::BYTE_COUNTS", lambda i: PC8_(z3.Extract(7, 0, i)), lambda k: bin(k).count("1")))
def pcdef(c, *bs): c.st.assume(*[PC8_(b) == popc(b, 8) for b in bs])      # definition of pc8
def bit(A, j): return z3.Extract(0, 0, z3.LShR(A[z3.LShR(j, 3)], z3.Extract(7, 0, j & 7)))
def setup(*params):
    def f(b):
        o = b.obj("bv", BV)
        nb = z3.BitVec("nbytes", 32)
        reg = b.array("bits", 1, sx(nb))
        b.lucene_array(b.sub(o, "bits"), reg, nb)
        b.inputs["size"] = Z(b.fld(o, "_size"), 32)
        return [o] + [b.i32(p) for p in params]
    return f
def parts(v, o):
    reg, n = larr(v, o, "bits")
    return v.arr(reg), sx(n), Z(v.fld(o, "_size"), 32), Z(v.fld(o, "_count"), 32), reg
def inv(v, o):
    A, n, size, cnt, reg = parts(v, o)
    return [("size and storage agree", And(size >= 0, n > 0, n <= (1 << 28), sx(size) <= 8 * n)), ("cached count is exact or unknown", Or(cnt == -1, cnt == PC.of(v, A)[n]))]
def req(c): return inv(c, c.this)
def req_bit(c):
    return inv(c, c.this) + [("bit is not negative", Z(c.a[1], 32) >= 0)]
def raises_oob(c):
    return [(EXC_OOB, Z(c.a[1], 32) >= Z(c.fld(c.this, "_size"), 32))]
EXC_OOB = EXC("IndexOutOfBounds")
def mods(c):
    return [(larr(c, c.this, "bits")[0], 0, 1), loc(c, c.this, "_count")]
def same_else(c, k, newbit):
    """exactly bit k becomes newbit"""
    A0, n, size, cnt0, _ = parts(c.old, c.this); A, n1, s1, cnt, _ = parts(c, c.this)
    k64 = sx(k); kb = z3.LShR(k64, 3)
    PC.upd(c, A0, A, kb)
    pcdef(c, A0[kb], A[kb])
    return [("every bit as specified", FA(lambda j: Imp(And(j >= 0, j < 8 * n), bit(A, j) == z3.If(j == k64, newbit(bit(A0, j)), bit(A0, j))))),
            ("only one byte changes", FA(lambda i: Imp(i != kb, A[i] == A0[i])))] + inv(c, c.this)
def e_set(c): return same_else(c, Z(c.a[1], 32), lambda b: z3.BitVecVal(1, 1))
def e_clear(c): return same_else(c, Z(c.a[1], 32), lambda b: z3.BitVecVal(0, 1))
def e_gas(c):
    A0 = parts(c.old, c.this)[0]
    return [("returns the previous bit", ZB(c.ret) == (bit(A0, sx(Z(c.a[1], 32))) == 1))] + e_set(c)
def e_get(c):
    A0 = parts(c.old, c.this)[0]
    return [("returns the bit", ZB(c.ret) == (bit(A0, sx(Z(c.a[1], 32))) == 1))]
def e_count(c):
    A, n, size, cnt, _ = parts(c, c.this); A0 = parts(c.old, c.this)[0]
    return [("number of bits set", Z(c.ret, 32) == PC.of(c, A0)[n])] + inv(c, c.this)
def cnt_inv(c):
    A, n, size, cnt, _ = parts(c, c.this)
    i, s, end = sx(Z(c.var("i"), 32)), Z(c.var("c"), 32), sx(Z(c.var("end"), 32))
    return [("partial sum", And(i >= 0, i <= end, end == n, s == PC.of(c, A)[i]))]
def m_count(c): return [loc(c, c.this, "_count")]
ret32 = lambda c: z3.BitVec(uniq("r"), 32)
cs = []
def C(*a, **k): cs.append(Contract(BV + "::" + a[0], *a[1:], **k)); return cs[-1]
C("BitVector", 1, name="BitVector::BitVector(n)", pred=lambda d: "(int)" in d, setup=lambda b: [b.obj("bv", BV), b.i32("n")], requires=lambda c: [Z(c.a[1], 32) >= 0],
  ensures=lambda c: [("all bits clear", FA(lambda i: Imp(rng(i, 0, parts(c, c.this)[1]), parts(c, c.this)[0][i] == 0))), ("size", parts(c, c.this)[2] == Z(c.a[1], 32)), ("count 0", parts(c, c.this)[3] == 0),
                     ("room for every bit", And(parts(c, c.this)[1] * 8 > sx(Z(c.a[1], 32)), parts(c, c.this)[1] == (sx(Z(c.a[1], 32)) >> 3) + 1))])
C("set", 1, setup=setup("bit"), requires=req_bit, raises=raises_oob, modifies=mods, ensures=e_set)
C("clear", 1, setup=setup("bit"), requires=req_bit, raises=raises_oob, modifies=mods, ensures=e_clear)
C("getAndSet", 1, setup=setup("bit"), requires=req_bit, raises=raises_oob, modifies=mods, ensures=e_gas)
C("get", 1, setup=setup("bit"), requires=lambda c: req_bit(c) + [Z(c.a[1], 32) < Z(c.fld(c.this, "_size"), 32)], modifies=lambda c: [], ensures=e_get)
C("size", 0, setup=setup(), requires=req, modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 32) == Z(c.fld(c.this, "_size"), 32)], ret=ret32)
C("count", 0, setup=setup(), requires=req, modifies=m_count, ensures=e_count, ret=ret32, loops=[LoopSpec(cnt_inv, dec=lambda c: sx(Z(c.var("end"), 32)) - sx(Z(c.var("i"), 32)), name="count loop")])
C("getRecomputedCount", 0, setup=setup(), requires=req, modifies=lambda c: [], ensures=e_count, ret=ret32, loops=[LoopSpec(cnt_inv, dec=lambda c: sx(Z(c.var("end"), 32)) - sx(Z(c.var("i"), 32)), name="recount loop")])

# ---- subset
def retbv(c):
    return c.vc.load(c.st, c.a[0], PTR)
def sub_spec(A, n, s, sh, k):
    cur, nx = z3.If(k + s >= n, z3.BitVecVal(0, 32), zx(A[k + s], 32)), z3.If(k + s + 1 >= n, z3.BitVecVal(0, 32), zx(A[k + s + 1], 32))
    return z3.Extract(7, 0, z3.LShR(cur, sh) | (nx << (8 - sh)))
def sub_inv(c):
    A, n, size, cnt, reg = parts(c, c.cargs[1])
    start = Z(c.cargs[2], 32)
    loc_ = c.cell("bits"); r2, n2 = larr(c, loc_)
    N = c.arr(r2); i = sx(Z(c.var("i"), 32)); sh = start & 7; s = sx(z3.LShR(start, 3))
    return [("bytes filled so far", And(i >= 0, i <= sx(n2))), ("their bits", FA(lambda k: Imp(rng(k, 0, i), N[k] == sub_spec(A, n, s, sh, k))))]
def e_subset(c):
    A0, n, size, cnt, _ = parts(c.old, c.a[1]); start, end = Z(c.a[2], 32), Z(c.a[3], 32)
    r = retbv(c); A, n1, s1, c1, _ = parts(c, r)
    L = sx(end) - sx(start)
    return [("size", s1 == end - start), ("room as the file format needs", n1 == (L >> 3) + 1), ("exactly the bits of the range", FA(lambda j: Imp(And(j >= 0, j < L), bit(A, j) == bit(A0, sx(start) + j)))),
            ("no bit beyond the range", FA(lambda j: Imp(And(j >= L, j < 8 * n1), bit(A, j) == 0))), ("count unknown or exact", Or(c1 == -1, And(L == 0, c1 == 0)))]
C("subset", 2, setup=lambda b: [Ptr(b.vc.new_obj(b.st, "ret"))] + setup("start", "end")(b), requires=lambda c: inv(c, c.a[1]), modifies=lambda c: [(c.a[0].reg, 0, 16)],
  raises=lambda c: [(EXC_OOB, Or(Z(c.a[2], 32) < 0, Z(c.a[3], 32) > Z(c.fld(c.a[1], "_size"), 32), Z(c.a[3], 32) < Z(c.a[2], 32)))], ensures=e_subset, nouse=["BitVector::BitVector(n)"], maxunroll=80,
  loops=[LoopSpec(sub_inv, name="subset loop")])

# ---- dense format over the token stream
def setup_io(cls):
    def f(b):
        a = setup()(b)
        o = tok_setup(b, b.obj("io", cls, exact=False))
        return a + [b.sp(o)]
    return f
def io(c): return c.vc.load(c.st, c.a[1], PTR)
def e_wbits(c):
    o = io(c); p = c.old.ghost(o, "pos"); A, n, size, cnt, _ = parts(c.old, c.this); b = c.ghost(o, "blk")
    k = c.ghost(o, "kind"); v = c.ghost(o, "val")
    return [("size, count, then the bytes", And(c.ghost(o, "pos") == p + 3, k[p] == KINDS["Int"], v[p] == sx(size), k[p + 1] == KINDS["Int"], v[p + 1] == sx(PC.of(c, A)[n]), k[p + 2] == KINDS["Bytes"], v[p + 2] == n)),
            ("block holds the bits", FA(lambda j: Imp(rng(j, 0, n), z3.Select(b, p + 2, j) == A[j])))]
def m_io(c): return [(io(c).reg, "g:" + n, 0) for n in ("kind", "val", "blk", "pos")] + m_count(c)
C("writeBits", 1, setup=setup_io(OUT), requires=req, modifies=m_io, ensures=e_wbits)
def req_rbits(c):
    o = io(c); p = c.ghost(o, "pos"); k = c.ghost(o, "kind"); v = c.ghost(o, "val"); size = Z(c.fld(c.this, "_size"), 32)
    return [("a dense file of this size follows", And(size >= 0, k[p] == KINDS["Int"], k[p + 1] == KINDS["Bytes"], v[p + 1] == (sx(size) >> 3) + 1))]
def e_rbits(c):
    o = io(c); p = c.old.ghost(o, "pos"); A, n, size, cnt, _ = parts(c, c.this); b = c.ghost(o, "blk"); v = c.ghost(o, "val")
    return [("count as stored", sx(cnt) == v[p]), ("size unchanged", size == Z(c.old.fld(c.this, "_size"), 32)), ("storage", n == (sx(size) >> 3) + 1), ("bits as stored", FA(lambda j: Imp(rng(j, 0, n), A[j] == z3.Select(b, p + 1, j)))), ("consumed", c.ghost(o, "pos") == p + 2)]
C("readBits", 1, setup=setup_io(IN), requires=req_rbits, modifies=lambda c: None or [(io(c).reg, "g:pos", 0), loc(c, c.this, "_count"), loc3(c, 0), loc3(c, 8), loc3(c, 16)], ensures=e_rbits)
def loc3(c, o):
    q = c.sub(c.this, "bits"); return (q.reg, q.off + o, 8)
CONTRACTS = cs + TOKENS
TUS = ["util/BitVector.cpp"]
HARNESS = "c06.cpp"
SECS = 8
