"""C02: text through UTF-8 and back."""
from .common import *
from engine.models import aname
EN, DE, SU = "Lucene::UTF8Encoder", "Lucene::UTF8Decoder", "Lucene::StringUtils"
cs = list(TOKENS)
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32, B8 = z3.BitVecSort(32), z3.BitVecSort(8)
MAXN = 1 << 26
TERM = 0x11ffff
# the standard encoding of one code point
U8L = z3.Function("u8len", B32, B64)
U8B = [z3.Function("u8byte%d" % k, B32, B8) for k in range(4)]
def u8len(c): return z3.If(z3.ULT(c, 0x80), V(1), z3.If(z3.ULT(c, 0x800), V(2), z3.If(z3.ULT(c, 0x10000), V(3), V(4))))
def grp(c, k): return z3.Extract(7, 0, z3.LShR(c, 6 * k)) & 0x3f | 0x80
def u8byte(c, k):
    top = lambda s, m: z3.Extract(7, 0, z3.LShR(c, s)) | m
    b2 = [top(6, 0xc0), grp(c, 0)]; b3 = [top(12, 0xe0), grp(c, 1), grp(c, 0)]; b4 = [top(18, 0xf0), grp(c, 2), grp(c, 1), grp(c, 0)]
    one = z3.Extract(7, 0, c) if k == 0 else z3.BitVecVal(0, 8)
    g = lambda b: b[k] if k < len(b) else z3.BitVecVal(0, 8)
    return z3.If(z3.ULT(c, 0x80), one, z3.If(z3.ULT(c, 0x800), g(b2), z3.If(z3.ULT(c, 0x10000), g(b3), g(b4))))
DEF = FA(lambda c: And([U8L(c) == u8len(c)] + [U8B[k](c) == u8byte(c, k) for k in range(4)]), (32,), name="utf8", trig=["u8len"])
def scalar(c): return And(z3.ULE(c, 0x10ffff), Or(z3.ULT(c, 0xd800), z3.UGT(c, 0xdfff)))
def textfacts(b, A, n, P):
    """A[0..n) are scalar values, P their byte positions"""
    b.assume(DEF, P(V(0)) == 0, n >= 0, n < MAXN)
    b.assume(FA(lambda i: Imp(rng(i, 0, n), And(scalar(A[i]), P(i + 1) == P(i) + U8L(A[i]), U8L(A[i]) >= 1, U8L(A[i]) <= 4)), name="text"))
    b.assume(FA(lambda i: Imp(And(i >= 0, i <= n), And(P(i) >= i, P(i) <= 4 * i)), name="bound (lemma)", trig=[P.name()]))
def below(P, A, i): return FA(lambda j: Imp(And(j >= 0, j < i), And(P(j) >= 0, P(j) + U8L(A[j]) <= P(i))), name="before", trig=[aname(A), P.name()])
def coded(B, o, P, A, i): return [("code point bytes, %d" % k, FA(lambda j, k=k: Imp(And(j >= 0, j < i), And(U8L(A[j]) >= 1, Or(U8L(A[j]) <= k, B[o + P(j) + k] == U8B[k](A[j])))), name="enc%d" % k, trig=[aname(A), P.name()])) for k in range(4)]
PE = z3.Function("bytepos", B64, B64)
# ---------------------------------------------------------------- encoding
def s_en(b):
    o = b.obj("encoder", EN); n = b.i64("length"); u = b.array("unicode", 4, n); f = b.i64("start"); b.vc.store(b.st, b.sub(o, "unicodeBegin"), PTR, Ptr(u, V(0))); b.vc.store(b.st, b.sub(o, "unicodeEnd"), PTR, Ptr(u, n))
    r = b.array("utf8", 1, b.i64("room")); u.tags.update(u=u, n=n, P=PE); textfacts(b, b.arr(u), n, PE); return [o, Ptr(r, V(0)), b.i32("room32")]
def et(c, o): return ps(c, o, "unicodeEnd", EN).reg.tags
def dt(c, o): return ps(c, o, "utf8End", DE).reg.tags
def ps(v, o, f, cls): return v.vc.load(v.st, v.sub(o, f, cls), PTR)
def r_en(c):
    o = c.this; n = et(c, o)["n"]; m = sx(Z(c.a[2], 32)); return [("the whole text", Z(ps(c, o, "unicodeEnd", EN).idx, 64) == n), ("room", And(m >= 4 * n, m >= 0, Z(c.a[1].idx, 64) + m <= Z(c.n(c.a[1].reg), 64), Z(c.a[1].idx, 64) == 0)), ("at the start", Z(ps(c, o, "unicodeBegin", EN).idx, 64) == 0), ("text of scalar values", FA(lambda i: Imp(rng(i, 0, n), And(scalar(c.arr(et(c, o)["u"])[i]), PE(i + 1) == PE(i) + U8L(c.arr(et(c, o)["u"])[i]))), name="text"))]
def e_en(c):
    o = c.this; t = et(c, o); n, P = t["n"], t["P"]; A = c.old.arr(t["u"]); B = c.arr(c.a[1].reg); r = sx(Z(c.ret, 32))
    return [("bytes produced", r == z3.If(n == 0, V(-1), P(n)))] + coded(B, 0, P, A, n)
def en_inv(c):
    o = c.cargs[0]; t = et(c, o); n, P = t["n"], t["P"]; A = c.arr(t["u"]); x = Z(c.var("next"), 32); q = Z(ps(c, o, "unicodeBegin", EN).idx, 64); p = c.var("utf8.addr"); st = c.var("start")
    i = z3.If(x == TERM, q, q - 1); B = c.arr(p.reg)
    return [("place", And(i >= 0, i <= n, q <= n, Z(p.idx, 64) == P(i), Z(st.idx, 64) == 0)), ("next code point", z3.If(x == TERM, i == n, And(i < n, x == A[q - 1])))] + [("positions", below(P, A, i))] + coded(B, 0, P, A, i)
def m_en(c): o = c.this; return [loc(c, o, "unicodeBegin", EN), (c.a[1].reg, 0, 1)]
C(EN + "::utf32to8", 2, setup=s_en, requires=r_en, modifies=m_en, ret=lambda c: z3.BitVec(uniq("ret"), 32), ensures=e_en, loops=[LoopSpec(en_inv, name="code points")])
# ---------------------------------------------------------------- decoding
def s_de(b):
    o = b.obj("decoder", DE); n = b.i64("length"); A = z3.Array("text", B64, B32); m = b.i64("nbytes"); u = b.array("utf8", 1, m); b.vc.store(b.st, b.sub(o, "utf8Begin"), PTR, Ptr(u, V(0))); b.vc.store(b.st, b.sub(o, "utf8End"), PTR, Ptr(u, PE(n)))
    r = b.array("unicode", 4, b.i64("room")); u.tags.update(u=u, n=n, P=PE, A=A); b.assume(PE(n) <= m); textfacts(b, A, n, PE); b.assume(*[f for _, f in coded(b.arr(u), 0, PE, A, n)])
    b.assume(FA(lambda j: Imp(rng(j, 0, n), PE(j) + U8L(A[j]) <= PE(n)), name="inside (lemma)", trig=["bytepos", "text"])); return [o, Ptr(r, V(0)), b.i32("room32")]
def r_de(c):
    o = c.this; t = dt(c, o); n = t["n"]; m = sx(Z(c.a[2], 32)); return [("the whole text", Z(ps(c, o, "utf8End", DE).idx, 64) == t["P"](n)), ("room", And(m >= n, m >= 1, Z(c.a[1].idx, 64) + m <= Z(c.n(c.a[1].reg), 64), Z(c.a[1].idx, 64) == 0)), ("at the start", Z(ps(c, o, "utf8Begin", DE).idx, 64) == 0)] + coded(c.arr(t["u"]), 0, t["P"], t["A"], n)
def e_de(c):
    o = c.this; t = dt(c, o); n, A = t["n"], t["A"]; U = c.arr(c.a[1].reg); r = sx(Z(c.ret, 32))
    return [("characters produced", r == z3.If(n == 0, V(-1), n)), ("the text", FA(lambda j: Imp(rng(j, 0, n), U[j] == A[j])))]
def de_inv(c):
    o = c.cargs[0]; t = dt(c, o); n, P, A = t["n"], t["P"], t["A"]; x = Z(c.var("next"), 32); q = Z(ps(c, o, "utf8Begin", DE).idx, 64); i = sx(Z(c.var("position"), 32)); U = c.arr(c.cargs[1].reg); B = c.arr(t["u"])
    return [("place", And(i >= 0, i <= n, z3.If(x == TERM, And(i == n, q == P(n)), And(i < n, q == P(i) + 1, x == z3.ZeroExt(24, B[P(i)]))))), ("the text so far", FA(lambda j: Imp(rng(j, 0, i), U[j] == A[j]), name="text"))]
C(DE + "::utf8to32", 2, setup=s_de, requires=r_de, modifies=lambda c: [loc(c, c.this, "utf8Begin", DE), (c.a[1].reg, 0, 4)], ret=lambda c: z3.BitVec(uniq("ret"), 32), ensures=e_de, loops=[LoopSpec(de_inv, name="code points")])
# ---------------------------------------------------------------- arrays of text
def arrp(d): return "Lucene::Array<" in d
def s_tu(b):
    n = b.i64("length"); u = b.array("unicode", 4, n); u.tags.update(u=u, n=n, P=PE); textfacts(b, b.arr(u), n, PE); r = b.array("utf8", 1, b.i64("room")); m = b.inputs["room"]; b.assume(m >= 4 * n, m < (1 << 30))
    a = Ptr(b.vc.new_obj(b.st, "target")); b.lucene_array(a, r, z3.Extract(31, 0, m)); a.reg.tags["r"] = r; return [Ptr(u, V(0)), z3.Extract(31, 0, n), a]
def e_tu(c):
    u = c.a[0].reg; t = u.tags; return [("bytes produced", sx(Z(c.ret, 32)) == t["P"](t["n"]))] + coded(c.arr(c.a[2].reg.tags["r"]), 0, t["P"], c.old.arr(u), t["n"])
C(SU + "::toUTF8", 3, name=SU + "::toUTF8(text, length, ByteArray)", setup=s_tu, pred=arrp, when=lambda c: False, ensures=e_tu)
def s_td(b):
    n = b.i64("length"); A = z3.Array("text", B64, B32); m = b.i64("nbytes"); u = b.array("utf8", 1, m); u.tags.update(u=u, n=n, P=PE, A=A); b.assume(PE(n) <= m); textfacts(b, A, n, PE); b.assume(*[f for _, f in coded(b.arr(u), 0, PE, A, n)])
    b.assume(FA(lambda j: Imp(rng(j, 0, n), PE(j) + U8L(A[j]) <= PE(n)), name="inside (lemma)", trig=["bytepos", "text"])); k = b.i64("room"); b.assume(k >= n, k >= 1, k < (1 << 30))
    r = b.array("unicode", 4, k); a = Ptr(b.vc.new_obj(b.st, "target")); b.lucene_array(a, r, z3.Extract(31, 0, k)); a.reg.tags["r"] = r; return [Ptr(u, V(0)), z3.Extract(31, 0, PE(n)), a]
def e_td(c):
    t = c.a[0].reg.tags; n, A = t["n"], t["A"]; U = c.arr(c.a[2].reg.tags["r"]); return [("characters produced", sx(Z(c.ret, 32)) == n), ("the text", FA(lambda j: Imp(rng(j, 0, n), U[j] == A[j])))]
C(SU + "::toUnicode", 3, name=SU + "::toUnicode(bytes, length, CharArray)", setup=s_td, pred=arrp, when=lambda c: False, ensures=e_td)
# ---------------------------------------------------------------- strings in files
from engine import strings
def notfield(k): return lambda c: True
NOS = [SU + "::toUTF8(text, length, ByteArray)", SU + "::toUnicode(bytes, length, CharArray)"]
def s_ws(b):
    o = b.obj("output", OUT, exact=False); tok_setup(b, o); n = b.i64("length"); A = z3.Array("text", B64, B32); s = Ptr(b.vc.new_obj(b.st, "string")); reg = strings.new(b.vc, b.st, s, A, n, 4)
    reg.tags.update(u=reg, n=n, P=PE); textfacts(b, A, n, PE); s.reg.tags.update(n=n, A=A); b.assume(FA(lambda j: Imp(rng(j, 0, n), PE(j) + U8L(A[j]) <= PE(n)), name="inside (lemma)", trig=["bytepos", "text"])); return [o, s]
def e_ws(c):
    p = c.old.ghost(c.this, "pos"); t = c.a[1].reg.tags; n, A = t["n"], t["A"]; k0, v0 = tok(c, c.this, p); k1, v1 = tok(c, c.this, p + 1); B = c.ghost(c.this, "blk")
    return [("two items", c.ghost(c.this, "pos") == p + 2), ("number of bytes", And(k0 == KINDS["VInt"], v0 == PE(n))), ("a block of so many bytes", And(k1 == KINDS["Bytes"], v1 == PE(n)))] + [(nm, f) for nm, f in coded2(B, p + 1, PE, A, n)]
def coded2(B, q, P, A, i): return [("code point bytes, %d" % k, FA(lambda j, k=k: Imp(And(j >= 0, j < i), And(U8L(A[j]) >= 1, Or(U8L(A[j]) <= k, z3.Select(B, q, P(j) + k) == U8B[k](A[j])))), name="enc%d" % k, trig=[aname(A), P.name()])) for k in range(4)]
C(OUT + "::writeString", 1, setup=s_ws, ensures=e_ws)
def s_rs(b):
    o = b.obj("input", IN, exact=False); tok_setup(b, o); n = b.i64("length"); A = z3.Array("text", B64, B32); b.assume((Z(b.fld(o, "preUTF8Strings"), 8) & 1) == 0); textfacts(b, A, n, PE); p = b.ghost(o, "pos"); B = b.ghost(o, "blk"); k0, v0 = tok(b, o, p); k1, v1 = tok(b, o, p + 1)
    b.assume(k0 == KINDS["VInt"], v0 == PE(n), k1 == KINDS["Bytes"], v1 == PE(n)); b.assume(*[f for _, f in coded2(B, p + 1, PE, A, n)]); b.assume(FA(lambda j: Imp(rng(j, 0, n), PE(j) + U8L(A[j]) <= PE(n)), name="inside (lemma)", trig=["bytepos", "text"]))
    o.reg.tags.update(n=n, A=A); return [ret_obj(b), o]
RB = rd_bytes()
def rb_ens(c):
    r, t = c.a[1].reg, c.this.reg.tags; r.tags.update(u=r, n=t["n"], A=t["A"], P=PE); return RB.ensures(c)
cs.insert(0, Contract(IN + "::readBytes", 3, assumed=True, when=lambda c: "n" in c.this.reg.tags, requires=RB.requires, modifies=RB.modifies, ensures=rb_ens, name="tokens: IndexInput::readBytes (the destination holds the text)"))
def e_rs(c):
    t = c.a[1].reg.tags; n, A = t["n"], t["A"]; s = string_at(c, c.a[0]); return [("length", Z(s.len, 64) == n), ("characters", FA(lambda j: Imp(rng(j, 0, n), s.arr[Z(s.start, 64) + j] == A[j]))), ("items consumed", c.ghost(c.a[1], "pos") == c.old.ghost(c.a[1], "pos") + 2)]
C(IN + "::readString", 0, setup=s_rs, ensures=e_rs)
# ---------------------------------------------------------------- lemmas
from check import Lemma
def l_bound():
    i = z3.BitVec("i", 64); l = z3.BitVec("l", 64); h = [l >= 1, l <= 4, i >= 0, i < MAXN]
    return [([], [], And(V(0) >= 0)), (h + [PE(i) >= i, PE(i) <= 4 * i, PE(i + 1) == PE(i) + l], [], And(PE(i + 1) >= i + 1, PE(i + 1) <= 4 * (i + 1)))]
def l_inside():
    j, m, l, l2 = z3.BitVecs("j m l l2", 64); h = [PE(j) >= 0, PE(j) <= 4 * MAXN, PE(m) >= 0, PE(m) <= 4 * MAXN, l >= 1, l <= 4, l2 >= 1, l2 <= 4]
    return [(h + [PE(j + 1) == PE(j) + l], [], PE(j) + l <= PE(j + 1)), (h + [PE(j) + l <= PE(m), PE(m + 1) == PE(m) + l2], [], PE(j) + l <= PE(m + 1))]
def l_prefix():
    c, d = z3.BitVecs("c d", 32)
    return [([scalar(c), scalar(d), u8len(c) == u8len(d)] + [Or(u8len(c) <= k, u8byte(c, k) == u8byte(d, k)) for k in range(4)], [], c == d), ([scalar(c), scalar(d), u8byte(c, 0) == u8byte(d, 0)], [], u8len(c) == u8len(d))]
CONTRACTS = cs
LEMMAS = [Lemma("byte positions are bounded (induction)", l_bound), Lemma("a code point's bytes end before the end (induction)", l_inside), Lemma("the encoding of a code point determines it, and its first byte its length", l_prefix)]
TUS = ["util/UTF8Stream.cpp", "util/StringUtils.cpp", "store/IndexOutput.cpp", "store/IndexInput.cpp", "util/Reader.cpp", "util/UnicodeUtils.cpp"]
HARNESS = "c02.cpp"
SECS = 12
ASSUMPTIONS = ["strings of at most 2^26 characters", "token streams: writeVInt/readVInt and block writes/reads are inverse to each other (C01, C03, C04)", "std::wstring and boost::shared_ptr by the engine models"]
