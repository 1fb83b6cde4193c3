"""C23: escaping query text; text forms of numbers."""
from .common import *
from engine import strings
from engine.models import aname
QP, SU = "Lucene::QueryParser", "Lucene::StringUtils"
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32 = z3.BitVecSort(32); MAXN = 1 << 26
TEXT = z3.Array("text", B64, B32)
# ---------------------------------------------------------------- a stream of wide characters (assumed contracts of the standard library)
OS = r"std::__cxx11::basic_ostringstream<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>"
def new_apply(vc, st, a, where=""):
    for n, v in (("out", z3.K(B64, z3.BitVecVal(0, 32))), ("olen", V(0))): st.w(a[0].reg)["g:" + n] = v
    return [(st, "ret", None)]
def str_apply(vc, st, a, where=""): strings.new(vc, st, a[0], st.mem[a[1].reg]["g:out"], st.mem[a[1].reg]["g:olen"]); return [(st, "ret", None)]
C(OS + "::basic_ostringstream", 0, name="standard library: wostringstream begins empty", assumed=True, apply=new_apply)
C(OS + "::~basic_ostringstream", 0, name="standard library: ~wostringstream", assumed=True, modifies=lambda c: [], ensures=lambda c: [])
C(OS + "::str", 0, name="standard library: wostringstream::str gives what was put", assumed=True, apply=str_apply)
def put(c, ch): o, n = c.old.ghost(c.a[0], "out"), c.old.ghost(c.a[0], "olen"); return [c.ghost(c.a[0], "out") == z3.Store(o, n, ch), c.ghost(c.a[0], "olen") == n + 1]
def sm(c): return [(c.a[0].reg, "g:out", 0), (c.a[0].reg, "g:olen", 0)]
def lit(c):
    v = strings.lit(c.vc, c.st, c.a[1]); assert v is not None and len(v) == 1; return z3.BitVecVal(v[0], 32)
isptr = lambda d: "wchar_t const*" in d.split("(")[-1] or "_CharT const*" in d or d.rstrip(")").endswith("*")
C("std::operator<<<wchar_t, std::char_traits<wchar_t>>", 2, pred=isptr, name="standard library: stream << text", assumed=True, modifies=sm, ensures=lambda c: put(c, lit(c)), ret=lambda c: c.a[0])
C("std::operator<<<wchar_t, std::char_traits<wchar_t>>", 2, pred=lambda d: not isptr(d), name="standard library: stream << character", assumed=True, modifies=sm, ensures=lambda c: put(c, Z(c.a[1], 32)), ret=lambda c: c.a[0])
for k in cs: k.fn_template = True
# ---------------------------------------------------------------- escaping
SPECIAL = '\\+-!():^[]"{}~*?|&'
def special(ch): return Or(*[ch == ord(x) for x in SPECIAL])
EP = z3.Function("escpos", B64, B64)
def EL(ch): return z3.If(special(ch), V(2), V(1))
def epdef(i): return EP(i + 1) == EP(i) + EL(TEXT[i])
def escaped(O, i, b=0): return FA(lambda j: Imp(And(j >= 0, j < i), z3.If(special(TEXT[j]), And(O[b + EP(j)] == ord("\\"), O[b + EP(j) + 1] == TEXT[j]), O[b + EP(j)] == TEXT[j])), name="escaped", trig=["text", "escpos"] )
def s_esc(b):
    n = b.i64("length"); b.assume(n >= 0, n < MAXN, EP(V(0)) == 0, FA(lambda i: Imp(And(i >= 0, i < n), epdef(i)), name="definition", trig=["text"]), FA(lambda i: Imp(And(i >= 0, i <= n), And(EP(i) >= i, EP(i) <= 2 * i)), name="bounds (lemma)", trig=["escpos"]))
    q = Ptr(b.vc.new_obj(b.st, "string")); strings.new(b.vc, b.st, q, TEXT, n, 4); q.reg.tags["n"] = n; return [ret_obj(b), q]
def e_esc(c): n = c.a[1].reg.tags["n"]; s = string_at(c, c.a[0]); return [("length", Z(s.len, 64) == EP(n)), ("every character, a backslash before exactly the special ones", escaped(s.arr, n, Z(s.start, 64)))]
def esc_inv(c):
    n = c.cargs[1].reg.tags["n"]; i = sx(Z(c.var("i"), 32)); o = c.cell("buffer"); O = c.ghost(o, "out"); L = c.ghost(o, "olen")
    c.st.assume(FA(lambda j: Imp(And(j >= 0, j < i), EP(j) + EL(TEXT[j]) <= EP(i)), name="inside (lemma)", trig=["text", "escpos"]))
    return [("place", And(i >= 0, i <= n, L == EP(i))), ("so far", escaped(O, i))]
C(QP + "::escape", 1, setup=s_esc, modifies=mods_string, ensures=e_esc, loops=[LoopSpec(esc_inv, name="characters")])
# ---------------------------------------------------------------- radix forms
def digit(ch): return z3.If(ch < ord("a"), ch - ord("0"), ch - ord("a") + 10)
H = z3.Function("horner", B64, B64); BASE = z3.BitVec("base", 32)
def okdigit(ch): return Or(And(ch >= ord("0"), ch <= ord("9")), And(ch >= ord("a"), ch <= ord("z")))
C("Lucene::UnicodeUtil::isDigit", 1, name="assumed: isDigit tells 0-9 from a-z", assumed=True, requires=lambda c: [("a digit of a radix form", okdigit(Z(c.a[0], 32)))], modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("isdigit")), ensures=lambda c: [c.ret == (Z(c.a[0], 32) <= ord("9"))])
def s_tl(b):
    n = b.i64("length"); neg = And(n > 0, TEXT[V(0)] == ord("-")); st = z3.If(neg, V(1), V(0)); sign = lambda d: z3.If(neg, -sx(d), sx(d)); base = b.i32("base")
    b.assume(n >= 0, n < MAXN, base >= 2, base <= 36, H(st) == 0, FA(lambda i: Imp(And(i >= st, i < n), And(okdigit(TEXT[i]), H(i + 1) == sx(base) * H(i) + sign(digit(TEXT[i])))), name="definition", trig=["text"]))
    q = Ptr(b.vc.new_obj(b.st, "string")); strings.new(b.vc, b.st, q, TEXT, n, 4); q.reg.tags.update(n=n, st=st); return [q, base]
def tl_inv(c):
    t = c.cargs[0].reg.tags; p = c.var("ptr"); i = Z(p.idx, 64); s = string_at(c, c.cargs[0]); return [("value so far", And(i >= t["st"], i <= t["n"], Z(c.var("longValue"), 64) == H(i)))]
C(SU + "::toLong", 2, setup=s_tl, ensures=lambda c: [("the number that the digits denote", Z(c.ret, 64) == H(c.a[0].reg.tags["n"]))], loops=[LoopSpec(tl_inv, name="digits")])
Q = z3.Function("quotient", B64, B64); NB = 64
def dch(d): return z3.If(z3.ULT(d, 10), z3.Extract(31, 0, d) + ord("0"), z3.Extract(31, 0, d) + (ord("a") - 10))
def s_ts(b):
    x, base = b.i64("value"), b.i32("base"); m = z3.If(x < 0, -x, x); B = sx(base)
    b.assume(base >= 2, base <= 36, Q(V(0)) == m, FA(lambda i: Imp(And(i >= 0, i <= NB), Q(i + 1) == z3.UDiv(Q(i), B)), name="definition", trig=["quotient"]), FA(lambda i: Imp(And(i >= 0, i <= NB), z3.LShR(Q(i), V(NB) - i) == 0), name="shrinks (lemma)", trig=["quotient"]))
    r = ret_obj(b); r.reg.tags.update(x=x, B=B); return [r, x, base]
def written(A, end, i, B): return FA(lambda k: Imp(And(k >= 0, k < i), And(A[end - 1 - k] == dch(z3.URem(Q(k), B)), Or(k == 0, Q(k) != 0))), name="digits", trig=["quotient"])
def ts_inv(c):
    t = c.cargs[0].reg.tags; p = c.var("ptr"); i = V(NB + 1) - Z(p.idx, 64); return [("place", And(i >= 0, i <= NB, Z(c.n(p.reg), 64) == NB + 2, Or(i == 0, Q(i) != 0))), ("what is left", Z(c.var("magnitude"), 64) == Q(i)), ("digits so far", written(c.arr(p.reg), V(NB + 1), i, t["B"]))]
def e_ts(c):
    t = c.a[0].reg.tags; s = string_at(c, c.a[0]); neg = t["x"] < 0; n = Z(s.len, 64); st = Z(s.start, 64); k = n - z3.If(neg, V(1), V(0))
    return [("sign", Imp(neg, s.arr[st] == ord("-"))), ("as many digits as needed", And(k >= 1, Q(k) == 0)), ("the digits", written(s.arr, st + n, k, t["B"]))]
C(SU + "::toString", 2, setup=s_ts, modifies=mods_string, ensures=e_ts, loops=[LoopSpec(ts_inv, name="digits")])
CONTRACTS = cs
from check import Lemma
def l_bounds():
    i, l = z3.BitVecs("i l", 64); h = [l >= 1, l <= 2, i >= 0, i < MAXN]; return [([EP(V(0)) == 0], [], And(EP(V(0)) >= 0, EP(V(0)) <= 0)), (h + [EP(i) >= i, EP(i) <= 2 * i, EP(i + 1) == EP(i) + l], [], And(EP(i + 1) >= i + 1, EP(i + 1) <= 2 * (i + 1)))]
def l_inside():
    j, m, l, l2 = z3.BitVecs("j m l l2", 64); h = [EP(j) >= 0, EP(j) <= 2 * MAXN, EP(m) >= 0, EP(m) <= 2 * MAXN, l >= 1, l <= 2, l2 >= 1, l2 <= 2]
    return [(h + [EP(j + 1) == EP(j) + l], [], EP(j) + l <= EP(j + 1)), (h + [EP(j) + l <= EP(m), EP(m + 1) == EP(m) + l2], [], EP(j) + l <= EP(m + 1))]
def l_shrink():
    x, i = z3.BitVecs("x i", 64); sh = lambda v, k: z3.LShR(v, V(NB) - k) == 0
    return [([], [], sh(x, V(0)))] + [([i >= 0, i < NB, sh(x, i)], [], sh(z3.UDiv(x, V(b)), i + 1)) for b in range(2, 37)]
HH = z3.Int("H")
def l_round():
    # the value denoted by the digits of a number: reading digit by digit what the quotients left (over the integers; b > 0)
    b, h, q, q2, r, m, p = z3.Ints("b h q q2 r m p"); return [([b >= 2, q == b * q2 + r, r >= 0, r < b, h == q2], [], b * h + r == q)]
LEMMAS = [Lemma("a quotient loses a bit at least (by induction, each radix)", l_shrink), Lemma("reading the digits from the front gives back each quotient (induction step)", l_round), Lemma("positions in the escaped text are bounded (induction)", l_bounds), Lemma("an escaped character ends before the next (induction)", l_inside)]
TUS = ["queryparser/QueryParser.cpp", "util/StringUtils.cpp"]
HARNESS = "c23.cpp"
SECS = 8
ASSUMPTIONS = ["strings of at most 2^26 characters", "std::wostringstream by assumed contracts", "radix forms are given with the digits 0-9 and a-z"]
