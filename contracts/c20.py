"""C20: wildcard and fuzzy matching, against the recursive definitions of matching and of edit distance."""
from .common import *
from engine import strings
from engine.models import aname
WE, FE = "Lucene::WildcardTermEnum", "Lucene::FuzzyTermEnum"
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32 = z3.BitVecSort(32)
MAXN = 1 << 29
# ---------------------------------------------------------------- wildcards
# M(p, s): the pattern from p on matches the string from s on; RUN(p): where the run of stars that begins at p ends
MA, WA = z3.Array("MATCH", B64, B64, z3.BoolSort()), z3.Array("WITNESS", B64, B64, B64); RUN = z3.Function("RUN", B64, B64)
M = lambda p, s: z3.Select(MA, p, s)
WIT = lambda p, s: z3.Select(WA, p, s)
P, S = z3.Array("pattern_text", B64, B32), z3.Array("string_text", B64, B32)
STAR, ANY = 42, 63
def mdef(n, m, p, s): return M(p, s) == z3.If(p == n, s == m, z3.If(P[p] == STAR, Or(M(p + 1, s), And(s < m, M(p, s + 1))), And(s < m, Or(P[p] == ANY, P[p] == S[s]), M(p + 1, s + 1))))
def rundef(n, p): return And(RUN(p) >= p, RUN(p) <= n, RUN(p) == z3.If(And(p < n, P[p] == STAR), RUN(p + 1), p))
def lemma_up(n, m, p, s, r, i): return Imp(And(p >= 0, p < n, P[p] == STAR, s >= 0, s <= i, i <= m, r == RUN(p), M(r, i)), M(p, s))
def lemma_wit(n, m, p, s): return Imp(And(p >= 0, p <= n, s >= 0, s <= m, M(p, s)), And(WIT(p, s) >= s, WIT(p, s) <= m, M(RUN(p), WIT(p, s))))
def s_we(b):
    n, m = b.i64("pattern_length"), b.i64("string_length"); b.assume(n >= 0, n < MAXN, m >= 0, m < MAXN); q, r = [Ptr(b.vc.new_obj(b.st, x)) for x in ("pattern", "string")]; strings.new(b.vc, b.st, q, P, n, 4); strings.new(b.vc, b.st, r, S, m, 4)
    b.assume(FA(lambda p, s: Imp(And(p >= 0, p <= n, s >= 0, s <= m), mdef(n, m, p, s)), (64, 64), name="definition", trig=["MATCH"]), FA(lambda p: Imp(And(p >= 0, p <= n), rundef(n, p)), name="runs", trig=["RUN"]))
    b.assume(FA(lambda p, s: Imp(And(p >= 0, p <= n, s >= 0, s <= m), lemma_wit(n, m, p, s)), (64, 64), name="witness (lemma)", trig=["MATCH"]))
    p, s = b.i32("patternIdx"), b.i32("stringIdx")
    q.reg.tags.update(n=n, m=m); return [q, p, r, s]
def ix(c, a): return sx(Z(a[1], 32)), sx(Z(a[3], 32))
def r_we(c): p, s = ix(c, c.a); n, m = c.this.reg.tags["n"], c.this.reg.tags["m"]; return [("inside", And(p >= 0, p <= n, s >= 0, s <= m))]
def bool_(r): return r if z3.is_bool(r) else z3.BoolVal(r) if isinstance(r, bool) else (Z(r, 8) & 1) != 0
def e_we(c): return [("exactly when the pattern matches", bool_(c.ret) == M(*ix(c, c.a)))]
def we_inv(c):
    p0, s0 = ix(c, c.cargs); n, m = c.cargs[0].reg.tags["n"], c.cargs[0].reg.tags["m"]; p, s = sx(Z(c.var("p"), 32)), sx(Z(c.var("s"), 32)); return [("the rest decides", And(p >= 0, p <= n, s >= 0, s <= m, M(p0, s0) == M(p, s)))]
def end_inv(c):
    n, m = c.cargs[0].reg.tags["n"], c.cargs[0].reg.tags["m"]; p, w = sx(Z(c.var("p"), 32)), sx(Z(c.var("wildcardSearchPos"), 32)); j = bool_(c.var("justWildcardsLeft")); return [("only stars so far", And(w >= p, w <= n, M(p, m) == M(w, m), Or(j, And(w < n, P[w] != STAR, P[w] != ANY))))]
def run_inv(c):
    p, p0, s = sx(Z(c.var("p"), 32)), sx(Z(c.old("p"), 32)), sx(Z(c.old("s"), 32)); n, m = c.cargs[0].reg.tags["n"], c.cargs[0].reg.tags["m"]
    c.st.assume(FA(lambda r, i: lemma_up(n, m, p0, s, r, i), (64, 64), name="up (lemma)", trig=["MATCH"])); return [("stars", And(p >= p0, p <= n, RUN(p0) == RUN(p)))]
def back_inv(c):
    n, m = c.cargs[0].reg.tags["n"], c.cargs[0].reg.tags["m"]; p, s, i = sx(Z(c.var("p"), 32)), sx(Z(c.var("s"), 32)), sx(Z(c.var("i"), 32)); return [("no match further on", And(i >= s - 1, i <= m)), ("none", FA(lambda q, k: Imp(And(q == p, k > i, k <= m), Not(M(q, k))), (64, 64), name="none", trig=["MATCH"]))]
C(WE + "::wildcardEquals", 4, name="WildcardTermEnum::wildcardEquals by its contract (recursion)", assumed=True, requires=lambda c: [(n, f) for n, f in r_we(c)], modifies=lambda c: [], ensures=e_we, ret=lambda c: z3.Bool(uniq("matches")))
C(WE + "::wildcardEquals", 4, when=lambda c: False, setup=s_we, requires=r_we, modifies=lambda c: [], ensures=e_we, ret=lambda c: z3.Bool(uniq("matches")),
  loops=[LoopSpec(we_inv, name="positions"), LoopSpec(end_inv, name="end of the string"), LoopSpec(run_inv, name="stars"), LoopSpec(back_inv, name="continuations")])
# ---------------------------------------------------------------- lemmas
from check import Lemma
def l_up():
    n, m, p, s, i = z3.BitVecs("n m p s i", 64); dom = [n >= 0, n < MAXN, m >= 0, m < MAXN, p >= 0, p < n, P[p] == STAR]; f = lambda q, t: mdef(n, m, q, t)
    return [(dom + [rundef(n, p), rundef(n, p + 1), i >= 0, i <= m, M(RUN(p), i), f(p, i), Imp(And(p + 1 < n, P[p + 1] == STAR, M(RUN(p + 1), i)), M(p + 1, i))], [], M(p, i)), (dom + [s >= 0, s < i, i <= m, M(p, s + 1), f(p, s)], [], M(p, s))]
EX = z3.Array("EXISTS", B64, B64, z3.BoolSort())
def l_wit():
    n, m, p, s = z3.BitVecs("n m p s", 64); dom = [n >= 0, n < MAXN, m >= 0, m < MAXN, p >= 0, p <= n, s >= 0, s <= m, rundef(n, p)]; ex = lambda r, t: [Imp(M(r, t), z3.Select(EX, r, t)), Imp(And(t < m, z3.Select(EX, r, t + 1)), z3.Select(EX, r, t))]; r = RUN(p)
    return [(dom + [M(p, s), mdef(n, m, p, s)] + ex(r, s) + [Imp(And(p < n, P[p] == STAR, M(p + 1, s)), z3.Select(EX, RUN(p + 1), s)), Imp(And(p < n, P[p] == STAR, s < m, M(p, s + 1)), z3.Select(EX, r, s + 1))], [], z3.Select(EX, r, s))]
CONTRACTS = cs
LEMMAS = [Lemma("a match after a run of stars is a match from it (induction)", l_up), Lemma("a match from a run of stars has a match after it (induction)", l_wit)]
TUS = ["search/WildcardTermEnum.cpp", "search/FuzzyTermEnum.cpp"]
HARNESS = "c20.cpp"
SECS = 10
ASSUMPTIONS = ["patterns and strings of at most 2^29 characters", "std::wstring by the engine model", "termination of the recursion is not proved"]
