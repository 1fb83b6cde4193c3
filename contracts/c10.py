"""C10: combining sub-queries.  A sub-scorer is known by the set of documents it matches and by where it stands; the
combined scorers are proved to satisfy, over theirs, the very contract they rely on for their parts."""
from .common import *
from engine import sym
SC, DI = "Lucene::Scorer", "Lucene::DocIdSetIterator"
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32 = z3.BitVecSort(32); NM = z3.BitVecVal(0x7fffffff, 32); R32 = lambda c: z3.BitVec(uniq("doc"), 32)
def ispart(c): return isinstance(c.a[0], Ptr) and c.a[0].reg is not None and "M" in c.a[0].reg.tags
def M(o): f, k = o.reg.tags["M"], Z(o.idx, 64); return lambda d: f(k, d)
def cur(v, o): return v.st.mem[o.reg]["g:cur"]
def at(v, o): return cur(v, o)[Z(o.idx, 64)]
def found(m, lo, r, incl=False):
    """r is the first document after lo (from lo on) that matches, or none is left"""
    return [("a match or the end", Or(r == NM, m(r))), ("nothing between is skipped", FA(lambda d: Imp(And(d >= lo if incl else d > lo, d < r), Not(m(d))), (32,), name="gap"))]
def p_mod(c): return [(c.this.reg, "g:cur", 0)]
def p_step(c, lo, incl):
    o = c.this; r = Z(c.ret, 32); m = M(o)
    return [cur(c, o) == z3.Store(cur(c.old, o), Z(o.idx, 64), r), r > at(c.old, o), Or(r == NM, m(r))] + ([r >= lo] if incl else []) + [FA(lambda d: Imp(And(d >= lo if incl else d > lo, d < r), Not(m(d))), (32,), name="gap")]
for cls in (SC, DI):
    C(cls + "::docID", 0, name="part:%s::docID" % cls, assumed=True, when=ispart, modifies=lambda c: [], ret=R32, ensures=lambda c: [Z(c.ret, 32) == at(c, c.this)])
    C(cls + "::nextDoc", 0, name="part:%s::nextDoc" % cls, assumed=True, when=ispart, modifies=p_mod, ret=R32, requires=lambda c: [("not beyond its end", at(c, c.this) != NM)], ensures=lambda c: p_step(c, at(c.old, c.this), False))
    C(cls + "::advance", 1, name="part:%s::advance" % cls, assumed=True, when=ispart, modifies=p_mod, ret=R32, requires=lambda c: [("only forward", Z(c.a[1], 32) > at(c, c.this))], ensures=lambda c: p_step(c, Z(c.a[1], 32), True))
def parts(b, name, n, cls=SC):
    objs = b.array(name, 4096, n); objs.tags["vcls"] = cls; objs.tags["M"] = z3.Function("matches_" + name, B64, B32, z3.BoolSort())
    b.st.w(objs)["g:cur"] = z3.Array("at_" + name, B64, B32); return objs
# ---------------------------------------------------------------- all of them
CJ = "Lucene::ConjunctionScorer"
ALL = z3.Function("all_match", B32, z3.BoolSort()); WIT = z3.Function("one_that_does_not", B32, B64)
def s_cj(extra=lambda b: []):
    def g(b):
        o = b.obj("conjunction", CJ); n = b.i64("nscorers"); b.assume(n >= 1, n < (1 << 24)); objs = parts(b, "parts", n); o.reg.tags.update(objs=objs, n=n); m = objs.tags["M"]
        h = b.array("scorers", 16, n); h.tags["idrows"] = {0: objs, 8: None}; b.collection(b.sub(o, "scorers"), h, n)
        b.assume(FA(lambda k, d: Imp(And(rng(k, 0, n), ALL(d)), m(k, d)), (64, 32), name="all"), FA(lambda d: And(rng(WIT(d), 0, n), Imp(m(WIT(d), d), ALL(d))), (32,), name="wit", trig=["all_match"]))
        b.inputs["lastDoc"] = Z(b.fld(o, "lastDoc"), 32)
        return [o] + extra(b)
    return g
def cj(v, o): objs = o.reg.tags["objs"]; return o.reg.tags["n"], v.st.mem[objs]["g:cur"], objs.tags["M"]
def cj_on(c, o):
    n, A, m = cj(c, o); return ("every part is on a document of its own", FA(lambda k: Imp(rng(k, 0, n), And(A[k] >= 0, Or(A[k] == NM, m(k, A[k])))), name="on"))
def last(c, o): return Z(c.fld(o, "lastDoc"), 32)
def lo(v, o): n, A, m = cj(v, o); return A[0]
def r_next(c):
    o = c.this; n, A, m = cj(c, o)
    return [("parts in order", FA(lambda j, k: Imp(And(j >= 0, j <= k, k < n), A[j] <= A[k]), (64, 64), name="ord")), cj_on(c, o)]
def e_next(c):
    o = c.this; n, A, m = cj(c, o); r = Z(c.ret, 32); A0 = cj(c.old, o)[1]
    return [("not before the last part", r >= A0[n - 1]), ("all parts stand there", FA(lambda k: Imp(rng(k, 0, n), A[k] == r), name="here")), ("all match, or the end", Or(r == NM, ALL(r))), ("nothing between is skipped", FA(lambda d: Imp(And(d >= A0[n - 1], d < r), Not(ALL(d))), (32,), name="gap"))]
def cj_inv(c):
    o = c.cargs[0]; n, A, m = cj(c, o); f = sx(Z(c.var("first"), 32)); doc = Z(c.var("doc"), 32); A0 = cj(c.pre, o)[1]
    return [("place", And(f >= 0, f < n)), cj_on(c, o), ("those moved are in order", FA(lambda j, k: Imp(And(j >= 0, j <= k, k < f), A[j] <= A[k]), (64, 64), name="rot1")), ("those to move are in order", FA(lambda j, k: Imp(And(j >= f, j <= k, k < n), A[j] <= A[k]), (64, 64), name="rot2")), ("those to move are not after those moved", FA(lambda j, k: Imp(And(j >= f, j < n, k >= 0, k < f), A[j] <= A[k]), (64, 64), name="rot3")), ("the last moved is furthest", A[z3.If(f == 0, n - 1, f - 1)] == doc),
            ("not back", doc >= A0[n - 1]), ("nothing between is skipped", FA(lambda d: Imp(And(d >= A0[n - 1], d < doc), Not(ALL(d))), (32,), name="gap"))]
def cj_mod(c): return [(c.this.reg.tags["objs"], "g:cur", 0)]
C(CJ + "::doNext", 0, setup=s_cj(), requires=r_next, modifies=cj_mod, ret=R32, ensures=e_next, loops=[LoopSpec(cj_inv, name="leapfrog")])
def cj_state(c, o):
    n, A, m = cj(c, o); l = last(c, o); x = A[n - 1]
    return [("standing", Or(l == NM, And(l >= -1, x != NM, ALL(x), x >= 0, Or(l == -1, l == x)))), ("all parts stand together", FA(lambda k: Imp(And(l != NM, rng(k, 0, n)), A[k] == x), name="here")), ("before the first", FA(lambda d: Imp(And(l == -1, d >= 0, d < x), Not(ALL(d))), (32,), name="gap0"))]
def e_cj(incl):
    def g(c):
        o = c.this; r = Z(c.ret, 32); l0 = last(c.old, o); lo_ = Z(c.a[1], 32) if incl else l0; st = cj_state(c, o)
        return [("where it stands", last(c, o) == r), ("forward", Or(r == NM, r > l0))] + ([("not before the target", r >= lo_)] if incl else []) + \
               [("all match, or the end", Or(r == NM, And(r >= 0, ALL(r)))), ("nothing between is skipped", FA(lambda d: Imp(And(l0 != NM, d >= 0, d >= lo_ if incl else d > lo_, d < r), Not(ALL(d))), (32,), name="gap"))] + st
    return g
def cj_mod2(c): return cj_mod(c) + [loc(c, c.this, "lastDoc")]
C(CJ + "::nextDoc", 0, setup=s_cj(), requires=lambda c: cj_state(c, c.this), modifies=cj_mod2, ret=R32, ensures=e_cj(False))
C(CJ + "::advance", 1, setup=s_cj(lambda b: [b.i32("target")]), requires=lambda c: cj_state(c, c.this) + [("a later target", And(Z(c.a[1], 32) >= 0, Z(c.a[1], 32) > last(c, c.this)))], modifies=cj_mod2, ret=R32, ensures=e_cj(True))
# ---------------------------------------------------------------- required but not excluded
RE = "Lucene::ReqExclScorer"
def s_re(req, exc, extra=lambda b: []):
    def g(b):
        o = b.obj("reqexcl", RE); x = Ptr(parts(b, "required", V(1)), 0); y = Ptr(parts(b, "excluded", V(1), DI), 0); o.reg.tags.update(x=x, y=y)
        b.set_sp(o, "reqScorer", x if req else NULL); b.set_sp(o, "exclDisi", y if exc else NULL); b.inputs["doc"] = Z(b.fld(o, "doc"), 32); b.inputs["required_at"] = at(b, x); b.inputs["excluded_at"] = at(b, y)
        return [o] + extra(b)
    return g
def re_live(c, o): return c.vc.load(c.st, c.sub(o, "reqScorer"), PTR), c.vc.load(c.st, c.sub(o, "exclDisi"), PTR)
def re_m(o): a, b = M(o.reg.tags["x"]), M(o.reg.tags["y"]); return lambda d: And(a(d), Not(b(d)))
def null(p): return p.reg is None
def re_state(c, o, moved=False):
    """what the scorer knows: past the end once the required part is gone; no excluded document left from here on once
    the exclusion is gone; the exclusion stands on its first document not before all those already decided"""
    x, y = re_live(c, o); ox, oy = o.reg.tags["x"], o.reg.tags["y"]; d = Z(c.fld(o, "doc"), 32); a, b = at(c, ox), at(c, oy); my = M(oy)
    out = [("required part is on this document", d == a if not null(x) else d == NM)] if not moved else []
    if not null(y): out += [("exclusion is on one of its documents or at its start", And(b >= -1, Or(b == -1, b == NM, my(b)))), ("exclusion has passed nothing later", FA(lambda e: Imp(And(e > a, e >= 0, e < b), Not(my(e))), (32,), name="exgap"))]
    elif not null(x): out += [("no exclusion from here on", FA(lambda e: Imp(And(e > a, e >= 0, e < NM), Not(my(e))), (32,), name="noex"))]
    return out
def mat(c, o): ox = o.reg.tags["x"]; return at(c, ox)
def r_ton(c):
    o = c.this; oy = o.reg.tags["y"]; a, b = mat(c, o), at(c, oy); my = M(oy)
    return [("required part on a document", And(a >= 0, a != NM, M(o.reg.tags["x"])(a))), ("exclusion is on one of its documents or at its start", And(b >= -1, Or(b == -1, b == NM, my(b)))), ("exclusion has passed nothing undecided", FA(lambda e: Imp(And(e >= a, e < b), Not(my(e))), (32,), name="exgap"))]
def e_ton(c):
    o = c.this; r = Z(c.ret, 32); m = re_m(o); a0 = mat(c.old, o)
    x, y = re_live(c, o); a = mat(c, o); oy = o.reg.tags["y"]; my = M(oy); b = at(c, oy)
    return [("not before", r >= a0)] + found(m, a0, r, True) + [("required part stands there, or is gone at the end", And(r == a, r != NM) if not null(x) else r == NM)] + \
        ([("exclusion is on one of its documents or at its start", And(b >= -1, Or(b == -1, b == NM, my(b)))), ("exclusion has passed nothing later", FA(lambda e: Imp(And(e > a, e >= 0, e < b), Not(my(e))), (32,), name="exgap"))] if not null(y) else
         ([("no exclusion from here on", FA(lambda e: Imp(And(e > a, e >= 0, e < NM), Not(my(e))), (32,), name="noex"))] if not null(x) else []))
def re_inv(c):
    o = c.cargs[0]; a0 = mat(c.pre, o); oy = o.reg.tags["y"]; my = M(oy); m = re_m(o); a, b = mat(c, o), at(c, oy); q, e_ = Z(c.var("reqDoc"), 32), Z(c.var("exclDoc"), 32)
    return [("where the parts are", And(q == a, e_ == b, a >= 0, a != NM, a >= a0, M(o.reg.tags["x"])(a))), ("exclusion is on one of its documents or at its start", And(b >= -1, Or(b == -1, b == NM, my(b)))),
            ("exclusion has passed nothing undecided", FA(lambda e: Imp(And(e >= a, e < b), Not(my(e))), (32,), name="exgap")), ("nothing between is skipped", FA(lambda d: Imp(And(d >= a0, d < a), Not(m(d))), (32,), name="gap"))]
ton = C(RE + "::toNonExcluded", 0, when=lambda c: False, setup=s_re(True, True), requires=r_ton, ensures=e_ton, loops=[LoopSpec(re_inv, name="until not excluded")])
def ton_apply(vc, st, a, where=""):
    """as the contract above; the parts still held afterwards: both, only the required one, or only the exclusion"""
    o = a[0]; ox, oy = o.reg.tags["x"], o.reg.tags["y"]; outs = []; old = st.fork()
    for n, f in r_ton(Ctx(vc, st, View(vc, st), a, call=True)):
        for g in sym._flat([f]): vc.oblige(st, g, "pre of toNonExcluded: %s" % n, "pre", where)
    for kx, ky in ((1, 1), (1, 0), (0, 1)):
        s = st.fork(); r = z3.BitVec(uniq("doc"), 32)
        for q, keep, f in ((ox, kx, "reqScorer"), (oy, ky, "exclDisi")):
            s.w(q.reg)["g:cur"] = z3.Array(uniq("at"), B64, B32)
            if s.rec is not None: s.rec.add((q.reg, "g:cur", 0))
            if not keep: p = View(vc, s).sub(o, f); vc.store(s, p, PTR, NULL); vc.store(s, p.at(8), PTR, NULL)
        c = Ctx(vc, s, View(vc, old), a, call=True); c.ret = r
        for n, f in e_ton(c): s.assume(f)
        outs.append((s, "ret", r))
    return outs
C(RE + "::toNonExcluded", 0, name="toNonExcluded by its contract", assumed=True, apply=ton_apply)
def e_re(incl):
    def g(c):
        o = c.this; r = Z(c.ret, 32); m = re_m(o); x0, _ = re_live(c.old, o); d0 = Z(c.old.fld(o, "doc"), 32); d = Z(c.fld(o, "doc"), 32)
        if null(x0): return [("stays at the end", r == NM), ("where it stands", d == r)]
        lo_ = Z(c.a[1], 32) if incl else d0
        return [("where it stands", d == r), ("forward", r > d0)] + ([("not before the target", r >= lo_)] if incl else []) + found(m, lo_, r, incl) + re_state(c, o)
    return g
for nm, n, ex in (("nextDoc", 0, lambda b: []), ("advance", 1, lambda b: [b.i32("target")])):
    for r_, e_, w in ((True, True, "both parts"), (True, False, "exclusion used up"), (False, True, "at the end")):
        def rq(c, n=n, r_=r_, e_=e_):
            o = c.this; a = mat(c, o)
            return re_state(c, o) + [("position", And(a >= -1, a != NM) if r_ else True)] + ([("a later target", And(Z(c.a[1], 32) >= 0, Z(c.a[1], 32) > Z(c.fld(o, "doc"), 32)))] if n and r_ else [])
        C(RE + "::" + nm, n, name="%s::%s, %s" % (RE, nm, w), when=lambda c: False, setup=s_re(r_, e_, ex), requires=rq, ensures=e_re(bool(n)))
# ---------------------------------------------------------------- at least so many of them
DS, SQ = "Lucene::DisjunctionSumScorer", "Lucene::ScorerDocQueue"
E = z3.BitVec("any_document", 32)         # an arbitrary document: what holds for it holds for every document
o1 = lambda f: z3.If(f, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
AS = z3.ArraySort(B64, B32)
ATE, LIVE = z3.Function("atE", AS, B32), z3.Function("left", AS, B32)      # number of parts at E / with documents left; of these only the lemmas below are used
ME = z3.Array("matchesE", B64, z3.BitVecSort(32)); CE = z3.BitVec("number_matching", 32)
def ds(v, o): t = o.reg.tags; return t["n"], v.st.mem[t["objs"]]["g:cur"], t["objs"].tags["M"]
def qn(v, o): return v.st.mem[o.reg.tags["q"].reg]["g:size"]
def qt(v, o): return v.st.mem[o.reg.tags["q"].reg]["g:top"]
def s_ds(extra=lambda b: []):
    def g(b):
        o = b.obj("disjunction", DS, exact=False); n = b.i64("nscorers"); b.assume(n >= 2, n < (1 << 24)); objs = parts(b, "parts", n); q = b.obj("queue", SQ); o.reg.tags.update(objs=objs, n=n, q=q); q.reg.tags.update(objs=objs, n=n)
        b.set_sp(o, "scorerDocQueue", q); b.st.w(q.reg)["g:size"] = z3.BitVec("queued", 32); b.st.w(q.reg)["g:top"] = z3.BitVec("least", 64); m = objs.tags["M"]
        b.assume(FA(lambda k: ME[k] == o1(m(k, E)), name="matchesE")); b.assume(E >= 0, E != NM, CE >= 0, CE <= 1 << 24)
        b.inputs.update(currentDoc=Z(b.fld(o, "currentDoc"), 32), minimum=Z(b.fld(o, "minimumNrMatchers"), 32), queued=qn(b, o), number_matching=CE, any_document=E)
        return [o] + extra(b)
    return g
def live(c, o, A=None): n, A_, m = ds(c, o); return LIVE(A_ if A is None else A)
def ate(c, o, A=None): n, A_, m = ds(c, o); return ATE(A_ if A is None else A)
def q_ok(c, o):
    """what the queue keeps: all parts that have documents left, by their document; the least first"""
    n, A, m = ds(c, o); t = qt(c, o); c.st.assume(E >= 0)
    return [("as many queued as have documents left", And(qn(c, o) == live(c, o), qn(c, o) >= 0, qn(c, o) <= 1 << 24)), ("the least is on top", And(rng(t, 0, n), (A[t] == NM) == (qn(c, o) == 0))), ("nothing is before the top", FA(lambda k: Imp(rng(k, 0, n), And(A[k] >= 0, A[t] <= A[k])), name="top"))]
def k1(c, o, on=True):
    n, A, m = ds(c, o); return ("no part has passed the document without matching it not", FA(lambda k: Imp(And(on, rng(k, 0, n), A[k] > E), ME[k] == 0), name="k1"))
def dso(c, o): return ("parts are on documents of their own", FA(lambda k: Imp(And(rng(k, 0, ds(c, o)[0]), ds(c, o)[1][k] == E), ME[k] == 1), name="own"))
def lem(c, o):
    """the counting lemmas below, at the present positions"""
    n, A, m = ds(c, o); w1, w2, w3 = [z3.BitVec(uniq("wit"), 64) for _ in range(3)]
    c.st.assume(Or(ate(c, o) == CE, And(rng(w1, 0, n), (A[w1] == E) != (ME[w1] == 1))), Or(CE <= live(c, o), And(rng(w2, 0, n), ME[w2] == 1, A[w2] == NM)), Or(ate(c, o) == 0, And(rng(w3, 0, n), A[w3] == E)))
def qcall(nm, n, req, ret=None, mov=None):
    def when(c): return isinstance(c.a[0], Ptr) and c.a[0].reg is not None and "objs" in c.a[0].reg.tags
    def ap(vc, st, a, where=""):
        q = a[0]; ob = q.reg.tags["objs"]; N = q.reg.tags["n"]; A = st.mem[ob]["g:cur"]; t = st.mem[q.reg]["g:top"]; s = st.mem[q.reg]["g:size"]; c = Ctx(vc, st, View(vc, st), a, call=True)
        for w, f in req(c, A, t, s): vc.oblige(st, f, "pre of ScorerDocQueue::%s: %s" % (nm, w), "pre", where)
        if mov is None: return [(st, "ret", ret(A, t, s))]
        r = z3.BitVec(uniq("doc"), 32); lo_, incl = mov(c, A, t); m = ob.tags["M"]
        A2 = z3.Store(A, t, r); t2, s2 = z3.BitVec(uniq("least"), 64), z3.BitVec(uniq("queued"), 32)
        st.w(ob)["g:cur"] = A2; st.w(q.reg)["g:top"] = t2; st.w(q.reg)["g:size"] = s2
        if st.rec is not None: st.rec.update([(ob, "g:cur", 0), (q.reg, "g:top", 0), (q.reg, "g:size", 0)])
        c = Ctx(vc, st, c.old, a, call=True)
        st.assume(r > A[t], r >= lo_ if incl else True, Or(r == NM, m(t, r)), Imp(And(E >= lo_ if incl else E > lo_, E < r), Not(m(t, E))), Imp(r == E, m(t, E)), s2 == LIVE(A2), s2 == s - o1(r == NM), rng(t2, 0, N), (A2[t2] == NM) == (s2 == 0), s2 >= 0,
                  FA(lambda k: Imp(rng(k, 0, N), And(A2[k] >= 0, A2[t2] <= A2[k])), name="top"), ME[t] == o1(m(t, E)),
                  Imp(rng(t, 0, N), ATE(A2) == ATE(A) + o1(r == E) - o1(A[t] == E)))      # point-update lemma
        return [(st, "ret", r != NM)]
    C(SQ + "::" + nm, n, name="abstract: ScorerDocQueue::" + nm, assumed=True, when=when, apply=ap)
some = lambda c, A, t, s: [("not empty", s > 0)]
qcall("size", 0, lambda c, A, t, s: [], ret=lambda A, t, s: s); qcall("topDoc", 0, some, ret=lambda A, t, s: A[t])
qcall("topNextAndAdjustElsePop", 0, some, mov=lambda c, A, t: (A[t], False)); qcall("topSkipToAndAdjustElsePop", 1, lambda c, A, t, s: some(c, A, t, s) + [("only forward", Z(c.a[1], 32) > A[t])], mov=lambda c, A, t: (Z(c.a[1], 32), True))
def qs_ap(vc, st, a, where=""): return [(st, "ret", z3.FP(uniq("score"), z3.FPSort(11, 53)))]
C(SQ + "::topScore", 0, name="abstract: ScorerDocQueue::topScore", assumed=True, apply=qs_ap)
def dsf(c, o): return Z(c.fld(o, "currentDoc"), 32), Z(c.fld(o, "minimumNrMatchers"), 32), Z(c.fld(o, "_nrMatchers"), 32)
def ds_min(v, o): n, A, m = ds(v, o); return A[qt(v, o)]
def r_aac(c):
    o = c.this; n, A, m = ds(c, o); d, k, _ = dsf(c, o)
    return q_ok(c, o) + [("enough left", And(k >= 1, k <= qn(c, o)))] + [k1(c, o, E >= ds_min(c, o)), dso(c, o)]
def aac_mod(c): o = c.this; q = o.reg.tags["q"].reg; return [(o.reg.tags["objs"], "g:cur", 0), (q, "g:size", 0), (q, "g:top", 0)] + [loc(c, o, f) for f in ("currentDoc", "_nrMatchers", "currentScore")]
def after(c, o, d, k, nm, ret, lo_, incl):
    """what is settled: documents from lo_ to d by d's answer"""
    n, A, m = ds(c, o)
    return q_ok(c, o) + [dso(c, o), k1(c, o, E > d), ("parts are past it", FA(lambda j: Imp(rng(j, 0, n), A[j] > d), name="past")), ("a match has enough parts, all counted", Imp(And(ret, E == d), And(CE >= k, nm == CE))), ("nothing between is skipped", Imp(And(E >= lo_ if incl else E > lo_, E < d), CE < k))]
def e_aac(c):
    o = c.this; d, k, nm = dsf(c, o); ret = ZB(c.ret); lo_ = ds_min(c.old, o)
    if not c.call: lem(c, o)
    return [("document", And(d >= lo_, d != NM, k == dsf(c.old, o)[1])), ("few left", Imp(Not(ret), And(qn(c, o) < k, Imp(E >= lo_, CE < k))))] + after(c, o, d, k, nm, ret, lo_, True)
def outer(c):
    o = c.cargs[0]; n, A, m = ds(c, o); d, k, nm = dsf(c, o); lo_ = ds_min(c.pre, o); mn = ds_min(c, o); lem(c, o)
    return q_ok(c, o) + [("enough left", And(k >= 1, k <= qn(c, o), k == dsf(c.pre, o)[1])), k1(c, o, E >= mn), dso(c, o), ("forward", mn >= lo_), ("nothing between is skipped", Imp(And(E >= lo_, E < mn), CE < k))]
def inner(c):
    o = c.cargs[0]; n, A, m = ds(c, o); d, k, nm = dsf(c, o); lo_ = ds_min(c.pre, o); mn = ds_min(c, o); lem(c, o)
    return q_ok(c, o) + [("the top is on it", And(mn == d, d != NM, d >= lo_, k >= 1, k == dsf(c.pre, o)[1], qn(c, o) > 0)), k1(c, o, E > d), dso(c, o), ("counted so far", Imp(E == d, nm + ate(c, o) == CE + 1)), ("nothing between is skipped", Imp(And(E >= lo_, E < d), CE < k))]
C(DS + "::advanceAfterCurrent", 0, setup=s_ds(), requires=lambda c: r_aac(c) + (lem(c, c.this) or []), modifies=aac_mod, ret=lambda c: z3.Bool(uniq("more")), ensures=e_aac, loops=[LoopSpec(outer, name="until enough match"), LoopSpec(inner, name="parts on this document")])
def ds_state(c, o):
    n, A, m = ds(c, o); d, k, nm = dsf(c, o)
    return q_ok(c, o) + [("minimum", And(k >= 1, Imp(d == NM, qn(c, o) < k))), ("parts are past it", FA(lambda j: Imp(And(d != NM, rng(j, 0, n)), A[j] > d), name="past")), k1(c, o, And(d != NM, E > d)), dso(c, o)]
def e_ds(incl):
    def g(c):
        o = c.this; r = Z(c.ret, 32); d, k, nm = dsf(c, o); d0 = dsf(c.old, o)[0]; lo_ = Z(c.a[1], 32) if incl else d0
        if not c.call: lem(c, o)
        return [("where it stands", d == r), ("forward", Or(r == NM, r > d0))] + ([("not before the target", r >= lo_)] if incl else []) + [("a match has enough parts, all counted", Imp(r == E, And(CE >= k, nm == CE))), ("nothing between is skipped", Imp(And(d0 != NM, E >= lo_ if incl else E > lo_, E < r), CE < k))] + ds_state(c, o)
    return g
def ds_start(c): lem(c, c.this); return ds_state(c, c.this)
C(DS + "::nextDoc", 0, setup=s_ds(), requires=ds_start, modifies=aac_mod, ensures=e_ds(False))
def adv_inv(c):
    o = c.cargs[0]; n, A, m = ds(c, o); d, k, nm = dsf(c, o); d0 = dsf(c.pre, o)[0]; t = Z(c.cargs[1], 32); lem(c, o)
    return q_ok(c, o) + [("enough left", And(k >= 1, k <= qn(c, o), k == dsf(c.pre, o)[1], d == d0)), k1(c, o, E >= t), dso(c, o), ("parts are past it", FA(lambda j: Imp(rng(j, 0, n), A[j] > d), name="past"))]
C(DS + "::advance", 1, setup=s_ds(lambda b: [b.i32("target")]), requires=lambda c: ds_start(c) + [("a later target", And(Z(c.a[1], 32) >= 0, Z(c.a[1], 32) > dsf(c, c.this)[0]))], modifies=aac_mod, ensures=e_ds(True), loops=[LoopSpec(adv_inv, name="skip to the target")])
from check import Lemma
def l_counts():
    A = z3.Array("A", B64, B32); m = z3.Array("m", B64, B32); W1, W2, W3 = [z3.Function(w, B64, B64) for w in ("W1", "W2", "W3")]; Pe, Pl, Pm = [z3.Array(w, B64, z3.BitVecSort(32)) for w in ("Pe", "Pl", "Pm")]; j = z3.BitVec("j", 64); z = V(0)
    dif = lambda k: (A[k] == E) != (m[k] == 1); lost = lambda k: And(m[k] == 1, A[k] == NM); on = lambda k: A[k] == E; val = lambda k: Or(m[k] == 0, m[k] == 1)
    def inv(j): return And(Or(Pe[j] == Pm[j], And(rng(W1(j), 0, j), dif(W1(j)))), z3.ULE(Pl[j], z3.Extract(31, 0, j)), z3.ULE(Pm[j], z3.Extract(31, 0, j)), Or(z3.ULE(Pm[j], Pl[j]), And(rng(W2(j), 0, j), lost(W2(j)))), Or(Pe[j] == 0, And(rng(W3(j), 0, j), on(W3(j)))))
    step = lambda W, f: W(j + 1) == z3.If(f(j), j, W(j))
    return [([Pe[z] == 0, Pl[z] == 0, Pm[z] == 0], [], inv(z)), ([rng(j, 0, V(1 << 24)), inv(j), val(j), Pe[j + 1] == Pe[j] + o1(A[j] == E), Pl[j + 1] == Pl[j] + o1(A[j] != NM), Pm[j + 1] == Pm[j] + m[j], step(W1, dif), step(W2, lost), step(W3, on)], [], inv(j + 1))]
# ---------------------------------------------------------------- optional clauses do not matter
RO = "Lucene::ReqOptSumScorer"
def s_ro(extra):
    def g(b):
        o = b.obj("reqopt", RO); x = Ptr(parts(b, "required", V(1)), 0); y = Ptr(parts(b, "optional", V(1)), 0); o.reg.tags.update(x=x, y=y); b.set_sp(o, "reqScorer", x); b.set_sp(o, "optScorer", y); return [o] + extra(b)
    return g
def ro(incl):
    def g(c):
        o = c.this; r = Z(c.ret, 32); x = o.reg.tags["x"]; a0 = at(c.old, x); lo_ = Z(c.a[1], 32) if incl else a0
        return [("where it stands", at(c, x) == r), ("forward", r > a0)] + ([("not before the target", r >= lo_)] if incl else []) + found(M(x), lo_, r, incl)
    return g
C(RO + "::nextDoc", 0, setup=s_ro(lambda b: []), requires=lambda c: [at(c, c.this.reg.tags["x"]) != NM], modifies=lambda c: [(c.this.reg.tags["x"].reg, "g:cur", 0)], ensures=ro(False))
C(RO + "::advance", 1, setup=s_ro(lambda b: [b.i32("target")]), requires=lambda c: [Z(c.a[1], 32) > at(c, c.this.reg.tags["x"])], modifies=lambda c: [(c.this.reg.tags["x"].reg, "g:cur", 0)], ensures=ro(True))
C(RO + "::docID", 0, setup=s_ro(lambda b: []), modifies=lambda c: [], ensures=lambda c: [Z(c.ret, 32) == at(c, c.this.reg.tags["x"])])
SCORE = z3.Function("scoreOf", B64, B32, z3.FPSort(11, 53))
# ---------------------------------------------------------------- a filter over an iterator
FI = "Lucene::FilteredDocIdSetIterator"
OK = z3.Function("accepted", B32, z3.BoolSort())
mt = C(FI + "::match", 1, name="abstract: " + FI + "::match", assumed=True, modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("match")), ensures=lambda c: [ZB(c.ret) == OK(Z(c.a[1], 32))])
def s_fi(extra):
    def g(b):
        o = b.obj("filtered", FI, exact=False); x = Ptr(parts(b, "inner", V(1), DI), 0); o.reg.tags["x"] = x; b.set_sp(o, "innerIter", x); b.inputs["doc"] = Z(b.fld(o, "doc"), 32); return [o] + extra(b)
    return g
def fi_m(o): x = M(o.reg.tags["x"]); return lambda d: And(x(d), OK(d))
def fi_inv(c):
    o = c.cargs[0]; x = o.reg.tags["x"]; a0 = at(c.pre, x); lo_ = a0 if len(c.cargs) == 1 else Z(c.cargs[1], 32); a = at(c, x)
    return [("where the inner one is", And(a >= -1, a != NM, a >= a0, (a >= lo_) if len(c.cargs) > 1 else True)), ("nothing between is skipped", FA(lambda d: Imp(And(d > lo_ if len(c.cargs) == 1 else d >= lo_, d <= a), Not(fi_m(o)(d))), (32,), name="gap"))]
def e_fi(incl):
    def g(c):
        o = c.this; x = o.reg.tags["x"]; r = Z(c.ret, 32); a0 = at(c.old, x); lo_ = Z(c.a[1], 32) if incl else a0
        return [("where it stands", And(Z(c.fld(o, "doc"), 32) == r, at(c, x) == r)), ("forward", r > a0)] + ([("not before the target", r >= lo_)] if incl else []) + found(fi_m(o), lo_, r, incl)
    return g
def fi_mod(c): return [(c.this.reg.tags["x"].reg, "g:cur", 0), loc(c, c.this, "doc")]
r_fi = lambda c: [("before the end", And(at(c, c.this.reg.tags["x"]) >= -1, at(c, c.this.reg.tags["x"]) != NM, Z(c.fld(c.this, "doc"), 32) == at(c, c.this.reg.tags["x"])))]
C(FI + "::nextDoc", 0, setup=s_fi(lambda b: []), requires=r_fi, modifies=fi_mod, ensures=e_fi(False), loops=[LoopSpec(fi_inv, name="until accepted")])
C(FI + "::advance", 1, setup=s_fi(lambda b: [b.i32("target")]), requires=lambda c: r_fi(c) + [("a later target", Z(c.a[1], 32) > at(c, c.this.reg.tags["x"]))], modifies=fi_mod, ensures=e_fi(True), loops=[LoopSpec(fi_inv, name="until accepted")])
CONTRACTS = cs
LEMMAS = PSum("count", lambda x: x).lemmas(32)[:1] + [Lemma("counts of matching, remaining and present parts (induction)", l_counts)]
TUS = ["search/ConjunctionScorer.cpp", "search/ReqExclScorer.cpp", "search/ReqOptSumScorer.cpp", "search/FilteredDocIdSetIterator.cpp", "search/DisjunctionSumScorer.cpp", "util/ScorerDocQueue.cpp", "search/Scorer.cpp", "search/DocIdSetIterator.cpp"]
HARNESS = "c10.cpp"
SECS = 10
ASSUMPTIONS = []
