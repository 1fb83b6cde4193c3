"""C09: the priority queue and the collectors over it.  Queue elements are objects known by a key; the order of
the queue is the order of the keys."""
from .common import *
T = "boost::shared_ptr<Lucene::ScoreDoc>"
PQ = "Lucene::PriorityQueue<%s>" % T
OOB = EXC("IndexOutOfBounds")
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
E = z3.BitVec("any_element", 64)          # an arbitrary element: what holds for it holds for every element
CNT = PSum("count", lambda x: z3.If(x == E, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), auto=True)
def mkq(b, cls=PQ):
    o = b.obj("queue", cls); n = b.i64("capacity"); b.assume(n >= 2, n < (1 << 24))
    docs = b.array("elements", 64, V(1 << 40)); docs.nullable = True; b.setghost(Ptr(docs), "key", z3.Array("key", B64, B64))
    h = b.array("heap", 16, n); h.pointee[0] = docs; v = b.sub(o, "heap", PQ)
    b.vc.store(b.st, v, PTR, Ptr(h)); b.vc.store(b.st, v.at(8), PTR, Ptr(h, n)); b.vc.store(b.st, v.at(16), PTR, Ptr(h, n))
    o.reg.tags.update(h=h, docs=docs); b.inputs["size"] = Z(b.fld(o, "_size", PQ), 32); b.inputs["maxSize"] = Z(b.fld(o, "_maxSize", PQ), 32)
    return o
def elem(b, o, name="element"):
    """a shared_ptr to some element, not null"""
    k = b.i64(name); b.assume(k > 0, k < (1 << 40)); r = Ptr(b.vc.new_obj(b.st, name, sym=False)); b.vc.store(b.st, r, PTR, Ptr(o.reg.tags["docs"], k)); b.vc.store(b.st, r.at(8), PTR, NULL); return r
def idof(c, p):
    q = c.vc.load(c.st, p, PTR); return V(0) if q.reg is None else Z(q.idx, 64)
def H(c, o): return c.vc.getarr(c.st, o.reg.tags["h"], 0, 8)
def K(c, o): return c.ghost(Ptr(o.reg.tags["docs"]), "key")
def sz(c, o): return sx(Z(c.fld(o, "_size", PQ), 32))
def mx(c, o): return sx(Z(c.fld(o, "_maxSize", PQ), 32))
def cap(c, o): return Z(c.n(o.reg.tags["h"]), 64)
def par(k): return z3.LShR(k, 1)
def real(c, o, h=None, n=None):
    h = H(c, o) if h is None else h; return ("elements are there", FA(lambda k: Imp(And(k >= 1, k <= (sz(c, o) if n is None else n)), And(h[k] > 0, h[k] < (1 << 40))), name="real"))
def ordered(c, o, cond=lambda k: True, name="parents are not above children"):
    h, key = H(c, o), K(c, o); return (name, FA(lambda k: Imp(And(k >= 2, k <= sz(c, o), cond(k)), key[h[par(k)]] <= key[h[k]]), name="heap"))
def sizes(c, o): return ("size", And(sz(c, o) >= 0, sz(c, o) < cap(c, o)))
def heap(c, o): return [sizes(c, o), real(c, o), ordered(c, o)]
def least(c, o, old=False):
    """by the lemma below: in a heap the root is least"""
    v = c.old if old else c; h, key = H(v, o), K(v, o); c.st.assume(FA(lambda k: Imp(And(k >= 1, k <= sz(v, o)), key[h[1]] <= key[h[k]]), name="least"))
def total(c, o, n=None):
    P = CNT.of(c, H(c, o)); return P[(sz(c, o) if n is None else n) + 1] - P[V(1)]
def one(x): return z3.If(x == E, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
def rest(c, o): return ("outside the queue nothing changes", FA(lambda k: Imp(Or(k < 1, k > sz(c, o)), H(c, o)[k] == H(c.old, o)[k]), name="rest"))
def hm(c): return [(c.this.reg.tags["h"], 0, 8)]
# the order
C(PQ + "::lessThan", 2, name="abstract:PriorityQueue::lessThan", assumed=True, when=lambda c: "h" in c.this.reg.tags, modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("less")),
  requires=lambda c: [("elements", And(idof(c, c.a[1]) > 0, idof(c, c.a[2]) > 0))], ensures=lambda c: [ZB(c.ret) == (K(c, c.this)[idof(c, c.a[1])] < K(c, c.this)[idof(c, c.a[2])])])
# ---------------------------------------------------------------- sifting
def r_down(c): o = c.this; return [sizes(c, o), real(c, o), ordered(c, o, lambda k: par(k) != 1, "ordered below the root")]
def kept(c, o): return ("same elements", total(c, o) == total(c.old, o))
def ids(c, n): return idof(c, c.cell(n))
def d_base(c, o, i, j):
    s = sz(c, o); return [sizes(c, o), ("hole", And(i >= 1, Or(i == 1, i <= s), par(j) == i, j >= 2))]
def d_dec(c): return sz(c, c.cargs[0]) - sx(Z(c.var("i"), 32))
def d_ij(c): return c.cargs[0], sx(Z(c.var("i"), 32)), sx(Z(c.var("j"), 32))
def outside(c, o): h, s = H(c, o), sz(c, o); return ("outside the queue nothing changes", FA(lambda k: Imp(Or(k < 1, k > s), h[k] == H(c.pre, o)[k]), name="rest"))
def down_order(c):
    o, i, j = d_ij(c); nd = ids(c, "node"); h, key, s = H(c, o), K(c, o), sz(c, o); oth = j ^ 1
    return d_base(c, o, i, j) + [("saved element", Imp(s >= 1, nd > 0)), ("smaller child", And(Imp(And(j <= s, oth <= s), key[h[j]] <= key[h[oth]]), Imp(oth <= s, j <= s))), real(c, o),
            ordered(c, o, lambda k: And(k != i, par(k) != i), "ordered away from the hole"), ("ordered across the hole", FA(lambda k: Imp(And(k >= 2, k <= s, par(k) == i, i >= 2), key[h[par(i)]] <= key[h[k]]), name="across")),
            ("saved element is not below the hole's parent", Imp(i >= 2, key[h[par(i)]] <= key[nd]))]
def down_count(c):
    o, i, j = d_ij(c); nd = ids(c, "node"); h, s = H(c, o), sz(c, o)
    return d_base(c, o, i, j) + [real(c, o), ("saved element", Imp(s >= 1, nd > 0)), ("same elements", Imp(s >= 1, total(c, o) - one(h[i]) + one(nd) == total(c.pre, o))), ("empty", Imp(s == 0, And(i == 1, h[1] == nd))), outside(c, o)]
never = lambda c: False
def sift(fn, req, loop_order, loop_count, dec, nm):
    """one contract for the order, one for the contents; callers use both together"""
    q = PQ + "::" + fn; su = lambda b: [mkq(b)]
    C(q, 0, name=fn + ": order", when=never, setup=su, requires=req, modifies=hm, ensures=lambda c: heap(c, c.this), loops=[LoopSpec(loop_order, dec=dec, name=nm, merge=True)])
    C(q, 0, name=fn + ": elements", when=never, setup=su, requires=req, modifies=hm, ensures=lambda c: [kept(c, c.this), rest(c, c.this)], loops=[LoopSpec(loop_count, dec=dec, name=nm, merge=True)])
    C(q, 0, name=fn + ": order and elements together", assumed=True, requires=req, modifies=hm, ensures=lambda c: heap(c, c.this) + [kept(c, c.this), rest(c, c.this)])
sift("downHeap", r_down, down_order, down_count, d_dec, "sift down")
def u_base(c, o, i, j): return [sizes(c, o), ("hole", And(i >= 1, i <= sz(c, o), j == par(i), ids(c, "node") > 0)), real(c, o)]
def up_order(c):
    o, i, j = d_ij(c); nd = ids(c, "node"); h, key, s = H(c, o), K(c, o), sz(c, o)
    return u_base(c, o, i, j) + [ordered(c, o, lambda k: And(k != i, par(k) != i), "ordered away from the hole"),
            ("children of the hole", FA(lambda k: Imp(And(k >= 2, k <= s, par(k) == i), And(key[nd] <= key[h[k]], Imp(i >= 2, key[h[par(i)]] <= key[h[k]]))), name="across"))]
def up_count(c):
    o, i, j = d_ij(c); nd = ids(c, "node"); h = H(c, o)
    return u_base(c, o, i, j) + [("same elements", total(c, o) - one(h[i]) + one(nd) == total(c.pre, o)), outside(c, o)]
sift("upHeap", lambda c: [sizes(c, c.this), sz(c, c.this) >= 1, real(c, c.this), ordered(c, c.this, lambda k: k != sz(c, c.this), "ordered but for the last")], up_order, up_count, lambda c: sx(Z(c.var("i"), 32)), "sift up")
# ---------------------------------------------------------------- operations
def sret(f):
    """contract of a function that returns an element: the hidden first argument receives it"""
    return f
def giv(c, k): 
    if c.call: c.vc.store(c.st, c.a[0], PTR, Ptr(c.a[1].reg.tags["docs"], k)); c.vc.store(c.st, c.a[0].at(8), PTR, NULL)
def qm(c): o = c.a[1]; return [(o.reg.tags["h"], 0, 8), loc(c, o, "_size", PQ)]
def op(nm, args, req, ens, exc=None):
    def setup(b): q = mkq(b); return [ret_obj(b), q] + [elem(b, q) for _ in range(args)]
    def ens2(c):
        if c.call: giv(c, z3.BitVec(uniq("elem"), 64))
        return ens(c)
    C(PQ + "::" + nm, args, setup=setup, requires=lambda c: heap(c, c.a[1]) + req(c), modifies=qm, raises=exc, ensures=ens2)
def step(c, h, i):
    """the definition of the count at i"""
    P = CNT.of(c, h); c.st.assume(Imp(And(i >= 0, i < B31), P[i + 1] == P[i] + one(h[i])))
    return P
def x_add(c): o = c.a[1]; return [(OOB, sz(c, o) + 1 >= cap(c, o))]
def e_add(c):
    o = c.a[1]; least(c, o); x = idof(c.old, c.a[2]); s, s0, h0 = sz(c, o), sz(c.old, o), H(c.old, o)
    if not c.call:
        P0 = step(c, h0, s); h1 = z3.Store(h0, s, x); P1 = CNT.of(c, h1)
        pre = [("cut:one more", s == s0 + 1), ("cut:count below", P0[s] == P0[s0 + 1]), ("cut:count at the new place", P1[s + 1] - P1[V(1)] == P0[s] - P0[V(1)] + one(x)), ("cut:sifting keeps the count", total(c, o) == P1[s + 1] - P1[V(1)])]
    else: pre = [("one more", s == s0 + 1)]
    return pre + heap(c, o) + [("the element is added", total(c, o) == total(c.old, o) + one(x)), ("gives the least", idof(c, c.a[0]) == H(c, o)[1])]
op("add", 1, lambda c: [("element", idof(c, c.a[2]) > 0)], e_add, x_add)
def e_pop(c):
    o = c.a[1]; r = idof(c, c.a[0]); s = sz(c.old, o); h0 = H(c.old, o)
    cuts = []
    if not c.call:
        P0 = step(c, h0, s); h1 = z3.Store(z3.Store(h0, V(1), h0[s]), s, V(0)); P1 = CNT.of(c, h1)
        cuts = [("cut:smaller", Imp(s > 0, And(sz(c, o) == s - 1))), ("cut:count at the old place", Imp(s > 0, And(P0[s + 1] == P0[s] + one(h0[s]), P1[s] - P1[V(1)] + one(h0[1]) == P0[s + 1] - P0[V(1)]))), ("cut:sifting keeps the count", Imp(s > 0, total(c, o) == P1[s] - P1[V(1)]))]
    return cuts + heap(c, o) + [("gives the least", Imp(s > 0, r == h0[1])), ("nothing from an empty queue", Imp(s == 0, And(r == 0, sz(c, o) == 0))), ("one less", Imp(s > 0, sz(c, o) == s - 1)), ("the others stay", Imp(s > 0, total(c, o) + one(r) == total(c.old, o)))]
op("pop", 0, lambda c: [], e_pop)
def e_ut(c):
    o = c.a[1]; least(c, o); return heap(c, o) + [("same elements", And(sz(c, o) == sz(c.old, o), total(c, o) == total(c.old, o))), ("gives the least", idof(c, c.a[0]) == H(c, o)[1])]
C(PQ + "::updateTop", 0, setup=lambda b: [ret_obj(b), mkq(b)], requires=lambda c: [sizes(c, c.a[1]), real(c, c.a[1]), ordered(c, c.a[1], lambda k: par(k) != 1, "ordered below the root")], modifies=lambda c: [(c.a[1].reg.tags["h"], 0, 8)], ensures=lambda c: (giv(c, z3.BitVec(uniq("elem"), 64)), e_ut(c))[1])
def member(c, h, n):
    """lemma: an element of h[1..n] is counted"""
    P = CNT.of(c, h); c.st.assume(FA(lambda k: Imp(And(k >= 1, k <= n, n < B31, h[k] == E), P[n + 1] - P[V(1)] != 0), name="member"))
def witness(c, h, n, w):
    """lemma: an element that is counted is in h[1..n]"""
    P = CNT.of(c, h); c.st.assume(Imp(And(n >= 0, n < B31, P[n + 1] - P[V(1)] != 0), And(w >= 1, w <= n, h[w] == E)))
def e_ao(c):
    o = c.a[1]; x = idof(c.old, c.a[2]); r = idof(c, c.a[0]); s, m = sz(c.old, o), mx(c.old, o); h0, key = H(c.old, o), K(c, o); least(c, o, True); least(c, o)
    drop = And(s >= m, s > 0, key[x] >= key[h0[1]]); cuts = []
    if not c.call:
        h1 = z3.Store(h0, V(1), x); P0, P1 = CNT.of(c, h0), CNT.of(c, h1); member(c, H(c, o), s); w = z3.BitVec(uniq("where"), 64); witness(c, h1, s, w)
        cuts = [("cut:count with the element on top", Imp(drop, P1[s + 1] - P1[V(1)] + one(h0[1]) == P0[s + 1] - P0[V(1)] + one(x))), ("cut:sifting keeps the count", Imp(drop, And(sz(c, o) == s, total(c, o) == P1[s + 1] - P1[V(1)]))),
                ("cut:above the old root with the element on top", Imp(And(drop, w >= 1, w <= s), key[h1[w]] >= key[h0[1]]))]
    return cuts + heap(c, o) + [("below the bound it is added", Imp(s < m, And(r == 0, sz(c, o) == s + 1, total(c, o) == total(c.old, o) + one(x)))),
                         ("at the bound the least of all is dropped", Imp(s >= m, And(sz(c, o) == s, r == z3.If(drop, h0[1], x)))), ("at the bound the others stay", Imp(s >= m, total(c, o) + one(r) == total(c.old, o) + one(x))),
                         ("no kept element is below the dropped one", FA(lambda k: Imp(And(s >= m, k >= 1, k <= s, H(c, o)[k] == E), key[r] <= key[E])))]
op("addOverflow", 1, lambda c: [("element", idof(c, c.a[2]) > 0), ("bound", And(mx(c, c.a[1]) + 1 <= cap(c, c.a[1])))], e_ao)
C(PQ + "::top", 0, setup=lambda b: [ret_obj(b), mkq(b)], requires=lambda c: heap(c, c.a[1]), modifies=lambda c: [], ensures=lambda c: (giv(c, z3.BitVec(uniq("elem"), 64)), [("the root", idof(c, c.a[0]) == H(c, c.a[1])[1])])[1])
# ---------------------------------------------------------------- collecting
HQ, SD = "Lucene::HitQueue", "Lucene::ScoreDoc"
def sd(v, p): return v.fld(p, "score", SD), Z(v.fld(p, "doc", SD), 32)
def less(a, b): return z3.If(z3.fpEQ(a[0], b[0]), a[1] > b[1], z3.fpLT(a[0], b[0]))
def hq_setup(same):
    def f(b):
        o = b.obj("queue", HQ); x = b.obj("first", SD); y = x if same else b.obj("second", SD); return [o, b.sp(x), b.sp(y)]
    return f
def e_less(c):
    x, y = [sd(c, c.vc.load(c.st, p, PTR)) for p in c.a[1:3]]
    return [("lower score first, higher document number first on a tie", ZB(c.ret) == less(x, y))]
cl = C(HQ + "::lessThan", 2, setup=hq_setup(False), modifies=lambda c: [], ensures=e_less); cl.alts = [hq_setup(False), hq_setup(True)]
sc = C("Lucene::Scorer::score", 0, name="abstract: Scorer::score", assumed=True, modifies=lambda c: [], ret=lambda c: c.ghost(c.this, "score"), ensures=lambda c: [])
def ut_apply(vc, st, args, where=""):
    out, o = args[0], args[1]; v = View(vc, st)
    st.w(o.reg)["g:updates"] = simp(v.ghost(o, "updates") + 1)
    if st.rec is not None: st.rec.add((o.reg, "g:updates", 0))
    t = o.reg.tags["newtop"]; vc.store(st, out, PTR, t); vc.store(st, out.at(8), PTR, NULL)
    return [(st, "ret", None)]
ut = C("Lucene::HitQueueBase::updateTop", 0, name="abstract: HitQueueBase::updateTop restores the order and gives the new least element", assumed=True, apply=ut_apply)
def col_setup(cls):
    def f(b):
        o = b.obj("collector", cls); q = b.obj("pq", HQ); top = b.obj("top", SD); nt = b.obj("newtop", SD); scr = b.obj("scorer", "Lucene::Scorer", exact=False)
        s = z3.FP("score", z3.FPSort(11, 53)); b.setghost(scr, "score", s); b.assume(z3.Not(z3.fpIsNaN(s))); b.setghost(q, "updates", V(0)); q.reg.tags["newtop"] = nt
        b.set_sp(o, "pq", q); b.set_sp(o, "pqTop", top); a, _, _ = View(b.vc, b.st).addr(o, "__scorer"); b.vc.store(b.st, a, PTR, scr)
        o.reg.tags.update(q=q, top=top, nt=nt, sc=scr); return [o, b.i32("doc")]
    return f
def e_col(inorder):
    def f(c):
        o = c.this; t = o.reg.tags; s = c.old.ghost(t["sc"], "score"); d = Z(c.a[1], 32) + Z(c.old.fld(o, "docBase"), 32); s0, d0 = sd(c.old, t["top"]); s1, d1 = sd(c, t["top"]); k = c.ghost(t["q"], "updates")
        if inorder: take = z3.Not(z3.fpLEQ(s, s0)); ord_ = Imp(d > d0, take == less((s0, d0), (s, d)))
        else: take = z3.Not(Or(z3.fpLT(s, s0), And(z3.fpEQ(s, s0), d > d0))); ord_ = Imp(d != d0, take == less((s0, d0), (s, d)))
        p = c.vc.load(c.st, c.sub(o, "pqTop"), PTR)
        return [("counts every hit", Z(c.fld(o, "totalHits"), 32) == Z(c.old.fld(o, "totalHits"), 32) + 1), ("takes the hit iff it is above the least one kept", Imp(z3.Not(z3.fpIsNaN(s0)), ord_)),
                ("a hit taken replaces the least one", Imp(take, And(d1 == d, z3.fpToIEEEBV(s1) == z3.fpToIEEEBV(s)))), ("and the queue is put in order", k == z3.If(take, V(1), V(0))),
                ("otherwise the least one stays", Imp(z3.Not(take), And(d1 == d0, s1 == s0))), ("the new least one is remembered", take if p.reg is t["nt"].reg else z3.Not(take))]
    return f
def colmods(c): o = c.this; t = o.reg.tags; q = c.sub(o, "pqTop"); return [loc(c, o, "totalHits"), (q.reg, q.off, 8), (q.reg, q.off + 8, 8), loc(c, t["top"], "doc"), loc(c, t["top"], "score"), (t["q"].reg, "g:updates", 0)]
for cls, io in (("InOrder", True), ("OutOfOrder", False)):
    cn = "Lucene::%sTopScoreDocCollector" % cls
    C(cn + "::collect", 1, setup=col_setup(cn), modifies=colmods, ensures=e_col(io), use=[sc.name, ut.name])
from check import Lemma
def l_least():
    key, h = z3.Array("key", B64, B64), z3.Array("h", B64, B64); k = z3.BitVec("k", 64)
    return [([k >= 2, par(k) >= 1, key[h[1]] <= key[h[par(k)]], key[h[par(k)]] <= key[h[k]]], [], key[h[1]] <= key[h[k]]), ([k >= 2, k < B31], [], And(par(k) >= 1, par(k) < k))]
def l_member():
    A, P = z3.Array("A", B64, B64), z3.Array("P", B64, z3.BitVecSort(32)); j, k = z3.BitVecs("j k", 64); one1 = V(1)
    q = lambda j: And(z3.ULE(P[j] - P[one1], z3.Extract(31, 0, j - 1)), Imp(And(k >= 1, k < j, A[k] == E), P[j] - P[one1] != 0))
    return [([], [], q(one1)), ([j >= 1, j < B31, q(j), P[j + 1] == P[j] + one(A[j])], [], q(j + 1))]
def l_witness():
    A, P = z3.Array("A", B64, B64), z3.Array("P", B64, z3.BitVecSort(32)); W = z3.Function("W", B64, B64); j = z3.BitVec("j", 64); one1 = V(1)
    q = lambda j: Imp(P[j] - P[one1] != 0, And(W(j) >= 1, W(j) < j, A[W(j)] == E))
    return [([], [], q(one1)), ([j >= 1, j < B31, q(j), P[j + 1] == P[j] + one(A[j]), W(j + 1) == z3.If(A[j] == E, j, W(j))], [], q(j + 1))]
LEMMAS = CNT.lemmas(64) + [Lemma("an element in the queue is counted (induction)", l_member), Lemma("a counted element is in the queue (induction)", l_witness)] + [Lemma("in a heap the root is least (induction over the path to the root)", l_least)]
CONTRACTS = cs
TUS = ["search/HitQueueBase.cpp", "search/HitQueue.cpp", "search/TopScoreDocCollector.cpp", "search/TopDocsCollector.cpp", "search/Scorer.cpp"]
HARNESS = "c09.cpp"
SECS = 10
ASSUMPTIONS = []
