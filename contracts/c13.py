"""C13: global document numbers = start of the part + number within the part; renumbering by merges."""
from .common import *
from engine.spec import lcoll, COLL
NI = "__gnu_cxx::__normal_iterator<int*, std::vector<int, std::allocator<int>>>"
UB = "std::__upper_bound<%s, int, __gnu_cxx::__ops::_Val_less_iter>" % NI
DR, RU, MR, MP, MI, IR_ = "Lucene::DirectoryReader", "Lucene::ReaderUtil", "Lucene::MultiReader", "Lucene::MergeDocIDRemapper", "Lucene::SegmentMergeInfo", "Lucene::IndexReader"
MAXN = 1 << 24
cs = []
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
R32 = lambda c: z3.BitVec(uniq("r"), 32)
V = lambda n: z3.BitVecVal(n, 64)
def sorted_(A, a, b): return FA(lambda i, j: Imp(And(i >= a, i <= j, j < b), A[i] <= A[j]), (64, 64), name="sorted")
def part(A, a, b, r, v):
    """r separates the elements up to v from those above"""
    return [("in range", And(r >= a, r <= b)), ("everything before is at most the value", FA(lambda k: Imp(rng(k, a, r), A[k] <= v), name="le")), ("everything after is above", FA(lambda k: Imp(rng(k, r, b), A[k] > v), name="gt"))]
# ---------------------------------------------------------------- binary search
def s_ub(b):
    n = b.i64("n"); r = b.array("starts", 4, n); b.assume(n >= 0, n < MAXN)
    f, l = b.i64("first"), b.i64("last")
    vr = Ptr(b.vc.new_obj(b.st, "val", sym=False)); b.vc.store(b.st, vr, I32, b.i32("value"))
    return [Ptr(r, f), Ptr(r, l), vr]
def ub(c, a):
    return c.arr(a[0].reg, 0, 4), Z(a[0].idx, 64), Z(a[1].idx, 64), Z(c.vc.load(c.st, a[2], I32), 32)
def r_ub(c):
    A, f, l, v = ub(c, c.a); return [("range", And(f >= 0, f <= l, l <= Z(c.n(c.a[0].reg), 64), l < MAXN)), ("sorted", sorted_(A, f, l))]
def ub_inv(c):
    A, f, l, v = ub(c, c.cargs)
    x = c.vc.load(c.st, c.cell("__first"), PTR); n = Z(c.var("__len"), 64); a = Z(x.idx, 64)
    return [("window", And(a >= f, a <= l, n >= 0, n <= l - a)), ("everything before is at most the value", FA(lambda k: Imp(rng(k, f, a), A[k] <= v), name="le")), ("everything after is above", FA(lambda k: Imp(rng(k, a + n, l), A[k] > v), name="gt"))]
def e_ub(c):
    A, f, l, v = ub(c, c.a); return part(A, f, l, Z(c.ret.idx, 64), v)
UBC = C(UB, None, name="std::upper_bound<int>", setup=s_ub, requires=r_ub, modifies=lambda c: [], ensures=e_ub, ret=lambda c: Ptr(c.a[0].reg, z3.BitVec(uniq("ub"), 64)),
  loops=[LoopSpec(ub_inv, dec=lambda c: Z(c.var("__len"), 64), name="bisection")])
def mkcoll(b, where, name, n):
    r = b.array(name, 4, n); b.collection(where, r, n); return r
def colobj(b, name, n):
    q = Ptr(b.vc.new_obj(b.st, name, sym=False)); mkcoll(b, q, name, n); return q
# ---- the part of a global number
def e_idx(A, n, v, r): return [("the part whose range contains the number", And(r >= -1, r < n, Or(r == -1, A[r] <= v), Or(r == n - 1, A[r + 1] > v)))]
def coll(v, p):
    r, s, n = lcoll(v, p); return v.arr(r, 0, 4), n
def s_ri(b):
    n = b.i64("entries"); b.assume(n >= 0, n < MAXN); return [b.i32("n"), colobj(b, "starts", n), b.i32("parts")]
C(DR + "::readerIndex", 3, name="DirectoryReader::readerIndex", setup=s_ri, requires=lambda c: [("parts", And(sx(Z(c.a[2], 32)) >= 0, sx(Z(c.a[2], 32)) <= coll(c, c.a[1])[1])), ("starts do not decrease", sorted_(coll(c, c.a[1])[0], V(0), sx(Z(c.a[2], 32))))], modifies=lambda c: [],
  ensures=lambda c: e_idx(coll(c, c.a[1])[0], sx(Z(c.a[2], 32)), Z(c.a[0], 32), sx(Z(c.ret, 32))), ret=R32)
def s_si(b):
    n = b.i64("entries"); b.assume(n >= 0, n < MAXN); return [b.i32("n"), colobj(b, "starts", n)]
C(RU + "::subIndex", 2, name="ReaderUtil::subIndex", setup=s_si, requires=lambda c: [("starts do not decrease", sorted_(coll(c, c.a[1])[0], V(0), coll(c, c.a[1])[1])), coll(c, c.a[1])[1] < MAXN], modifies=lambda c: [],
  ensures=lambda c: e_idx(coll(c, c.a[1])[0], coll(c, c.a[1])[1], Z(c.a[0], 32), sx(Z(c.ret, 32))), ret=R32)
# ---- renumbering through a merge
def s_rm(b):
    o = b.obj("mapper", MP); n = b.i64("segments"); b.assume(n > 0, n < MAXN)
    for f in ("starts", "newStarts"): mkcoll(b, b.sub(o, f), f, n)
    data = b.vc.new_arr(b.st, "map", 4, B31, keyed=True)
    maps = b.array("maps", 24, V(1 << 40)); maps.nullable = True; maps.tags["idrows"] = {0: data, 8: data, 16: data}
    cols = b.array("docMaps", 56, n); cols.pointee[COLL] = lambda vc, st, k: Ptr(maps, k); b.collection(b.sub(o, "docMaps"), cols, n)
    o.reg.tags.update(data=data, maps=maps, cols=cols)
    for f in ("minDocID", "maxDocID", "docShift"): b.inputs[f] = Z(b.fld(o, f), 32)
    return [o, b.i32("oldDocID")]
def rm(v, o):
    return dict(S=coll(v, v.sub(o, "starts"))[0], N=coll(v, v.sub(o, "newStarts"))[0], n=coll(v, v.sub(o, "starts"))[1], lo=Z(v.fld(o, "minDocID"), 32), hi=Z(v.fld(o, "maxDocID"), 32), sh=Z(v.fld(o, "docShift"), 32),
                id=v.vc.getarr(v.st, o.reg.tags["cols"], COLL, 8), M=v.vc.getarr(v.st, o.reg.tags["data"], 0, 4))
def r_rm(c):
    s = rm(c, c.this); return [("starts do not decrease", sorted_(s["S"], V(0), s["n"])), ("first start", And(s["S"][0] == s["lo"], s["lo"] >= 0, s["hi"] >= s["lo"])), ("maps", FA(lambda i: And(s["id"][i] >= 0, s["id"][i] < (1 << 40)), name="ids"))]
def e_rm(c):
    s = rm(c, c.this); v = Z(c.a[1], 32); r = Z(c.ret, 32)
    new = lambda k: s["N"][k] + z3.If(s["id"][k] == 0, v - s["S"][k], z3.Select(s["M"], s["id"][k], sx(v - s["S"][k])))
    return [("numbers before the merge keep", Imp(v < s["lo"], r == v)), ("numbers after the merge shift", Imp(v >= s["hi"], r == v - s["sh"])),
            ("numbers in the merge go through their segment's map", FA(lambda k: Imp(And(v >= s["lo"], v < s["hi"], k >= 0, k < s["n"], s["S"][k] <= v, Or(k == s["n"] - 1, s["S"][k + 1] > v)), r == new(k)), name="map"))]
C(MP + "::remap", 1, setup=s_rm, requires=r_rm, modifies=lambda c: [], ensures=e_rm, ret=R32)
# ---- the document map of a segment
LIVE = PSum("live", lambda d: z3.If(d != 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
def rdg(v, o): return v.ghost(o, "deleted"), Z(v.ghost(o, "maxDoc"), 32)
for nm, f in (("hasDeletions", lambda c: ZB(c.ret) == c.ghost(c.this, "anydel")), ("isDeleted", lambda c: ZB(c.ret) == (rdg(c, c.this)[0][sx(Z(c.a[1], 32))] != 0)), ("maxDoc", lambda c: Z(c.ret, 32) == rdg(c, c.this)[1])):
    C(IR_ + "::" + nm, None, when=lambda c: not isparts(c), name="abstract:IndexReader::" + nm, assumed=True, modifies=lambda c: [], ensures=lambda c, f=f: [f(c)], ret=R32 if nm == "maxDoc" else lambda c: z3.Bool(uniq("r")),
      requires=(lambda c: [("document of the reader", rng(Z(c.a[1], 32), 0, rdg(c, c.this)[1]))]) if nm == "isDeleted" else None)
def s_dm(b):
    o = b.obj("smi", MI); r = b.obj("reader", IR_); b.setghost(r, "deleted", z3.Array("deleted", B64, z3.BitVecSort(8))); b.setghost(r, "maxDoc", b.i32("maxDoc")); b.setghost(r, "anydel", b.bool("anydel"))
    b.set_sp(o, "_reader", r); b.vc.store(b.st, b.sub(o, "docMap").at(COLL), PTR, NULL); b.vc.store(b.st, b.sub(o, "docMap").at(COLL + 8), PTR, NULL)
    b.assume(rdg(b, r)[1] >= 0, rdg(b, r)[1] < MAXN)
    return [ret_obj(b), o]
def reader(v, o): return sptr(v, o, "_reader")
def dm_inv(c):
    o = c.cargs[1]; D, n = rdg(c, reader(c, o)); r, s, m = lcoll(c, o, "docMap"); A = c.arr(r, 0, 4); i, j = sx(Z(c.var("i"), 32)), Z(c.var("j"), 32); P = LIVE.of(c, D)
    return [("progress", And(i >= 0, i <= sx(n), m == sx(n), j == P[i])), ("deleted counted", sx(Z(c.fld(o, "delCount"), 32)) == i - sx(j)), ("live numbers", And(j >= 0, sx(j) <= i)),
            ("map so far", FA(lambda k: Imp(rng(k, 0, i), A[k] == z3.If(D[k] != 0, z3.BitVecVal(-1, 32), P[k])), name="map"))]
def e_dm(c):
    o = c.a[1]; D, n = rdg(c, reader(c, o)); P = LIVE.of(c, D); any_ = c.ghost(reader(c, o), "anydel")
    out = []
    for w, q in (("kept", c.sub(o, "docMap")), ("returned", c.a[0])):
        vp = c.vc.load(c.st, q.at(COLL), PTR)
        if vp.reg is None: out.append(("no map only without deletions (%s)" % w, Not(any_))); continue
        r, s, m = lcoll(c, q); A = c.arr(r, 0, 4)
        out += [("one entry per document (%s)" % w, And(any_, m == sx(n))), ("live documents are numbered in order, deleted ones have none (%s)" % w, FA(lambda k: Imp(rng(k, 0, sx(n)), A[k] == z3.If(D[k] != 0, z3.BitVecVal(-1, 32), P[k]))))]
    return out + [("deleted documents counted", z3.If(any_, sx(Z(c.fld(o, "delCount"), 32)) == sx(n) - sx(P[sx(n)]), Z(c.fld(o, "delCount"), 32) == 0))]
C(MI + "::getDocMap", None, setup=s_dm, ensures=e_dm, loops=[LoopSpec(dm_inv, dec=lambda c: sx(Z(c.var("maxDoc"), 32)) - sx(Z(c.var("i"), 32)), name="document loop")])
# ---------------------------------------------------------------- parts: an array of readers known by what they answer
def mkparts(b, where, cls, n):
    """a collection of n parts; ghost MD(k): number of documents of part k"""
    objs = b.array("parts", 4096, n); objs.tags["vcls"] = cls
    h = b.array("part_handles", 16, n); h.tags["idrows"] = {0: objs, 8: None}
    b.collection(where, h, n); return objs
MD = z3.Function("maxDocOf", B64, z3.BitVecSort(32)); DEL = z3.Function("deletedIn", B64, z3.BitVecSort(32), z3.BoolSort()); LIV = z3.Function("numDocsOf", B64, z3.BitVecSort(32)); ANY = z3.Function("anyDeletions", B64, z3.BoolSort())
LOGK, LOGD, LOGN = "g:part", "g:doc", "g:calls"
def isparts(c, k=0): return isinstance(c.a[k], Ptr) and c.a[k].reg is not None and "vcls" in c.a[k].reg.tags
def part_call(cls, nm, k, docarg, n=None):
    """a method of part k records which part and which document it was asked for"""
    def ap(vc, st, a, where=""):
        p = a[k]; st.w(p.reg)[LOGK] = Z(p.idx, 64); st.w(p.reg)[LOGD] = Z(a[docarg], 32); st.w(p.reg)[LOGN] = simp(st.mem[p.reg][LOGN] + 1)
        if k: vc.store(st, a[0], PTR, Undef("result of the part")); vc.store(st, a[0].at(8), PTR, NULL)
        return [(st, "ret", None)]
    C(cls + "::" + nm, n, name="part:%s::%s/%s" % (cls, nm, n), assumed=True, apply=ap, when=lambda c: isparts(c, k))
for cls in (IR_, "Lucene::SegmentReader", "Lucene::Searchable"):
    C(cls + "::maxDoc", 0, name="part:%s::maxDoc" % cls, assumed=True, when=isparts, modifies=lambda c: [], ret=R32, ensures=lambda c: [Z(c.ret, 32) == MD(Z(c.this.idx, 64))])
    C(cls + "::numDocs", 0, name="part:%s::numDocs" % cls, assumed=True, when=isparts, modifies=lambda c: [], ret=R32, ensures=lambda c: [Z(c.ret, 32) == LIV(Z(c.this.idx, 64))])
    C(cls + "::hasDeletions", 0, name="part:%s::hasDeletions" % cls, assumed=True, when=isparts, modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("r")), ensures=lambda c: [ZB(c.ret) == ANY(Z(c.this.idx, 64))])
    C(cls + "::isDeleted", 1, name="part:%s::isDeleted" % cls, assumed=True, when=isparts, modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("r")), ensures=lambda c: [ZB(c.ret) == DEL(Z(c.this.idx, 64), Z(c.a[1], 32))])
    C(cls + "::incRef", 0, name="part:%s::incRef" % cls, assumed=True, when=isparts, modifies=lambda c: [], ensures=lambda c: [])
    for nm, k, d in (("document", 1, 2), ("doc", 1, 2), ("deleteDocument", 0, 1), ("setNorm", 0, 1)): part_call(cls, nm, k, d)
    for nm in ("ensureOpen",): C(cls + "::" + nm, 0, name="open:%s::%s" % (cls, nm), assumed=True, modifies=lambda c: [], ensures=lambda c: [])
OWN = (("Lucene::MultiReader", "subReaders", IR_), (DR, "subReaders", "Lucene::SegmentReader"), ("Lucene::MultiSearcher", "searchables", "Lucene::Searchable"))
def mkwhole(cls, f, pc):
    def g(b):
        o = b.obj("whole", cls); n = b.i64("nparts"); b.assume(n >= 0, n < MAXN - 1); objs = mkparts(b, b.sub(o, f), pc, n); o.reg.tags["parts"] = objs
        for kk, w in ((LOGK, 64), (LOGD, 32), (LOGN, 64)): b.st.w(objs)[kk] = z3.BitVecVal(0, w)
        mkcoll(b, b.sub(o, "starts"), "starts", simp(n + 1)); b.inputs["maxDoc"] = Z(b.fld(o, "_maxDoc"), 32)
        return o
    return g
def whole(v, o, f):
    S, n1 = coll(v, v.sub(o, "starts")); return S, lcoll(v, v.sub(o, f))[2], n1
def winv(v, o, f):
    """starts are the running totals of the parts' sizes"""
    S, n, n1 = whole(v, o, f); return [("starts: one per part and the total", And(n1 == n + 1, n >= 0, n < MAXN - 1)), ("first start", S[0] == 0), ("each start follows its part", FA(lambda k: Imp(rng(k, 0, n), And(MD(k) >= 0, S[k] >= 0, S[k + 1] >= S[k], S[k + 1] == S[k] + MD(k))), name="step")),
        ("total", S[n] == Z(v.fld(o, "_maxDoc"), 32)), ("starts do not decrease", sorted_(S, V(0), n + 1))]
def dn(c, k=1): return Z(c.a[k], 32)
def r_disp(f, k=1, o=0):
    return lambda c: winv(c, c.a[o], f) + [("a document number", And(dn(c, k) >= 0, dn(c, k) < Z(c.fld(c.a[o], "_maxDoc"), 32)))]
def at_part(c, o, f, n, fn):
    """fn(part, number in it) for the part that holds n"""
    S, np_, _ = whole(c.old, o, f)
    return FA(lambda k: Imp(And(rng(k, 0, np_), S[k] <= n, S[k + 1] > n), fn(k, n - S[k])), name="disp")
def asked(c, o, f, n):
    L = c.st.mem[o.reg.tags["parts"]]
    return [("exactly one part is asked", L[LOGN] == 1), ("the part that holds the document, by its number there", at_part(c, o, f, n, lambda k, d: And(L[LOGK] == k, L[LOGD] == d, d >= 0, d < MD(k))))]
for cls, f, pc in OWN:
    mk = mkwhole(cls, f, pc); short = cls.split("::")[-1]
    def S_(extra, sret=False, mk=mk): return lambda b: ([ret_obj(b)] if sret else []) + [mk(b)] + extra(b)
    if cls != "Lucene::MultiSearcher":
        C(cls + "::isDeleted", 1, when=lambda c: not isparts(c), setup=S_(lambda b: [b.i32("n")]), requires=r_disp(f), modifies=lambda c: [], ensures=lambda c, f=f: [("the part's answer", at_part(c, c.this, f, dn(c), lambda k, d: And(ZB(c.ret) == DEL(k, d), d >= 0, d < MD(k))))])
        C(cls + "::doDelete", 1, setup=S_(lambda b: [b.i32("n")]), requires=r_disp(f), ensures=lambda c, f=f: asked(c, c.this, f, dn(c)) + [("count of live documents is forgotten", Z(c.fld(c.this, "_numDocs"), 32) == -1), ("deletions noted", ZB(c.fld(c.this, "_hasDeletions")))])
        C(cls + "::document", 2, setup=S_(lambda b: [b.i32("n"), b.sp(NULL)], True), requires=r_disp(f, 2, 1), ensures=lambda c, f=f: asked(c, c.a[1], f, dn(c, 2)))
    else:
        C(cls + "::doc", 1, setup=S_(lambda b: [b.i32("n")], True), requires=r_disp(f, 2, 1), ensures=lambda c, f=f: asked(c, c.a[1], f, dn(c, 2)))
        C(cls + "::doc", 2, name=cls + "::doc/2", setup=S_(lambda b: [b.i32("n"), b.sp(NULL)], True), requires=r_disp(f, 2, 1), ensures=lambda c, f=f: asked(c, c.a[1], f, dn(c, 2)))
        C(cls + "::subDoc", 1, setup=S_(lambda b: [b.i32("n")]), requires=r_disp(f), modifies=lambda c: [], ensures=lambda c, f=f: [("number in the part", at_part(c, c.this, f, dn(c), lambda k, d: And(Z(c.ret, 32) == d, d >= 0, d < MD(k))))])
# ---- building the starts
def s_build(cls, f, pc, extra=lambda b: []):
    def g(b):
        o = b.obj("whole", cls); n = b.i64("nparts"); b.assume(n >= 0, n < MAXN); q = Ptr(b.vc.new_obj(b.st, "readers", sym=False)); objs = mkparts(b, q, pc, n); o.reg.tags["n"] = n
        return [o, q] + extra(b)
    return g
SUMM = z3.Function("running", B64, B64)
def rdef(c, n):
    """definition of the running total (64-bit), which stays below 2^31 (documented limit of an index)"""
    c.st.assume(SUMM(V(0)) == 0, FA(lambda k: Imp(rng(k, 0, n), And(MD(k) >= 0, SUMM(k + 1) == SUMM(k) + sx(MD(k)), SUMM(k) >= 0, SUMM(k) <= SUMM(k + 1), SUMM(k + 1) < B31)), name="run", trig=["running"]))
def r_build(c):
    n = c.this.reg.tags["n"]; rdef(c, n); return [n >= 0]
def b_inv(f):
    def g(c):
        o = c.cargs[0]; S, n1 = coll(c, c.sub(o, "starts")); n = o.reg.tags["n"]; i = sx(Z(c.var("i"), 32))
        return [("progress", And(i >= 0, i <= n, n1 == n + 1, lcoll(c, c.sub(o, f))[2] == n, sx(Z(c.fld(o, "_maxDoc"), 32)) == SUMM(i))), ("starts so far", FA(lambda k: Imp(rng(k, 0, i), sx(S[k]) == SUMM(k)), name="st"))]
    return g
def e_build(f):
    def g(c):
        o = c.this; S, n, n1 = whole(c, o, f); return [("one start per part and the total", And(n1 == n + 1, n == o.reg.tags["n"])), ("starts are the running totals", FA(lambda k: Imp(rng(k, 0, n + 1), sx(S[k]) == SUMM(k)), name="st")), ("total", sx(Z(c.fld(o, "_maxDoc"), 32)) == SUMM(n))]
    return g
C("Lucene::MultiSearcher::MultiSearcher", 1, setup=s_build("Lucene::MultiSearcher", "searchables", "Lucene::Searchable"), requires=r_build, ensures=e_build("searchables"), loops=[LoopSpec(b_inv("searchables"), dec=lambda c: c.cargs[0].reg.tags["n"] - sx(Z(c.var("i"), 32)), name="parts loop")])
C("Lucene::MultiReader::MultiReader", 2, setup=s_build("Lucene::MultiReader", "subReaders", IR_, lambda b: [b.bool("closeSubReaders")]), requires=r_build, ensures=e_build("subReaders"), loops=[LoopSpec(b_inv("subReaders"), dec=lambda c: c.cargs[0].reg.tags["n"] - sx(Z(c.var("i"), 32)), name="parts loop")])
C(DR + "::_initialize", 1, setup=s_build(DR, "subReaders", "Lucene::SegmentReader"), requires=lambda c: r_build(c) + [("no documents yet", Z(c.fld(c.this, "_maxDoc"), 32) == 0)], ensures=e_build("subReaders"), loops=[LoopSpec(b_inv("subReaders"), dec=lambda c: c.cargs[0].reg.tags["n"] - sx(Z(c.var("i"), 32)), name="parts loop")])
C("Lucene::SegmentInfos::readCurrentVersion", None, assumed=True, modifies=lambda c: [], ensures=lambda c: [], ret=lambda c: z3.BitVec(uniq("version"), 64))
def _sim(vc, st, a, where=""):
    vc.store(st, a[0], PTR, Undef("similarity")); vc.store(st, a[0].at(8), PTR, NULL); return [(st, "ret", None)]
C("Lucene::Similarity::getDefault", None, assumed=True, apply=_sim)
# ---- the renumbering a merge builds: infos holds the index's segments, the merged ones start at `first`
SIS, SI_ = "Lucene::SegmentInfos", "Lucene::SegmentInfo"
def _info(vc, st, a, where=""):
    v = View(vc, st); me = a[1]; t = me.reg.tags; i = sx(Z(a[2], 32))
    vc.oblige(st, And(i >= 0, i < t["count"]), "pre of SegmentInfos::info: a segment", "pre", where)
    vc.store(st, a[0], PTR, Ptr(t["segs"], simp(t["first"] + i))); vc.store(st, a[0].at(8), PTR, NULL); return [(st, "ret", None)]
C(SIS + "::info", 1, assumed=True, apply=_info)
def other(c): return c.vc.load(c.st, c.a[1], PTR)
C(SI_ + "::equals", 1, assumed=True, modifies=lambda c: [], ret=lambda c: z3.Bool(uniq("eq")), ensures=lambda c: [ZB(c.ret) == (Z(c.this.idx, 64) == Z(other(c).idx, 64))])
DC = z3.Function("docsBefore", B64, B64); DD = z3.Function("deletedBefore", B64, B64)
def s_map(b):
    o = b.obj("mapper", MP); n, m, f = b.i64("segments"), b.i64("merged"), b.i64("first"); b.assume(n >= 0, n < MAXN, m >= 1, f >= 0, m < MAXN, f < MAXN, f + m <= n)
    segs = b.array("segs", 4096, n); segs.tags["vcls"] = SI_
    infos, ms = b.obj("infos", SIS), b.obj("msegs", SIS); infos.reg.tags.update(segs=segs, first=V(0), count=n); ms.reg.tags.update(segs=segs, first=f, count=m)
    mg = b.obj("merge", "Lucene::OneMerge"); b.set_sp(mg, "segments", ms)
    maps = b.array("maps", 24, V(1 << 40)); maps.nullable = True
    cols = b.array("docMaps", 56, m); cols.pointee[COLL] = lambda vc, st, k: Ptr(maps, k); q = Ptr(b.vc.new_obj(b.st, "docMaps", sym=False)); b.collection(q, cols, m)
    o.reg.tags.update(segs=segs, n=n, m=m, f=f, q=q)
    return [o, b.sp(infos), q, colobj(b, "delCounts", m), b.sp(mg), b.i32("mergedDocCount")]
def mp(v, c, o):
    t = o.reg.tags; d = v.addr(Ptr(t["segs"], V(0)), "docCount", SI_)[0].off; D = c.vc.getarr(v.st, t["segs"], d, 4); X = coll(v, (c.a if hasattr(c, "a") else c.cargs)[3])[0]
    return D, X, t["n"], t["m"], t["f"]
def r_map(c):
    D, X, n, m, f = mp(c, c, c.this)
    # definitions of the running totals; the index stays below 2^31 documents, a segment has no more deletions than documents
    c.st.assume(DC(V(0)) == 0, DD(V(0)) == 0, FA(lambda k: Imp(rng(k, 0, n), And(D[k] >= 0, DC(k + 1) == DC(k) + sx(D[k]), DC(k) >= 0, DC(k) <= DC(k + 1), DC(k + 1) < B31)), name="dc", trig=["docsBefore"]),
                FA(lambda k: Imp(And(k >= 0, k <= n), And(DC(k) >= 0, DC(k) < B31)), name="dc2", trig=["docsBefore"]),
                FA(lambda k: Imp(rng(k, 0, m), And(X[k] >= 0, X[k] <= D[f + k], DD(k + 1) == DD(k) + sx(X[k]), DD(k) >= 0, DD(k) < B31)), name="dd", trig=["deletedBefore"]))
    return [n >= 0]
def outs(c, o): return dict(S=coll(c, c.sub(o, "starts"))[0], N=coll(c, c.sub(o, "newStarts"))[0], ns=coll(c, c.sub(o, "starts"))[1], nn=coll(c, c.sub(o, "newStarts"))[1], lo=sx(Z(c.fld(o, "minDocID"), 32)), hi=sx(Z(c.fld(o, "maxDocID"), 32)), sh=sx(Z(c.fld(o, "docShift"), 32)))
def rel(S, N, f, k): return [("starts so far", FA(lambda j: Imp(rng(j, 0, k), sx(S[j]) == DC(f + j)), name="st")), ("new starts so far", FA(lambda j: Imp(rng(j, 0, k), sx(N[j]) == DC(f + j) - DD(j)), name="ns"))]
def i1(c):
    o = c.cargs[0]; t = o.reg.tags; i = sx(Z(c.var("i"), 32)); return [("segments before the merge", And(i >= 0, i <= t["f"], sx(Z(c.fld(o, "minDocID"), 32)) == DC(i)))]
def i2(c):
    o = c.cargs[0]; t = o.reg.tags; i, j, nd = (sx(Z(c.var(x), 32)) for x in ("i", "j", "numDocs")); return [("merged segments", And(j >= 0, j <= t["m"], i == t["f"] + j, nd == DC(i) - DC(t["f"]), sx(Z(c.fld(o, "minDocID"), 32)) == DC(t["f"])))]
def i3(c):
    o = c.cargs[0]; t = o.reg.tags; i = sx(Z(c.var("i"), 32)); w = outs(c, o); return [("progress", And(i >= 1, i <= t["m"], w["ns"] == t["m"], w["nn"] == t["m"]))] + rel(w["S"], w["N"], t["f"], i)
def e_map(c):
    o = c.this; t = o.reg.tags; w = outs(c, o); f, m = t["f"], t["m"]; mc = sx(Z(c.a[5], 32))
    return [("merged range", And(w["lo"] == DC(f), w["hi"] == DC(f + m), w["ns"] == m, w["nn"] == m)), ("shift of what follows", z3.Extract(31, 0, w["sh"]) == z3.Extract(31, 0, DC(f + m) - DC(f) - mc))] + rel(w["S"], w["N"], f, m)
C(MP + "::MergeDocIDRemapper", 5, setup=s_map, requires=r_map, ensures=e_map, loops=[LoopSpec(i1, dec=lambda c: c.cargs[0].reg.tags["f"] - sx(Z(c.var("i"), 32)), name="segments before"), LoopSpec(i2, dec=lambda c: c.cargs[0].reg.tags["m"] - sx(Z(c.var("j"), 32)), name="merged segments"), LoopSpec(i3, dec=lambda c: c.cargs[0].reg.tags["m"] - sx(Z(c.var("i"), 32)), name="starts")])
LEMMAS = LIVE.lemmas()
CONTRACTS = cs
TUS = ["util/ReaderUtil.cpp", "index/DirectoryReader.cpp", "index/MergeDocIDRemapper.cpp", "index/SegmentMergeInfo.cpp", "index/MultiReader.cpp", "search/MultiSearcher.cpp", "search/Searcher.cpp", "index/IndexReader.cpp"]
HARNESS = "c13.cpp"
SECS = 12
ASSUMPTIONS = []
