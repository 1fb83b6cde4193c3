"""C21: the term dictionary.  Order of terms, reading entries one after the other, scanning to a target, writing an entry."""
from .common import *
from engine import strings
from engine.models import aname
TB, TE, TW, TR, TI, TM = "Lucene::TermBuffer", "Lucene::SegmentTermEnum", "Lucene::TermInfosWriter", "Lucene::TermInfosReader", "Lucene::TermInfo", "Lucene::Term"
cs = list(TOKENS)
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32 = z3.BitVecSort(32)
MAXN = 1 << 30
R32 = lambda c: z3.BitVec(uniq("r"), 32)
# ---------------------------------------------------------------- order
def firstdiff(b, nm, A, n, B, m):
    """d: length of the common prefix of A[0..n) and B[0..m)"""
    d = z3.BitVec("first_difference_" + nm, 64); mn = z3.If(n < m, n, m); b.assume(d >= 0, d <= mn, FA(lambda i: Imp(rng(i, 0, d), A[i] == B[i]), name="common"), Or(d == mn, A[d] != B[d])); return d
def lex(A, n, B, m, d): mn = z3.If(n < m, n, m); return Or(And(d < mn, A[d] < B[d]), And(d == mn, n < m)), And(d == mn, n == m)
def code(b, A, n): b.assume(FA(lambda i: Imp(rng(i, 0, n), And(A[i] >= 0, A[i] <= 0x10ffff)), name="code points"))
def order(r, lt, eq): return [("negative exactly when the first is before", (r < 0) == lt), ("zero exactly when they are equal", (r == 0) == eq)]
def s_cc(b):
    o = b.obj("buffer", TB); x, y = b.i32("len1"), b.i32("len2"); n, m = sx(x), sx(y); b.assume(n >= 0, m >= 0, n < MAXN, m < MAXN); p, q = b.array("chars1", 4, n), b.array("chars2", 4, m); A, B = b.arr(p), b.arr(q); code(b, A, n); code(b, B, m)
    o.reg.tags.update(d=firstdiff(b, "chars", A, n, B, m)); return [o, Ptr(p, V(0)), x, Ptr(q, V(0)), y]
def e_cc(c):
    A, n, B, m = c.arr(c.a[1].reg), sx(Z(c.a[2], 32)), c.arr(c.a[3].reg), sx(Z(c.a[4], 32)); return order(Z(c.ret, 32), *lex(A, n, B, m, c.this.reg.tags["d"]))
def cc_inv(c):
    A, n, B, m = c.arr(c.cargs[1].reg), sx(Z(c.cargs[2], 32)), c.arr(c.cargs[3].reg), sx(Z(c.cargs[4], 32)); k = sx(Z(c.var("k"), 32)); return [("equal so far", And(k >= 0, k <= c.cargs[0].reg.tags["d"]))]
C(TB + "::compareChars", 4, setup=s_cc, modifies=lambda c: [], ensures=e_cc, loops=[LoopSpec(cc_inv, name="characters")])
def s_ct(cls):
    def g(b):
        o, p = b.obj("first", TM), b.obj("second", TM); t = {}
        for f in ("_field", "_text"):
            x = []
            for q in (o, p):
                A, n = z3.Array(q.reg.name + f, B64, B32), b.i64(q.reg.name + f + "_length"); b.assume(n >= 0, n < MAXN); strings.new(b.vc, b.st, b.sub(q, f), A, n, 4); code(b, A, n); x += [A, n]
            t[f] = (x, firstdiff(b, f, *x))
        o.reg.tags.update(t=t); return [o, b.sp(p)]
    return g
def e_ct(c):
    t = c.this.reg.tags["t"]; (xf, df), (xt, dt) = t["_field"], t["_text"]; lf, ef = lex(*xf, df); lt, et = lex(*xt, dt); return order(Z(c.ret, 32), Or(lf, And(ef, lt)), And(ef, et))
C(TM + "::compareTo", 1, setup=s_ct(TM), modifies=lambda c: [], ensures=e_ct)
# ---------------------------------------------------------------- reading entries
# entry i of the file: its four term items (abstracted by TermBuffer::read), then the statistics, from item EP(i) on
EP, FPT, PPT, XP, SO = [z3.Function(n, B64, B64) for n in ("ENTRY", "FREQPTR", "PROXPTR", "INDEXPTR", "SKIPOFF")]
DF = z3.Function("DOCFREQ", B64, B32)
BELOW = z3.Function("below_target", B64, z3.BoolSort())
isbuf = lambda c: "buf" in c.this.reg.tags
tid = lambda v, o: v.ghost(o, "term")
ovl = lambda what: (lambda d: what in d.split("(", 1)[1])
def spobj(c, k): return c.vc.load(c.st, c.a[k], PTR)
C(TB + "::set", 1, name="abstract: TermBuffer::set(buffer)", assumed=True, pred=ovl("TermBuffer>"), when=isbuf, modifies=lambda c: [(c.this.reg, "g:term", 0)], ensures=lambda c: [tid(c, c.this) == tid(c.old, spobj(c, 1))], ret=lambda c: None)
C(TB + "::set", 1, name="abstract: TermBuffer::set(term)", assumed=True, pred=ovl("Lucene::Term>"), when=isbuf, modifies=lambda c: [(c.this.reg, "g:term", 0)], ensures=lambda c: [tid(c, c.this) == tid(c.old, spobj(c, 1))], ret=lambda c: None)
C(TB + "::reset", 0, name="abstract: TermBuffer::reset", assumed=True, when=isbuf, modifies=lambda c: [(c.this.reg, "g:term", 0)], ensures=lambda c: [tid(c, c.this) == V(-1)], ret=lambda c: None)
def rd_req(c): i = spobj(c, 1); t = tid(c, c.this); return [("the items of the term that follows", c.ghost(i, "pos") == EP(t + 1))]
C(TB + "::read", 2, name="abstract: TermBuffer::read takes the term that follows the one it holds", assumed=True, when=isbuf, requires=rd_req, modifies=lambda c: [(c.this.reg, "g:term", 0), (spobj(c, 1).reg, "g:pos", 0)],
  ensures=lambda c: [tid(c, c.this) == tid(c.old, c.this) + 1, c.ghost(spobj(c, 1), "pos") == c.old.ghost(spobj(c, 1), "pos") + 4], ret=lambda c: None)
C(TB + "::compareTo", 1, name="abstract: TermBuffer::compareTo of the target", assumed=True, when=isbuf, modifies=lambda c: [], ret=R32, ensures=lambda c: [(Z(c.ret, 32) > 0) == BELOW(tid(c, spobj(c, 1)))])
def s_te(isidx, extra=lambda b: []):
    def g(b):
        o = b.obj("terms", TE); i = tok_setup(b, b.obj("input", IN, exact=False), "f"); b.set_sp(o, "input", i); t = dict(i=i, idx=isidx)
        for f in ("termBuffer", "prevBuffer", "scanBuffer"):
            q = b.obj(f, TB); q.reg.tags["buf"] = 1; b.setghost(q, "term", b.i64(f + "_term")); b.set_sp(o, f, q); t[f] = q
        ti = b.obj("info", TI); b.set_sp(o, "_termInfo", ti); t["ti"] = ti; b.set_sp(o, "fieldInfos", b.obj("fieldInfos", "Lucene::FieldInfos")); b.set(o, "isIndex", z3.BitVecVal(1 if isidx else 0, 8)); b.set(o, "format", z3.BitVecVal((-4) & 0xffffffff, 32))
        K, L = b.ghost(i, "kind"), b.ghost(i, "val"); n = Z(b.fld(o, "size"), 64); si = Z(b.fld(o, "skipInterval"), 32); b.assume(n >= 0, n < MAXN, si > 0); b.inputs["size"] = n; b.inputs["position"] = Z(b.fld(o, "position"), 64); sk = lambda j: z3.If(DF(j) >= si, V(1), V(0))
        b.assume(FA(lambda j: Imp(rng(j, 0, n), And(K[EP(j) + 4] == KINDS["VInt"], L[EP(j) + 4] == sx(DF(j)), K[EP(j) + 5] == KINDS["VLong"], L[EP(j) + 5] == FPT(j) - FPT(j - 1), K[EP(j) + 6] == KINDS["VLong"], L[EP(j) + 6] == PPT(j) - PPT(j - 1),
            Or(DF(j) < si, And(K[EP(j) + 7] == KINDS["VInt"], L[EP(j) + 7] == SO(j), SO(j) == sx(z3.Extract(31, 0, SO(j)))))) ), name="entries", trig=["ENTRY"]))
        b.assume(FA(lambda j: Imp(rng(j, 0, n), EP(j + 1) == EP(j) + 7 + sk(j) + (1 if isidx else 0)), name="follow", trig=["ENTRY"]))
        if isidx: b.assume(FA(lambda j: Imp(rng(j, 0, n), And(K[EP(j) + 7 + sk(j)] == KINDS["VLong"], L[EP(j) + 7 + sk(j)] == XP(j) - XP(j - 1))), name="index pointers", trig=["ENTRY"]))
        o.reg.tags.update(t); return [o] + extra(b)
    return g
def te(v, o): t = o.reg.tags; return Z(v.fld(o, "position"), 64), Z(v.fld(o, "size"), 64), v.ghost(t["i"], "pos"), tid(v, t["termBuffer"]), tid(v, t["prevBuffer"])
def inf(v, o): q = o.reg.tags["ti"]; return Z(v.fld(q, "docFreq", TI), 32), Z(v.fld(q, "freqPointer", TI), 64), Z(v.fld(q, "proxPointer", TI), 64), Z(v.fld(q, "skipOffset", TI), 32)
def at(c, o):
    """the enumeration stands on entry `position`"""
    p, n, f, t, u = te(c, o); df, fp, pp, so = inf(c, o); s = Z(c.fld(o, "skipInterval"), 32)
    return [("place", And(p >= -1, p < n, f == EP(p + 1))), ("the term there", t == p), ("pointers of the entry", And(fp == FPT(p), pp == PPT(p)))] + ([("index pointer", Z(c.fld(o, "indexPointer"), 64) == XP(p))] if o.reg.tags["idx"] else [])
def stats(c, o): p = te(c, o)[0]; df, fp, pp, so = inf(c, o); return [("document frequency", df == DF(p)), ("skip offset", Or(df < Z(c.fld(o, "skipInterval"), 32), sx(so) == SO(p)))]
def bool_(r): return r if z3.is_bool(r) else z3.BoolVal(r) if isinstance(r, bool) else (Z(r, 8) & 1) != 0
def e_nx(c):
    o = c.this; p0, n0, f0, t0, u0 = te(c.old, o); p, n, f, t, u = te(c, o); r = bool_(c.ret)
    return [("another entry exactly when there is one", r == (p0 < n0 - 1)), ("position", And(p == p0 + 1, n == n0)), ("the term before", u == t0), ("at the end the term is unset", Or(r, t == -1))] + [(nm, Imp(r, x)) for nm, x in at(c, o) + stats(c, o)]
def m_nx(c):
    o = c.this; t = o.reg.tags; return [loc(c, o, "position"), loc(c, o, "indexPointer"), (t["i"].reg, "g:pos", 0), (t["termBuffer"].reg, "g:term", 0), (t["prevBuffer"].reg, "g:term", 0)] + [loc(c, t["ti"], f, TI) for f in ("docFreq", "freqPointer", "proxPointer", "skipOffset")]
for k in (False, True): C(TE + "::next", 0, name="SegmentTermEnum::next (%s)" % ("index" if k else "dictionary"), when=lambda c: False, setup=s_te(k), requires=lambda c: at(c, c.this), modifies=m_nx, ensures=e_nx)
C(TE + "::next", 0, name="SegmentTermEnum::next by its contract", assumed=True, when=lambda c: "ti" in c.this.reg.tags, requires=lambda c: at(c, c.this), modifies=m_nx, ensures=e_nx, ret=lambda c: z3.Bool(uniq("more")))
# ---- scanning
def s_sc(b): t = b.obj("target", TM); b.setghost(t, "term", b.i64("target")); b.assume(BELOW(V(-1))); return [b.sp(t)]
def e_sc(c):
    o = c.this; p0, n0 = te(c.old, o)[:2]; p, n, f, t, u = te(c, o)
    return [("entries scanned", sx(Z(c.ret, 32)) == z3.If(p < n, p, n - 1) - p0), ("at the first term not below the target, or the end", Or(And(p < n, t == p, Not(BELOW(p))), And(p == n, t == -1))), ("every term passed is below it", FA(lambda k: Imp(And(k >= p0, k < p), BELOW(k)), name="below", trig=["below_target"]))] + [(nm, Imp(p < n, x)) for nm, x in at(c, o)]
def sc_inv(c):
    o = c.cargs[0]; p0, n0 = te(c.pre, o)[:2]; p = te(c, o)[0]; return at(c, o) + [("scanned", And(p >= p0, te(c, o)[1] == n0, sx(Z(c.var("count"), 32)) == p - p0)), ("passed", FA(lambda k: Imp(And(k >= p0, k < p), BELOW(k)), name="below", trig=["below_target"]))] + [("statistics", Or(p == p0, And([x for _, x in stats(c, o)])))]
def m_sc(c): return m_nx(c) + [(c.this.reg.tags["scanBuffer"].reg, "g:term", 0)]
C(TE + "::scanTo", 1, setup=s_te(False, s_sc), requires=lambda c: at(c, c.this), modifies=m_sc, ensures=e_sc, loops=[LoopSpec(sc_inv, dec=lambda c: te(c, c.cargs[0])[1] - te(c, c.cargs[0])[0], name="entries")])
# ---- going to an index entry
C(IN + "::seek", 1, name="tokens: IndexInput::seek", assumed=True, when=lambda c: "g:kind" in c.st.mem[c.this.reg], modifies=tok_mi, ensures=lambda c: [c.ghost(c.this, "pos") == z3.Function("token_at", B64, B64)(Z(c.a[1], 64))], ret=lambda c: None)
def s_sk(b): t = b.obj("indexTerm", TM); b.setghost(t, "term", b.i64("index_term")); q = b.obj("indexInfo", TI); return [b.i64("pointer"), b.i64("p"), b.sp(t), b.sp(q)]
def r_sk(c):
    o = c.this; p = Z(c.a[2], 64); q = spobj(c, 4); return [("the pointer is that of the next entry", z3.Function("token_at", B64, B64)(Z(c.a[1], 64)) == EP(p + 1)), ("place", And(p >= -1, p < te(c, o)[1])), ("its term", tid(c, spobj(c, 3)) == p), ("its pointers", And(Z(c.fld(q, "freqPointer", TI), 64) == FPT(p), Z(c.fld(q, "proxPointer", TI), 64) == PPT(p)))]
def e_sk(c): o = c.this; return at(c, o) + [("nothing before", te(c, o)[4] == -1), ("the requested entry", te(c, o)[0] == Z(c.a[2], 64)), ("its statistics", And(inf(c, o)[0] == Z(c.old.fld(spobj(c, 4), "docFreq", TI), 32), inf(c, o)[3] == Z(c.old.fld(spobj(c, 4), "skipOffset", TI), 32)))]
C(TE + "::seek", 4, setup=s_te(False, s_sk), requires=r_sk, modifies=m_nx, ensures=e_sk)
# ---------------------------------------------------------------- writing an entry
def s_wt(b):
    o = b.obj("writer", TW); out = tok_setup(b, b.obj("output", OUT, exact=False), "w"); b.set_sp(o, "output", out); n = b.i32("termBytesLength"); b.assume(sx(n) >= 0, sx(n) < MAXN); cap = b.i64("term_room"); b.assume(cap >= sx(n), cap < MAXN); r = b.array("term", 1, cap); a = Ptr(b.vc.new_obj(b.st, "termBytes", sym=False)); b.lucene_array(a, r, z3.Extract(31, 0, cap))
    k = b.i64("last_room"); b.assume(k >= 0, k < MAXN); l = b.array("last", 1, k); b.lucene_array(b.sub(o, "lastTermBytes"), l, z3.Extract(31, 0, k)); m = Z(b.fld(o, "lastTermBytesLength"), 32); b.inputs["lastTermBytesLength"] = m; b.assume(sx(m) >= 0, sx(m) <= k)
    d = firstdiff(b, "bytes", b.arr(r), sx(n), b.arr(l), sx(m)); o.reg.tags.update(out=out, r=r, l=l, d=d); return [o, b.i32("fieldNumber"), a, n]
def e_wt(c):
    o = c.this; t = o.reg.tags; out, d = t["out"], t["d"]; p = c.old.ghost(out, "pos"); A = c.old.arr(t["r"]); n = sx(Z(c.a[3], 32)); B = c.ghost(out, "blk"); T_ = [tok(c, out, p + k) for k in range(4)]
    L, room = larr(c, o); m = sx(Z(c.fld(o, "lastTermBytesLength"), 32))
    return [("four items", c.ghost(out, "pos") == p + 4), ("shared prefix, as long as possible", And(T_[0][0] == KINDS["VInt"], T_[0][1] == d)), ("length of the rest", And(T_[1][0] == KINDS["VInt"], T_[1][1] == n - d)), ("the rest", And(T_[2][0] == KINDS["Bytes"], T_[2][1] == n - d)), ("bytes of the rest", FA(lambda j: Imp(rng(j, 0, n - d), z3.Select(B, p + 2, j) == A[d + j]))), ("field number", And(T_[3][0] == KINDS["VInt"], T_[3][1] == sx(Z(c.a[1], 32)))),
            ("remembered as the last term: length", And(m == n, n <= room)), ("remembered as the last term: bytes", FA(lambda j: Imp(rng(j, 0, n), L[j] == A[j])))]
def larr(c, o):
    from engine.spec import larr
    r, n = larr(c, o, "lastTermBytes"); return c.arr(r), sx(n)
def wt_inv(c): o = c.cargs[0]; k = sx(Z(c.var("start"), 32)); return [("common so far", And(k >= 0, k <= o.reg.tags["d"]))]
C(TW + "::writeTerm", 3, setup=s_wt, ensures=e_wt, loops=[LoopSpec(wt_inv, name="shared prefix")])
CONTRACTS = cs
LEMMAS = []
TUS = ["index/Term.cpp", "index/TermBuffer.cpp", "index/SegmentTermEnum.cpp", "index/TermInfosWriter.cpp", "index/TermInfosReader.cpp", "index/TermInfo.cpp", "store/IndexOutput.cpp", "store/IndexInput.cpp"]
HARNESS = "c21.cpp"
SECS = 12
ASSUMPTIONS = ["code points at most U+10FFFF in compared texts", "TermBuffer::read and set by abstract contracts in the proofs of the enumeration (the bounded stand-in exercises them)", "token streams (C01)"]
