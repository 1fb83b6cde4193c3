"""C11: posting lists.  What the writer emits and what the readers take are the same token sequence: for each document
its gap and frequency, for each occurrence its gap and payload."""
from .common import *
from engine.spec import lcoll
TD, TP, DW, PW = "Lucene::SegmentTermDocs", "Lucene::SegmentTermPositions", "Lucene::FormatPostingsDocsWriter", "Lucene::FormatPostingsPositionsWriter"
cs = list(TOKENS)
def C(fn, n=None, **k): cs.append(Contract(fn, n, **k)); return cs[-1]
V = lambda n: z3.BitVecVal(n, 64)
B32 = z3.BitVecSort(32)
MAXN = 1 << 30
DOC, FRQ, SP = z3.Function("DOC", B64, B32), z3.Function("FREQ", B64, B32), z3.Function("TOK", B64, B64)      # document, frequency and first token of the i-th posting
FS = z3.Function("FREQSUM", B64, B64)
DEL = z3.Function("deleted", B32, z3.BoolSort())
FP = z3.Function("FILEPOS", B64, B64)      # file position of a token
prev = lambda i: z3.If(i == 0, z3.BitVecVal(0, 32), DOC(i - 1))
KV, KB = KINDS["VInt"], KINDS["Bytes"]
def plist(b, st, omit, n):
    """the posting list: its postings and the tokens that hold them"""
    K, L = b.ghost(st, "kind"), b.ghost(st, "val"); d = lambda i: DOC(i) - prev(i)
    b.assume(FA(lambda i: Imp(rng(i, 0, n), And(DOC(i) >= 0, d(i) >= 0, Or(i == 0, d(i) > 0), FRQ(i) >= 1)), name="postings", trig=["DOC", "FREQ"]))
    if omit: b.assume(FA(lambda i: Imp(rng(i, 0, n), And(FRQ(i) == 1, K[SP(i)] == KV, L[SP(i)] == sx(d(i)), SP(i + 1) == SP(i) + 1)), name="encoded", trig=["TOK"]))
    else: b.assume(FA(lambda i: Imp(rng(i, 0, n), And(K[SP(i)] == KV, L[SP(i)] == sx((d(i) << 1) | z3.If(FRQ(i) == 1, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))),
                        Or(FRQ(i) == 1, And(K[SP(i) + 1] == KV, L[SP(i) + 1] == sx(FRQ(i)))), SP(i + 1) == SP(i) + z3.If(FRQ(i) == 1, V(1), V(2)))), name="encoded", trig=["TOK"]))
    b.assume(FA(lambda i: Imp(rng(i, 0, n), FS(i + 1) == FS(i) + sx(FRQ(i))), name="sum", trig=["FREQSUM"]), FS(V(0)) == 0)
C("Lucene::BitVector::get", 1, name="abstract: BitVector::get", assumed=True, when=lambda c: "deleted" in c.this.reg.tags, modifies=lambda c: [], ret=lambda c: DEL(Z(c.a[1], 32)), ensures=lambda c: [])
def s_td(cls, omit, dels, extra=lambda b: []):
    def g(b):
        o = b.obj("postings", cls); st = tok_setup(b, b.obj("freqStream", IN, exact=False), "f"); n = b.i32("df"); b.set(o, "df", n, TD); b.assume(n >= 0, n < MAXN); n = sx(n)
        b.vc.store(b.st, b.sub(o, "__freqStream", TD), PTR, st); b.set_sp(o, "_freqStream", st, TD); dv = b.obj("deletedDocs", "Lucene::BitVector"); dv.reg.tags["deleted"] = 1
        b.vc.store(b.st, b.sub(o, "__deletedDocs", TD), PTR, dv if dels else NULL); b.set(o, "currentFieldOmitTermFreqAndPositions", z3.BitVecVal(1 if omit else 0, 8), TD)
        o.reg.tags.update(st=st, dels=dels, tp=cls == TP); plist(b, st, omit, n)
        for f in ("count", "_doc", "_freq"): b.inputs[f] = Z(b.fld(o, f, TD), 32)
        return [o] + extra(b)
    return g
def td(v, o): t = o.reg.tags; return sx(Z(v.fld(o, "count", TD), 32)), sx(Z(v.fld(o, "df", TD), 32)), Z(v.fld(o, "_doc", TD), 32), Z(v.fld(o, "_freq", TD), 32), v.ghost(t["st"], "pos")
def live(o): return (lambda d: Not(DEL(d))) if o.reg.tags["dels"] else (lambda d: z3.BoolVal(True))
def td_state(c, o, freq=True):
    i, n, d, f, p = td(c, o)
    return [("place in the list", And(i >= 0, i <= n, d == prev(i), p == SP(i)))] + ([("frequency", Or(i == 0, f == FRQ(i - 1)))] if freq else [])
def lazy(v, o): return sx(Z(v.fld(o, "lazySkipProxCount", TP), 32))
def gone(o, i0, i): lv = live(o); return FA(lambda k: Imp(rng(k, i0, i), Not(lv(DOC(k)))), name="gone", trig=["DOC"])
def e_next(c):
    o = c.this; i0 = td(c.old, o)[0]; i, n, d, f, p = td(c, o); r = c.ret
    r = r if z3.is_bool(r) else (Z(r, 8) & 1) != 0 if not isinstance(r, bool) else z3.BoolVal(r)
    i_ = z3.If(r, i - 1, i)
    out = [("a live posting", Imp(r, And(i > i0, live(o)(DOC(i - 1)), d == DOC(i - 1), f == FRQ(i - 1)))), ("or the end", Imp(Not(r), i == n)), ("nothing live is passed over", gone(o, i0, i_))] + td_state(c, o, False)
    if o.reg.tags["tp"]: out.append(("occurrences passed over are remembered", z3.Extract(31, 0, lazy(c, o)) == z3.Extract(31, 0, lazy(c.old, o) + FS(i_) - FS(i0))))
    return out
def td_mod(c):
    o = c.this; return [loc(c, o, f, TD) for f in ("count", "_doc", "_freq")] + [(o.reg.tags["st"].reg, "g:pos", 0)] + ([loc(c, o, "lazySkipProxCount", TP)] if o.reg.tags["tp"] else [])
def n_inv(c):
    o = c.cargs[0]; i0 = td(c.pre, o)[0]; i, n, d, f, p = td(c, o)
    return td_state(c, o, False) + [("progress", And(i >= i0, n == td(c.pre, o)[1])), ("nothing live is passed over", gone(o, i0, i))] + ([("occurrences passed over are remembered", z3.Extract(31, 0, lazy(c, o)) == z3.Extract(31, 0, lazy(c.pre, o) + FS(i) - FS(i0)))] if o.reg.tags["tp"] else [])
VAR = [(cls, omit, dels) for cls in (TD, TP) for omit in (False, True) for dels in (True, False) if not (cls == TP and omit)]
nm = lambda fn, cls, omit, dels: "%s (%s%s%s)" % (fn, cls[8:], ", no frequencies" if omit else "", ", with deletions" if dels else "")
for cls, omit, dels in VAR:
    C(TD + "::next", 0, name=nm("SegmentTermDocs::next", cls, omit, dels), when=lambda c: False, setup=s_td(cls, omit, dels), requires=lambda c: td_state(c, c.this, False), modifies=td_mod, ensures=e_next,
      loops=[LoopSpec(n_inv, dec=lambda c: td(c, c.cargs[0])[1] - td(c, c.cargs[0])[0], name="past deleted documents")])
C(TD + "::next", 0, name="SegmentTermDocs::next by its contract", assumed=True, when=lambda c: "st" in c.this.reg.tags, requires=lambda c: td_state(c, c.this, False), modifies=td_mod, ensures=e_next, ret=lambda c: z3.Bool(uniq("found")))
# ---- many at a time
def s_rd(omit, dels):
    def ex(b):
        out = []
        n = b.i64("room"); b.assume(n >= 0, n < MAXN)
        for x in ("docs", "freqs"):
            q = Ptr(b.vc.new_obj(b.st, x + "_c", sym=False)); r = b.array(x, 4, n); b.collection(q, r, n); out.append(q)
        return out
    return s_td(TD, omit, dels, ex)
def rdst(c, a): return c.arr(lcoll(c, a[1])[0], 0, 4), c.arr(lcoll(c, a[2])[0], 0, 4), lcoll(c, a[1])[2]
def e_rd(c):
    o = c.this; D, F, n = rdst(c, c.a); m = sx(Z(c.ret, 32)); i0 = td(c.old, o)[0]; i, df, d, f, p = td(c, o); lv = live(o)
    return td_state(c, o, False) + [("fits", And(m >= 0, m <= n)), ("full or at the end", Or(m == n, i == df))] + cnt(c, o, D, F, i0, i, m)
LV = z3.Function("LIVESUM", B64, B64)      # number of live postings below i
def cnt(c, o, D, F, i0, i, m):
    lv = live(o)
    return [("as many as are live", m == LV(i) - LV(i0)), ("every live posting is in its slot", FA(lambda k: Imp(And(rng(k, i0, i), lv(DOC(k))), And(D[LV(k) - LV(i0)] == DOC(k), F[LV(k) - LV(i0)] == FRQ(k))), name="slots", trig=["LIVESUM", "DOC"])),
            ("slots follow each other", FA(lambda k: Imp(And(k >= i0, k <= i), And(LV(k) >= LV(i0), LV(k) <= LV(i), Or(k == i, Not(lv(DOC(k))), LV(k) < LV(i)))), name="follow", trig=["LIVESUM", "DOC"]))]
def livedef(o): lv = live(o); return FA(lambda i: Imp(And(i >= 0, i < MAXN), And(LV(i + 1) == LV(i) + z3.If(lv(DOC(i)), V(1), V(0)))), name="livesum", trig=["LIVESUM"])
def r_rd(c): o = c.this; return td_state(c, o, False) + [("definition of the number of live postings", livedef(o)), ("counted from somewhere", And(LV(td(c, o)[0]) >= 0, LV(td(c, o)[0]) < MAXN)), ("room in both", lcoll(c, c.a[1])[2] == lcoll(c, c.a[2])[2])]
def rd_inv(c):
    o = c.cargs[0]; D, F, n = rdst(c, c.cargs); m = sx(Z(c.var("i"), 32)); i0 = td(c.pre, o)[0]; i, df, d, f, p = td(c, o)
    return td_state(c, o, False) + [("room", And(m >= 0, m <= n, i >= i0, df == td(c.pre, o)[1]))] + cnt(c, o, D, F, i0, i, m)
def rd_mod(c): return td_mod(c) + [(lcoll(c, c.a[1])[0], 0, 4), (lcoll(c, c.a[2])[0], 0, 4)]
for omit in (False, True):
    for dels in (True, False):
        C(TD + "::read", 2, name=nm("SegmentTermDocs::read", TD, omit, dels), when=lambda c: False, setup=s_rd(omit, dels), requires=r_rd, modifies=rd_mod, ensures=e_rd, loops=[LoopSpec(rd_inv, name="postings")])
# ---- skipping: the skip list is trusted to name a posting before the target and where it is
SL = "Lucene::MultiLevelSkipListReader"
NC, SDOC, SFP = z3.BitVec("skipped_to", 32), z3.BitVec("skip_doc", 32), z3.BitVec("skip_pointer", 64)
C("Lucene::DefaultSkipListReader::init", 5, name="abstract: DefaultSkipListReader::init", assumed=True, modifies=lambda c: [], ensures=lambda c: [], ret=lambda c: None)
C(SL + "::skipTo", 1, name="abstract: skipTo names a place, with all before it before the target", assumed=True, modifies=lambda c: [], ret=lambda c: NC, ensures=lambda c: [NC <= Z(c.vc.hyp_df, 32), Imp(NC > 0, And(SDOC == DOC(sx(NC) - 1), SFP == FP(SP(sx(NC))))), FA(lambda k: Imp(rng(k, 0, sx(NC)), DOC(k) < Z(c.a[1], 32)), name="before", trig=["DOC"])])
C(SL + "::getDoc", 0, name="abstract: skip list getDoc", assumed=True, modifies=lambda c: [], ret=lambda c: SDOC, ensures=lambda c: [])
C("Lucene::DefaultSkipListReader::getFreqPointer", 0, name="abstract: getFreqPointer", assumed=True, modifies=lambda c: [], ret=lambda c: SFP, ensures=lambda c: [])
C("Lucene::DefaultSkipListReader::getProxPointer", 0, name="abstract: getProxPointer", assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("pp"), 64), ensures=lambda c: [])
C("Lucene::DefaultSkipListReader::getPayloadLength", 0, name="abstract: getPayloadLength", assumed=True, modifies=lambda c: [], ret=lambda c: z3.BitVec(uniq("pl"), 32), ensures=lambda c: [])
C(IN + "::seek", 1, name="tokens: seek", assumed=True, when=lambda c: isinstance(c.a[0], Ptr) and "g:kind" in c.st.mem[c.a[0].reg], modifies=tok_mi, ensures=lambda c: [FP(c.ghost(c.this, "pos")) == Z(c.a[1], 64), FA(lambda k: Imp(FP(k) == Z(c.a[1], 64), c.ghost(c.this, "pos") == k), name="place", trig=["FILEPOS"])])
C(IN + "::getFilePointer", 0, name="tokens: getFilePointer", assumed=True, when=lambda c: isinstance(c.a[0], Ptr) and "g:kind" in c.st.mem[c.a[0].reg], modifies=lambda c: [], ret=lambda c: FP(c.ghost(c.this, "pos")), ensures=lambda c: [])
def s_sk(b):
    a = s_td(TD, False, True, lambda b: [b.i32("target")])(b); o = a[0]; sl = b.obj("skips", "Lucene::DefaultSkipListReader"); b.set_sp(o, "skipListReader", sl, TD); b.vc.hyp_df = z3.Extract(31, 0, td(b, o)[1]); b.inputs["skipInterval"] = Z(b.fld(o, "skipInterval", TD), 32); return a
def r_sk(c): return td_state(c, c.this, False)
def below(o, i0, i, t): lv = live(o); return FA(lambda k: Imp(rng(k, i0, i), Or(Not(lv(DOC(k))), DOC(k) < t)), name="below", trig=["DOC"])
def e_sk(c):
    o = c.this; i0 = td(c.old, o)[0]; i, n, d, f, p = td(c, o); r = c.ret; r = r if z3.is_bool(r) else (Z(r, 8) & 1) != 0; t = Z(c.a[1], 32)
    return [("a live posting not before the target", Imp(r, And(i > i0, live(o)(d), d == DOC(i - 1), f == FRQ(i - 1), d >= t))), ("or the end", Imp(Not(r), i == n)), ("nothing wanted is passed over", below(o, i0, z3.If(r, i - 1, i), t))] + td_state(c, o, False)
def sk_inv(c):
    o = c.cargs[0]; i0 = td(c.pre, o)[0]; i, n, d, f, p = td(c, o); t = Z(c.cargs[1], 32)
    return td_state(c, o, False) + [("progress", And(i >= i0, n == td(c.pre, o)[1])), ("nothing wanted is passed over", below(o, i0, i, t))]
C(TD + "::skipTo", 1, setup=s_sk, requires=r_sk, modifies=lambda c: td_mod(c) + [loc(c, c.this, "haveSkipped", TD)], ensures=e_sk, loops=[LoopSpec(sk_inv, name="scan")])
# ---------------------------------------------------------------- writing documents
CE = EXC("CorruptIndex")
SW = "Lucene::DefaultSkipListWriter"
for w in (SW, "Lucene::MultiLevelSkipListWriter"):
    C(w + "::setSkipData", 3, name="abstract: %s::setSkipData" % w, assumed=True, modifies=lambda c: [], ensures=lambda c: [], ret=lambda c: None)
    C(w + "::bufferSkip", 1, name="abstract: %s::bufferSkip" % w, assumed=True, modifies=lambda c: [], ensures=lambda c: [], ret=lambda c: None)
def s_add(b):
    o = b.obj("docs", DW); out = tok_setup(b, b.obj("freqOut", OUT, exact=False), "o"); b.set_sp(o, "out", out); pw = b.obj("positions", PW); b.set_sp(o, "posWriter", pw); b.set_sp(o, "skipListWriter", b.obj("skips", SW)); o.reg.tags.update(out=out)
    for f in ("lastDocID", "df", "skipInterval"): b.inputs[f] = Z(b.fld(o, f), 32)
    return [ret_obj(b), o, b.i32("docID"), b.i32("termDocFreq")]
def dw(c): return c.a[1]
def ad(v, o): return Z(v.fld(o, "lastDocID"), 32), Z(v.fld(o, "df"), 32)
def bad(c): l, n = ad(c, dw(c)); d = Z(c.a[2], 32); return Or(d < 0, And(n > 0, d <= l))
def r_add(c): l, n = ad(c, dw(c)); return [("as after earlier calls", And(l >= 0, n >= 0, n < MAXN, Z(c.fld(dw(c), "skipInterval"), 32) > 0, Or(n > 0, l == 0))), ("a frequency", Z(c.a[3], 32) >= 1), ("below the number of documents", Or(Z(c.a[2], 32) < Z(c.fld(dw(c), "totalNumDocs"), 32)))]
def e_add(c):
    o = dw(c); out = o.reg.tags["out"]; l0, n0 = ad(c.old, o); l, n = ad(c, o); d, f = Z(c.a[2], 32), Z(c.a[3], 32); om = (Z(c.fld(o, "omitTermFreqAndPositions"), 8) & 1) != 0
    p0, p = c.old.ghost(out, "pos"), c.ghost(out, "pos"); k0, v0 = tok(c, out, p0); k1, v1 = tok(c, out, p0 + 1); g = d - l0
    return [("state", And(l == d, n == n0 + 1)), ("first token", And(k0 == KV, v0 == sx(z3.If(om, g, (g << 1) | z3.If(f == 1, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))))), ("frequency token", Imp(And(Not(om), f != 1), And(k1 == KV, v1 == sx(f)))), ("as many tokens", p == p0 + z3.If(Or(om, f == 1), V(1), V(2))),
            ("earlier tokens stay", FA(lambda k: Imp(And(k >= 0, k < p0), And(c.ghost(out, "kind")[k] == c.old.ghost(out, "kind")[k], c.ghost(out, "val")[k] == c.old.ghost(out, "val")[k]))))]
C(DW + "::addDoc", 2, setup=s_add, requires=r_add, raises=lambda c: [(CE, bad(c))], ensures=e_add)
# ---------------------------------------------------------------- writing positions
def s_pos(b):
    o = b.obj("positions", PW); out = tok_setup(b, b.obj("proxOut", OUT, exact=False), "o"); b.set_sp(o, "out", out); o.reg.tags["out"] = out; n = b.i32("payload_size"); b.assume(n >= 0)
    reg = b.array("payload", 1, sx(n)); ba = Ptr(b.vc.new_obj(b.st, "payload_a", sym=False)); b.lucene_array(ba, reg, n); o.reg.tags["pay"] = reg
    for f in ("lastPosition", "lastPayloadLength"): b.inputs[f] = Z(b.fld(o, f), 32)
    b.set(o, "omitTermFreqAndPositions", z3.BitVecVal(0, 8))
    return [o, b.i32("position"), ba, b.i32("payloadOffset"), b.i32("payloadLength")]
def r_pos(c): n = Z(c.a[4], 32); return [("payload in bounds", And(n >= 0, sx(n) <= Z(c.n(c.this.reg.tags["pay"]), 64)))]
def e_pos(c):
    o = c.this; out = o.reg.tags["out"]; sp_ = (Z(c.fld(o, "storePayloads"), 8) & 1) != 0; q, n = Z(c.a[1], 32), Z(c.a[4], 32); g = q - Z(c.old.fld(o, "lastPosition"), 32); ln = Z(c.old.fld(o, "lastPayloadLength"), 32); ch = n != ln
    p0, p = c.old.ghost(out, "pos"), c.ghost(out, "pos"); k0, v0 = tok(c, out, p0); k1, v1 = tok(c, out, p0 + 1); pb = z3.If(ch, p0 + 2, p0 + 1); kb, vb = tok(c, out, pb); A = c.arr(o.reg.tags["pay"]); B = c.ghost(out, "blk")
    one = z3.BitVecVal(1, 32)
    return [("state", And(Z(c.fld(o, "lastPosition"), 32) == q, Z(c.fld(o, "lastPayloadLength"), 32) == z3.If(sp_, n, ln))), ("first token", And(k0 == KV, v0 == sx(z3.If(sp_, (g << 1) | z3.If(ch, one, z3.BitVecVal(0, 32)), g)))),
            ("length token", Imp(And(sp_, ch), And(k1 == KV, v1 == sx(n)))), ("payload token", Imp(And(sp_, n > 0), And(kb == KB, vb == sx(n)))), ("payload bytes", FA(lambda j: Imp(And(sp_, n > 0, j >= 0, j < sx(n)), z3.Select(B, pb, j) == A[j]))),
            ("as many tokens", p == z3.If(sp_, pb + z3.If(n > 0, V(1), V(0)), p0 + 1)), ("earlier tokens stay", FA(lambda k: Imp(And(k >= 0, k < p0), And(c.ghost(out, "kind")[k] == c.old.ghost(out, "kind")[k], c.ghost(out, "val")[k] == c.old.ghost(out, "val")[k]))))]
C(PW + "::addPosition", 4, setup=s_pos, requires=r_pos, ensures=e_pos)
# ---------------------------------------------------------------- reading positions
DL, PL, PT = z3.Function("GAP", B64, B32), z3.Function("PAYLEN", B64, B32), z3.Function("PTOK", B64, B64)      # of the q-th occurrence: gap, payload length, first token
plen = lambda q: z3.If(q == 0, z3.BitVecVal(-1, 32), PL(q - 1))
chg = lambda q: PL(q) != plen(q)
blkat = lambda q: PT(q) + z3.If(chg(q), V(2), V(1))
def s_px(pay, cls=TP, extra=lambda b: []):
    def g(b):
        o = b.obj("postings", cls); st = tok_setup(b, b.obj("proxStream", IN, exact=False), "p"); b.set_sp(o, "proxStream", st, TP); o.reg.tags.update(px=st, pay=pay, q=b.i64("index")); n = b.i64("occurrences"); o.reg.tags["nocc"] = n
        b.set(o, "currentFieldStoresPayloads", z3.BitVecVal(1 if pay else 0, 8), TD); b.set(o, "currentFieldOmitTermFreqAndPositions", z3.BitVecVal(0, 8), TD)
        b.assume(n >= 0, n < MAXN, o.reg.tags["q"] >= 0, o.reg.tags["q"] <= n); K, L = b.ghost(st, "kind"), b.ghost(st, "val"); one = z3.BitVecVal(1, 32)
        if pay: b.assume(FA(lambda q: Imp(rng(q, 0, n), And(DL(q) >= 0, PL(q) >= 0, K[PT(q)] == KV, L[PT(q)] == sx((DL(q) << 1) | z3.If(chg(q), one, z3.BitVecVal(0, 32))), Or(Not(chg(q)), And(K[PT(q) + 1] == KV, L[PT(q) + 1] == sx(PL(q)))),
                         Or(PL(q) <= 0, And(K[blkat(q)] == KB, L[blkat(q)] == sx(PL(q)), FP(blkat(q) + 1) == FP(blkat(q)) + sx(PL(q)))), PT(q + 1) == blkat(q) + z3.If(PL(q) > 0, V(1), V(0)))), name="occurrences", trig=["PTOK"]))
        else: b.assume(FA(lambda q: Imp(rng(q, 0, n), And(DL(q) >= 0, PL(q) == 0, K[PT(q)] == KV, L[PT(q)] == sx(DL(q)), PT(q + 1) == PT(q) + 1)), name="occurrences", trig=["PTOK"]))
        for f in ("proxCount", "position", "payloadLength", "lazySkipProxCount"): b.inputs[f] = Z(b.fld(o, f, TP), 32)
        return [o] + extra(b)
    return g
def px(v, o): return Z(v.fld(o, "payloadLength", TP), 32), (Z(v.fld(o, "needToLoadPayload", TP), 8) & 1) != 0, v.ghost(o.reg.tags["px"], "pos"), sx(Z(v.fld(o, "lazySkipProxCount", TP), 32)), Z(v.fld(o, "lazySkipPointer", TP), 64)
def px_at(c, o, q, done=None):
    """the stream stands before occurrence q; the payload of the one before may still be unread (done: it is not)"""
    ln, need, p, lz, lp = px(c, o); t = o.reg.tags
    if not t["pay"]: return And(p == PT(q), Not(need))
    a = And(p == PT(q), Not(need)); a = And(a, Or(q == 0, ln == PL(q - 1)))
    if done: return a
    return Or(a, And(need, q > 0, ln == PL(q - 1), p == z3.If(ln > 0, blkat(q - 1), PT(q))))
def occ(c): o = c.this; return o.reg.tags["q"], o.reg.tags["nocc"]
def px_mod(c): o = c.this; return [loc(c, o, f, TP) for f in ("payloadLength", "needToLoadPayload")] + [(o.reg.tags["px"].reg, "g:pos", 0)]
for pay in (True, False):
    w = ", payloads" if pay else ", no payloads"
    C(TP + "::readDeltaPosition", 0, name="SegmentTermPositions::readDeltaPosition" + w, when=lambda c: False, setup=s_px(pay), requires=lambda c: [("before an occurrence", And(occ(c)[0] < occ(c)[1], px_at(c, c.this, occ(c)[0], True)))], modifies=px_mod,
      ensures=lambda c, pay=pay: [("its gap", Z(c.ret, 32) == DL(occ(c)[0])), ("payload still to come" if pay else "after it", And(px_at(c, c.this, occ(c)[0] + 1), px(c, c.this)[1]) if pay else px_at(c, c.this, occ(c)[0] + 1))])
    C(TP + "::skipPayload", 0, name="SegmentTermPositions::skipPayload" + w, when=lambda c: False, setup=s_px(pay), requires=lambda c: [("before an occurrence", px_at(c, c.this, occ(c)[0]))], modifies=px_mod, ensures=lambda c: [("payload passed", px_at(c, c.this, occ(c)[0], True))])
    def sp_inv(c):
        o = c.cargs[0]; i = sx(Z(c.var("i"), 32)); n = sx(Z(c.cargs[1], 32)); q0, m = o.reg.tags["q"], o.reg.tags["nocc"]
        return [("progress", And(i >= 0, i <= n)), ("stands before the next", px_at(c, o, q0 + (n - i), True))]
    C(TP + "::skipPositions", 1, name="SegmentTermPositions::skipPositions" + w, when=lambda c: False, setup=s_px(pay, TP, lambda b: [b.i32("n")]), requires=lambda c: [("so many are left", And(Z(c.a[1], 32) >= 0, sx(Z(c.a[1], 32)) <= occ(c)[1] - occ(c)[0])), ("before an occurrence", px_at(c, c.this, occ(c)[0], True))], modifies=px_mod,
      ensures=lambda c: [("so many passed", px_at(c, c.this, occ(c)[0] + sx(Z(c.a[1], 32)), True))], loops=[LoopSpec(sp_inv, dec=lambda c: sx(Z(c.var("i"), 32)), name="occurrences")])
    C(TP + "::skipPositions", 1, name="SegmentTermPositions::skipPositions by its contract" + w, assumed=True, when=lambda c, pay=pay: "px" in c.this.reg.tags and c.this.reg.tags["pay"] == pay,
      requires=lambda c: [("so many are left", And(Z(c.a[1], 32) >= 0, sx(Z(c.a[1], 32)) <= occ(c)[1] - occ(c)[0])), ("before an occurrence", px_at(c, c.this, occ(c)[0], True))], modifies=px_mod, ensures=lambda c: [("so many passed", px_at(c, c.this, occ(c)[0] + sx(Z(c.a[1], 32)), True))], ret=lambda c: None)
    def r_np(c):
        o = c.this; q, m = occ(c); ln, need, p, lz, lp = px(c, o); pc = sx(Z(c.fld(o, "proxCount", TP), 32))
        return [("an occurrence is left", And(pc >= 1, lz >= 0, lz < MAXN, q + lz < m)), ("where the stream stands", Or(And(lp == -1, px_at(c, o, q)), And(lp == FP(PT(q)), lp >= 0, Or(q == 0, ln == PL(q - 1)), Not(need))))]
    def e_np(c):
        o = c.this; q = occ(c)[0] + px(c.old, o)[3]; ln, need, p, lz, lp = px(c, o); pay = o.reg.tags["pay"]; old = c.old
        return [("its position", And(Z(c.ret, 32) == Z(c.old.fld(o, "position", TP), 32) + DL(q), Z(c.fld(o, "position", TP), 32) == Z(c.ret, 32))), ("counted", Z(c.fld(o, "proxCount", TP), 32) == Z(c.old.fld(o, "proxCount", TP), 32) - 1),
                ("stands after it", And(px_at(c, o, q + 1), lz == 0, lp == -1))] + ([("payload to come, of its length", And(need, ln == PL(q)))] if pay else [])
    C(TP + "::nextPosition", 0, name="SegmentTermPositions::nextPosition" + w, when=lambda c: False, setup=s_px(pay), requires=r_np, modifies=lambda c: px_mod(c) + [loc(c, c.this, f, TP) for f in ("proxCount", "position", "lazySkipPointer", "lazySkipProxCount")], ensures=e_np)
CONTRACTS = cs
LEMMAS = []
TUS = ["index/SegmentTermDocs.cpp", "index/SegmentTermPositions.cpp", "index/FormatPostingsDocsWriter.cpp", "index/FormatPostingsPositionsWriter.cpp", "index/MultiLevelSkipListReader.cpp", "index/DefaultSkipListReader.cpp", "index/DefaultSkipListWriter.cpp", "index/MultiLevelSkipListWriter.cpp", "util/BitVector.cpp", "store/IndexInput.cpp", "store/IndexOutput.cpp", "util/MiscUtils.cpp"]
HARNESS = "c11.cpp"
SECS = 14
ASSUMPTIONS = ["the skip list reader (MultiLevelSkipListReader/DefaultSkipListReader) is assumed to name a posting before the target and its file position; the native harness exercises it with skips over long lists (bounded)"]
