"""Spec functions and abstract contracts shared by several properties."""
from engine.spec import *
from engine.sym import _flat
OUT, IN = "Lucene::IndexOutput", "Lucene::IndexInput"
EXN = "Null AlreadyClosed Compression CorruptIndex FieldReader FileNotFound IllegalArgument IllegalState IndexOutOfBounds IO LockObtainFailed LockReleaseFailed Lookahead MergeAborted Merge NoSuchDirectory NullPointer NumberFormat OutOfMemory Parse QueryParser Runtime StaleReader StopFillCache Temporary TimeExceeded TooManyClauses UnsupportedOperation".split()
EXP = {"IllegalState": "Runtime", "IllegalArgument": "Runtime", "IndexOutOfBounds": "Runtime", "NullPointer": "Runtime", "Merge": "Runtime", "UnsupportedOperation": "Runtime", "NumberFormat": "IllegalArgument",
       "AlreadyClosed": "IllegalState", "CorruptIndex": "IO", "FileNotFound": "IO", "TooManyClauses": "Runtime", "FieldReader": "Runtime", "MergeAborted": "IO", "StaleReader": "IO", "LockObtainFailed": "IO", "NoSuchDirectory": "FileNotFound"}
def EXC(n):
    """mangled-name spelling of a Lucene exception class"""
    p = EXC(EXP[n]) if n in EXP else "Lucene::LuceneException"
    return "Lucene::ExceptionTemplate<%s, (Lucene::LuceneException::ExceptionType)%d>" % (p, EXN.index(n))
def popc(b, w=32):
    r = z3.BitVecVal(0, w)
    for i in range(b.size()): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, b))
    return r
_keep = []
class PSum:
    """prefix sums of f over a byte/word array: a definitional extension (P[0]=0, P[i+1]=P[i]+f(A[i]))"""
    def __init__(self, name, f, w=32, auto=False): self.name, self.f, self.w, self.auto = name, f, w, auto      # auto: the point-update lemma is used for arrays written as stores
    def of(self, v, A):
        vc, st = v.vc, v.st
        m = getattr(vc, "_psums", None)
        if m is None: m = vc._psums = {}
        k = (self.name, A.get_id())
        if k not in m:
            P = z3.Array(uniq(self.name), B64, z3.BitVecSort(self.w))
            from engine.models import aname
            tr = [P.decl().name()]
            try: tr.append(aname(A))
            except Exception: pass
            m[k] = (P, A, FA(lambda i, P=P, A=A: Imp(And(i >= 0, i < B31), P[i + 1] == P[i] + self.f(A[i])), name=self.name, trig=tr),
                    FA(lambda i, P=P, A=A: Imp(And(i > 0, i < B31), P[i] == P[i - 1] + self.f(A[i - 1])), name=self.name, trig=[P.decl().name()]))
        if self.auto and A.decl().kind() == z3.Z3_OP_STORE:
            base, i = A.arg(0), A.arg(1); self.of(v, base)
            uk = (self.name, "u", A.get_id())
            if uk not in m:
                P, P2 = m[(self.name, base.get_id())][0], m[k][0]
                m[uk] = (A, FA(lambda j: Imp(And(j >= 0, j < B31), P2[j] == P[j] + z3.If(j > i, self.f(A.arg(2)) - self.f(base[i]), z3.BitVecVal(0, self.w))), name=self.name + "u", trig=[P.decl().name(), P2.decl().name()])); m[uk][1].rel = {P.decl().name(), P2.decl().name()}
            if not any(x is m[uk][1] for x in st.facts): st.assume(m[uk][1])
        P, A, F, F2 = m[k]
        if self.auto: F.rel = F2.rel = {P.decl().name()}
        if not any(x is F for x in st.facts):
            st.assume(P[z3.BitVecVal(0, 64)] == 0, F, F2)
        return P
    def upd(self, v, A, A2, k):
        """lemma point-update: A2 differs from A at most at k"""
        P, P2 = self.of(v, A), self.of(v, A2)
        v.st.assume(FA(lambda j: Imp(And(j >= 0, j < B31), P2[j] == P[j] + z3.If(j > k, self.f(A2[k]) - self.f(A[k]), z3.BitVecVal(0, self.w))), name=self.name + "u", trig=[P.decl().name(), P2.decl().name()]))
        return P, P2
    def ext(self, v, A, A2, n):
        """lemma extensionality: A2 and A agree below n"""
        P, P2 = self.of(v, A), self.of(v, A2)
        v.st.assume(FA(lambda j: Imp(And(j >= 0, j <= n), P2[j] == P[j]), name=self.name + "e", trig=[P.decl().name(), P2.decl().name()]))
        return P, P2
    def lemmas(self, es=8):
        from check import Lemma
        w = self.w
        f = z3.Function("f_any", z3.BitVecSort(es), z3.BitVecSort(w))      # the lemmas hold for every f
        def upd():
            A = z3.Array("A", B64, z3.BitVecSort(es)); k, j = z3.BitVecs("k j", 64); b = z3.BitVec("b", es); A2 = z3.Store(A, k, b)
            P, P2 = z3.Array("P", B64, z3.BitVecSort(w)), z3.Array("P2", B64, z3.BitVecSort(w))
            st = lambda i: P2[i] == P[i] + z3.If(i > k, f(b) - f(A[k]), z3.BitVecVal(0, w))
            zero = z3.BitVecVal(0, 64)
            return [([P[zero] == 0, P2[zero] == 0, k >= 0], [], st(zero)),
                    ([k >= 0, j >= 0, j < B31, st(j), P[j + 1] == P[j] + f(A[j]), P2[j + 1] == P2[j] + f(A2[j])], [], st(j + 1))]
        def ext():
            A, A2 = z3.Array("A", B64, z3.BitVecSort(es)), z3.Array("A2", B64, z3.BitVecSort(es)); j, n = z3.BitVecs("j n", 64)
            P, P2 = z3.Array("P", B64, z3.BitVecSort(w)), z3.Array("P2", B64, z3.BitVecSort(w)); zero = z3.BitVecVal(0, 64)
            return [([P[zero] == 0, P2[zero] == 0], [], P[zero] == P2[zero]),
                    ([j >= 0, j < n, n < B31, A[j] == A2[j], P[j] == P2[j], P[j + 1] == P[j] + f(A[j]), P2[j + 1] == P2[j] + f(A2[j])], [], P[j + 1] == P2[j + 1])]
        return [Lemma("prefix sums %s: point update (induction)" % self.name, upd), Lemma("prefix sums %s: extensionality (induction)" % self.name, ext)]
B31 = z3.BitVecVal(1 << 31, 64)

# ---- token streams: every write appends one (kind, value) token; reads take the next token.
# Justified by C01 (each codec is inverted by its reader, consuming exactly its bytes).
KINDS = {"Byte": 1, "Int": 2, "Long": 3, "VInt": 4, "VLong": 5, "Bytes": 6, "String": 7, "Chars": 8}
W = {"Byte": 8, "Int": 32, "Long": 64, "VInt": 32, "VLong": 64}
def tok_setup(b, o, pfx="t"):
    b.setghost(o, "kind", z3.Array(pfx + "kind", B64, z3.BitVecSort(8))); b.setghost(o, "val", z3.Array(pfx + "val", B64, B64))
    b.setghost(o, "blk", z3.Array(pfx + "blk", B64, B64, z3.BitVecSort(8))); b.setghost(o, "pos", z3.BitVec(pfx + "pos", 64))
    b.assume(b.ghost(o, "pos") >= 0, b.ghost(o, "pos") < (1 << 40))
    return o
def tok(v, o, k): return z3.Select(v.ghost(o, "kind"), k), z3.Select(v.ghost(o, "val"), k)
def tok_m(c): return [(c.this.reg, "g:" + n, 0) for n in ("kind", "val", "blk", "pos")]
def tok_mi(c): return [(c.this.reg, "g:pos", 0)]
def wr(name, cls=OUT):
    w = W[name]
    def ens(c):
        p = c.old.ghost(c.this, "pos"); v = Z(c.a[1], w)
        return [c.ghost(c.this, "kind") == z3.Store(c.old.ghost(c.this, "kind"), p, z3.BitVecVal(KINDS[name], 8)),
                c.ghost(c.this, "val") == z3.Store(c.old.ghost(c.this, "val"), p, sx(v)),
                c.ghost(c.this, "blk") == c.old.ghost(c.this, "blk"), c.ghost(c.this, "pos") == p + 1]
    return Contract(cls + "::write" + name, 1, assumed=True, modifies=tok_m, ensures=ens, name="tokens:" + cls + "::write" + name)
def rd(name, cls=IN):
    w = W[name]
    def req(c): return [("next item has this type", z3.Select(c.ghost(c.this, "kind"), c.ghost(c.this, "pos")) == KINDS[name])]
    def ens(c):
        p = c.old.ghost(c.this, "pos")
        return [sx(Z(c.ret, w)) == z3.Select(c.old.ghost(c.this, "val"), p), c.ghost(c.this, "pos") == p + 1]
    return Contract(cls + "::read" + name, 0, assumed=True, requires=req, modifies=tok_mi, ret=lambda c: z3.BitVec(uniq("rd"), w), ensures=ens, name="tokens:" + cls + "::read" + name)
def wr_bytes(cls=OUT):
    def ens(c):
        p = c.old.ghost(c.this, "pos"); n = sx(Z(c.a[-1], 32)); src = c.a[1]; off = sx(Z(c.a[2], 32)) if len(c.a) == 4 else 0
        A = c.arr(src.reg); b2, b1 = c.ghost(c.this, "blk"), c.old.ghost(c.this, "blk")
        base = Z(src.idx, 64) + off
        return [c.ghost(c.this, "kind") == z3.Store(c.old.ghost(c.this, "kind"), p, z3.BitVecVal(KINDS["Bytes"], 8)), c.ghost(c.this, "val") == z3.Store(c.old.ghost(c.this, "val"), p, n),
                c.ghost(c.this, "pos") == p + 1, FA(lambda q, j: z3.Select(b2, q, j) == z3.If(And(q == p, j >= 0, j < n), A[base + j], z3.Select(b1, q, j)), (64, 64), trig=[b2.decl().name()])]
    def req(c):
        n = sx(Z(c.a[-1], 32)); off = sx(Z(c.a[2], 32)) if len(c.a) == 4 else 0; s = c.a[1]
        return [("source block in bounds", And(n >= 0, Z(s.idx, 64) + off >= 0, Z(s.idx, 64) + off + n <= Z(c.n(s.reg), 64)))]
    return [Contract(cls + "::writeBytes", k, assumed=True, requires=req, modifies=tok_m, ensures=ens, name="tokens:%s::writeBytes/%d" % (cls, k)) for k in (2, 3)]
def rd_bytes(cls=IN):
    def req(c):
        n = sx(Z(c.a[3], 32)); off = sx(Z(c.a[2], 32)); d = c.a[1]; p = c.ghost(c.this, "pos")
        return [("next item is a block of this length", And(z3.Select(c.ghost(c.this, "kind"), p) == KINDS["Bytes"], z3.Select(c.ghost(c.this, "val"), p) == n)),
                ("target in bounds", And(n >= 0, Z(d.idx, 64) + off >= 0, Z(d.idx, 64) + off + n <= Z(c.n(d.reg), 64)))]
    def ens(c):
        n = sx(Z(c.a[3], 32)); off = Z(c.a[1].idx, 64) + sx(Z(c.a[2], 32)); p = c.old.ghost(c.this, "pos"); A, A0 = c.arr(c.a[1].reg), c.old.arr(c.a[1].reg); b = c.ghost(c.this, "blk")
        from engine.models import aname
        return [c.ghost(c.this, "pos") == p + 1, FA(lambda j: A[j] == z3.If(And(j >= off, j < off + n), z3.Select(b, p, j - off), A0[j]), trig=[aname(A)])]
    return Contract(cls + "::readBytes", 3, assumed=True, requires=req, modifies=lambda c: tok_mi(c) + [(c.a[1].reg, 0, 1)], ensures=ens, name="tokens:" + cls + "::readBytes")
TOKENS = [wr(n) for n in W] + [rd(n) for n in W] + wr_bytes() + [rd_bytes()]
def rng(i, a, b): return And(i >= a, i < b)
# ---- functions that return a std::wstring (through the hidden first argument)
def ret_string(c):
    from engine import strings
    n = z3.BitVec(uniq("retlen"), 64); c.st.assume(n >= 0, n < (1 << 30))
    strings.new(c.vc, c.st, c.a[0], z3.Array(uniq("rettext"), B64, z3.BitVecSort(32)), n)
    return None
def mods_string(c): return [] if c.call else [(c.a[0].reg, 0, 32)]
def string_at(c, p):
    from engine import strings
    return strings.get(c.vc, c.st, p)
def ret_obj(b, name="ret"): return Ptr(b.vc.new_obj(b.st, name))
