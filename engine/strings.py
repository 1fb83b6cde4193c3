"""Value model of std::wstring (trusted library model): an object holds, at the offsets libstdc++ uses,
a pointer to its characters (a region of 4-byte elements, one more than its length, zero terminated on
c_str()) and its length.  Copies are by value."""
import re, z3
from .sym import *
from .ir import params_of, qualname, Unsupported
from .models import model, R, aname, TABLE, copy_range, oblige_range
WSRX = r"std::(__cxx11::)?basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> ?>"
NSRX = r"std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
def big(x): return Z(x, 64)
class Str:
    __slots__ = ("reg", "start", "len", "arr")
    def __init__(self, reg, start, n, arr): self.reg, self.start, self.len, self.arr = reg, start, n, arr
    def at(self, i): return z3.Select(self.arr, big(simp(big(self.start) + big(i))))
def get(vc, st, p):
    """the string object at p"""
    if p.reg is None: raise Unsupported("string at null")
    if p.reg not in st.mem: vc.gmat(st, p.reg)
    q = vc.load(st, p, PTR)
    if not isinstance(q, Ptr):
        if p.reg.tags.get("emptystr") or p.reg.name.endswith("EmptyString") or "EmptyString" in p.reg.name:
            new(vc, st, p, z3.K(B64, z3.BitVecVal(0, 32)), 0); return get(vc, st, p)
        raise Unsupported("string object %r not initialised" % (p,))
    n = vc.load(st, p.at(8), I64)
    return Str(q.reg, q.idx, n, vc.getarr(st, q.reg, 0, q.reg.es))
def new(vc, st, p, arr, n, es=4, name="str"):
    """make the object at p the string arr[0..n)"""
    reg = vc.new_arr(st, name, es, simp(big(n) + 1) if not isinstance(n, int) else n + 1)
    if arr is not None: st.mem[reg][(0, es)] = arr
    vc.store(st, p, PTR, Ptr(reg)); vc.store(st, p.at(8), I64, n)
    return reg
def shift(vc, st, A, start, name="ss", n=None):
    """array B with B[i] = A[start+i]"""
    s = cst(simp(big(start)))
    if s == 0: return A
    B = z3.Array(uniq(name), B64, A.sort().range())
    st.assume(FA(lambda i: B[i] == A[big(start) + i], name="shift", trig=[aname(B)]), FA(lambda j: B[j - big(start)] == A[j], name="shift2", trig=[aname(A)]))
    return B
def cat(vc, st, A, n, B, bs, m):
    """array of A[0..n) followed by B[bs..bs+m)"""
    k = cst(simp(big(m)))
    if k is not None and k <= 40:
        r = A
        for i in range(k): r = z3.Store(r, big(simp(big(n) + i)), z3.simplify(z3.Select(B, big(simp(big(bs) + i)))))
        return r
    N = z3.Array(uniq("cat"), B64, A.sort().range())
    n_, m_, bs_ = big(n), big(m), big(bs)
    f = lambda i: N[i] == z3.If(And(i >= n_, i < n_ + m_), B[bs_ + (i - n_)], A[i])
    st.assume(FA(f, name="cat", trig=[aname(N), aname(A)]), FA(lambda j: f(n_ + (j - bs_)), name="cat2", trig=[aname(B)]))
    return N
def lit(vc, st, p):
    """characters of a constant literal at p and its length"""
    if p.reg not in st.mem: vc.gmat(st, p.reg)
    v = p.reg.tags.get("const") if p.reg.tags else None
    if v is None: return None
    vals = [x if isinstance(x, int) else x[1][1] for x in (v[1] if v[0] != "zero" else [0])] if v[0] in ("str", "agg") else [0]
    if 0 in vals: vals = vals[:vals.index(0)]
    return vals
def cstr(vc, st, p, es=4):
    """null-terminated character pointer -> (arr, start, len)"""
    if not isinstance(p, Ptr) or p.reg is None: raise Unsupported("string from %r" % (p,))
    if p.reg not in st.mem: vc.gmat(st, p.reg)
    if p.reg.kind != "arr":
        if p.reg.kind == "obj": return z3.K(B64, z3.BitVecVal(0, 8 * es)), 0, 0       # L"" emitted as zero initialiser
        raise Unsupported("string from object")
    A = vc.getarr(st, p.reg, 0, p.reg.es)
    s0 = cst(simp(big(p.idx)))
    if s0 is not None and isinstance(st.mem[p.reg].get("n"), int) and st.mem[p.reg]["n"] < 4000:
        for k in range(s0, st.mem[p.reg]["n"]):
            c = cst(simp(z3.Select(A, z3.BitVecVal(k, 64))))
            if c is None: break
            if c == 0: return A, s0, k - s0
    L = z3.BitVec(uniq("strlen"), 64); s = big(p.idx)
    st.assume(L >= 0, z3.Select(A, s + L) == 0, FA(lambda i: Imp(And(i >= s, i < s + L), A[i] != 0), trig=[aname(A)]))
    n = st.mem[p.reg].get("n")
    if n is not None: vc.oblige(st, s + L < big(n), "terminator inside %s" % p.reg.name, "bounds") if False else st.assume(s + L < big(n))
    return A, p.idx, L
def es_of(d): return 4 if re.match(r".*basic_string<wchar_t", d.split("(")[0]) else 1
def norm(t): return re.sub(WSRX, "WS", re.sub(NSRX, "NS", t)).strip()

@model("(" + WSRX + "|" + NSRX + r")::basic_string(<.*>)?$")
def _ctor(vc, st, fr, name, d, args, depth):
    es = es_of(d); p = args[0]
    ps = [norm(x) for x in params_of(d)]
    ps = [x for x in ps if "allocator" not in x]
    if not ps: new(vc, st, p, z3.K(B64, z3.BitVecVal(0, 8 * es)), 0, es); return R(st)
    if ps[0] in ("WS const&", "WS&&", "NS const&", "NS&&"):
        s = get(vc, st, args[1])
        if len(ps) == 1:
            new(vc, st, p, shift(vc, st, s.arr, s.start), s.len, es); return R(st)
        pos = big(args[2]); n = big(args[3]) if len(ps) > 2 else big(-1 & M(64))
        L = big(s.len) - pos; n = simp(z3.If(z3.ULT(n, L), n, L))
        vc.oblige(st, z3.ULE(pos, big(s.len)), "substring position in range", "bounds")
        new(vc, st, p, shift(vc, st, s.arr, simp(big(s.start) + pos)), n, es); return R(st)
    if ps[0] in ("wchar_t const*", "char const*", "wchar_t*", "char*"):
        if len(ps) == 1:
            A, s0, n = cstr(vc, st, args[1], es)
            new(vc, st, p, shift(vc, st, A, s0), n, es); return R(st)
        if ps[1] in ("unsigned long",):
            a = args[1]; n = args[2]
            if a.reg is None:
                vc.oblige(st, big(n) == 0, "string of null characters", "bounds"); new(vc, st, p, z3.K(B64, z3.BitVecVal(0, 8 * es)), 0, es); return R(st)
            oblige_range(vc, st, a.reg, a.idx, n, "string construction")
            new(vc, st, p, shift(vc, st, vc.getarr(st, a.reg, 0, es), a.idx), n, es); return R(st)
    if ps[0] == "unsigned long" and len(ps) == 2:
        new(vc, st, p, z3.K(B64, Z(args[2], 8 * es)), args[1], es); return R(st)
    raise Unsupported("string constructor " + str(ps))
@model("(" + WSRX + "|" + NSRX + r")::(size|length)$")
def _size(vc, st, fr, name, d, args, depth): return R(st, get(vc, st, args[0]).len)
@model("(" + WSRX + "|" + NSRX + r")::empty$")
def _empty(vc, st, fr, name, d, args, depth):
    n = get(vc, st, args[0]).len
    return R(st, n == 0 if isinstance(n, int) else simpb(n == 0))
@model("(" + WSRX + "|" + NSRX + r")::(c_str|data|begin|_M_data)$")
def _cstr(vc, st, fr, name, d, args, depth):
    s = get(vc, st, args[0])
    if not s.reg.tags.get("shared"):
        st.w(s.reg)[(0, s.reg.es)] = z3.Store(s.arr, big(simp(big(s.start) + big(s.len))), z3.BitVecVal(0, 8 * s.reg.es))
        if st.rec is not None: st.rec.add((s.reg, 0, s.reg.es))
    return R(st, Ptr(s.reg, s.start)) if not qualname(d).endswith("begin") else R(st, Ptr(s.reg, s.start))
@model("(" + WSRX + "|" + NSRX + r")::end$")
def _end(vc, st, fr, name, d, args, depth):
    s = get(vc, st, args[0]); return R(st, Ptr(s.reg, simp(big(s.start) + big(s.len))))
@model("(" + WSRX + "|" + NSRX + r")::(operator\[\]|at)$")
def _idx(vc, st, fr, name, d, args, depth):
    s = get(vc, st, args[0])
    vc.oblige(st, z3.ULE(big(args[1]), big(s.len)), "string index in range", "bounds")
    return R(st, Ptr(s.reg, simp(big(s.start) + big(args[1]))))
@model("(" + WSRX + "|" + NSRX + r")::(operator=|assign)$")
def _assign(vc, st, fr, name, d, args, depth):
    es = es_of(d); p = args[0]; ps = [norm(x) for x in params_of(d)]
    if ps[0] in ("WS const&", "WS&&", "NS const&", "NS&&"):
        s = get(vc, st, args[1]); new(vc, st, p, shift(vc, st, s.arr, s.start), s.len, es)
    elif ps[0] in ("wchar_t const*", "char const*"):
        if len(ps) > 1: n = args[2]; A, s0 = vc.getarr(st, args[1].reg, 0, es), args[1].idx; oblige_range(vc, st, args[1].reg, s0, n, "string assign")
        else: A, s0, n = cstr(vc, st, args[1], es)
        new(vc, st, p, shift(vc, st, A, s0), n, es)
    elif ps[0] in ("wchar_t", "char"): new(vc, st, p, z3.Store(z3.K(B64, z3.BitVecVal(0, 8 * es)), big(0), Z(args[1], 8 * es)), 1, es)
    else: raise Unsupported("string assign " + str(ps))
    return R(st, p)
def addlen(a, b): return simp(big(a) + big(b))
@model("(" + WSRX + "|" + NSRX + r")::(append|operator\+=|push_back)$")
def _append(vc, st, fr, name, d, args, depth):
    es = es_of(d); p = args[0]; ps = [norm(x) for x in params_of(d)]
    s = get(vc, st, p); A = shift(vc, st, s.arr, s.start)
    if ps[0] in ("WS const&", "NS const&"):
        t = get(vc, st, args[1]); B, bs, m = t.arr, t.start, t.len
        if len(ps) == 3:
            pos, n = big(args[2]), big(args[3]); L = big(m) - pos; m = simp(z3.If(z3.ULT(n, L), n, L)); bs = simp(big(bs) + pos)
            vc.oblige(st, z3.ULE(pos, big(t.len)), "substring position in range", "bounds")
        new(vc, st, p, cat(vc, st, A, s.len, B, bs, m), addlen(s.len, m), es)
    elif ps[0] in ("wchar_t const*", "char const*"):
        if len(ps) > 1: m = args[2]; B, bs = (vc.getarr(st, args[1].reg, 0, es), args[1].idx); oblige_range(vc, st, args[1].reg, bs, m, "append")
        else: B, bs, m = cstr(vc, st, args[1], es)
        new(vc, st, p, cat(vc, st, A, s.len, B, bs, m), addlen(s.len, m), es)
    elif ps[0] in ("wchar_t", "char"):
        new(vc, st, p, z3.Store(A, big(s.len), Z(args[1], 8 * es)), addlen(s.len, 1), es)
    elif ps[0] == "unsigned long":
        v = Z(args[2], 8 * es); new(vc, st, p, cat(vc, st, A, s.len, z3.K(B64, v), 0, args[1]), addlen(s.len, args[1]), es)
    else: raise Unsupported("append " + str(ps))
    return R(st, p)
@model(r"std::operator\+<wchar_t")
def _plus(vc, st, fr, name, d, args, depth):
    out = args[0]
    def val(a):
        if isinstance(a, Ptr):
            if a.reg is not None and a.reg not in st.mem: vc.gmat(st, a.reg)
            if a.reg.kind == "arr" and a.reg.es == 4 and not isinstance(st.mem[a.reg].get((0, 8)), Ptr): return cstr(vc, st, a)
            s = get(vc, st, a); return s.arr, s.start, s.len
        return z3.Store(z3.K(B64, z3.BitVecVal(0, 32)), big(0), Z(a, 32)), 0, 1
    a, as_, an = val(args[1]); b, bs, bn = val(args[2])
    new(vc, st, out, cat(vc, st, shift(vc, st, a, as_), an, b, bs, bn), addlen(an, bn))
    return R(st)
@model("(" + WSRX + "|" + NSRX + r")::clear$")
def _clear(vc, st, fr, name, d, args, depth):
    new(vc, st, args[0], z3.K(B64, z3.BitVecVal(0, 8 * es_of(d))), 0, es_of(d)); return R(st)
@model("(" + WSRX + "|" + NSRX + r")::(reserve|shrink_to_fit)$")
def _reserve(vc, st, fr, name, d, args, depth): return R(st)
@model("(" + WSRX + "|" + NSRX + r")::resize$")
def _resize(vc, st, fr, name, d, args, depth):
    es = es_of(d); s = get(vc, st, args[0]); A = shift(vc, st, s.arr, s.start); n = args[1]
    v = Z(args[2], 8 * es) if len(args) > 2 else z3.BitVecVal(0, 8 * es)
    N = z3.Array(uniq("rsz"), B64, A.sort().range()); L = big(s.len)
    st.assume(FA(lambda i: N[i] == z3.If(And(i >= 0, i < L), A[i], v), trig=[aname(N), aname(A)]))
    vc.oblige(st, z3.ULE(big(n), z3.BitVecVal(1 << 40, 64)), "string size is sensible", "bounds")
    new(vc, st, args[0], N, n, es); return R(st)
@model("(" + WSRX + "|" + NSRX + r")::substr$")
def _substr(vc, st, fr, name, d, args, depth):
    es = es_of(d); s = get(vc, st, args[1]); pos, n = big(args[2]), big(args[3])
    ok = z3.ULE(pos, big(s.len))
    vc.oblige(st, ok, "substring position in range", "bounds"); st.assume(ok)
    L = big(s.len) - pos
    new(vc, st, args[0], shift(vc, st, s.arr, simp(big(s.start) + pos)), simp(z3.If(z3.ULT(n, L), n, L)), es); return R(st)
def eqv(vc, st, a, b):
    """BoolRef: strings (arr,start,len) equal"""
    (A, s, n), (B, t, m) = a, b
    k = cst(simp(big(n))); j = cst(simp(big(m)))
    if k is not None and j is not None and k != j: return False
    c = k if k is not None else j
    if c is not None and c <= 40:
        return simpb(And(big(n) == big(m), [z3.Select(A, big(simp(big(s) + i))) == z3.Select(B, big(simp(big(t) + i))) for i in range(c)]))
    e = z3.Bool(uniq("streq")); w = z3.BitVec(uniq("sk_ne"), 64)
    st.assume(Imp(e, big(n) == big(m)), Imp(And(Not(e), big(n) == big(m)), And(w >= 0, w < big(n), A[big(s) + w] != B[big(t) + w])),
              FA(lambda i: Imp(And(e, i >= 0, i < big(n)), A[big(s) + i] == B[big(t) + i]), name="seq"))
    return e
@model(r"std::operator(==|!=)<wchar_t|bool std::operator(==|!=)<wchar_t")
def _eq(vc, st, fr, name, d, args, depth):
    def val(i):
        if norm(params_of(d)[i]).startswith("WS"): s = get(vc, st, args[i]); return s.arr, s.start, s.len
        return cstr(vc, st, args[i])
    e = eqv(vc, st, val(0), val(1))
    ne = "operator!=" in d
    return R(st, (not e if isinstance(e, bool) else Not(e)) if ne else e)
LEX = None
@model("(" + WSRX + r")::compare$")
def _cmp(vc, st, fr, name, d, args, depth):
    ps = [norm(x) for x in params_of(d)]
    a = get(vc, st, args[0]); 
    if len(ps) != 1: raise Unsupported("compare")
    if ps[0].startswith("WS"): s = get(vc, st, args[1]); b = (s.arr, s.start, s.len)
    else: b = cstr(vc, st, args[1])
    return R(st, lexcmp(vc, st, (a.arr, a.start, a.len), b))
def lexcmp(vc, st, a, b):
    """three-way comparison result r of two character sequences (unsigned code units compared as signed wchar_t)"""
    (A, s, n), (B, t, m) = a, b
    r = z3.BitVec(uniq("cmp"), 32); w = z3.BitVec(uniq("sk_w"), 64)
    n, m, s, t = big(n), big(m), big(s), big(t)
    mn = z3.If(n < m, n, m)
    x, y = A[s + w], B[t + w]
    st.assume(w >= 0, w <= mn, FA(lambda i: Imp(And(i >= 0, i < w), A[s + i] == B[t + i]), name="lex"),
              Imp(w < mn, And(x != y, (r < 0) == (x < y), r != 0)), Imp(w == mn, And((r < 0) == (n < m), (r == 0) == (n == m))))
    return r
@model(r"std::operator(<|>|<=|>=)<wchar_t|bool std::operator(<|>|<=|>=)<wchar_t")
def _lt(vc, st, fr, name, d, args, depth):
    a, b = get(vc, st, args[0]), get(vc, st, args[1])
    r = lexcmp(vc, st, (a.arr, a.start, a.len), (b.arr, b.start, b.len))
    op = re.search(r"operator(<=|>=|<|>)<", d).group(1)
    return R(st, {"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op])
@model("(" + WSRX + "|" + NSRX + r")::(capacity|max_size)$")
def _cap(vc, st, fr, name, d, args, depth):
    c = z3.BitVec(uniq("cap"), 64); st.assume(c >= big(get(vc, st, args[0]).len), c < (1 << 40)); return R(st, c)
@model(r"Lucene::StringUtils::toString<|Lucene::StringUtils::toString$")
def _tostr(vc, st, fr, name, d, args, depth):
    if not getattr(vc, "opaque_tostring", True): return None
    n = z3.BitVec(uniq("strlen"), 64); st.assume(n >= 0, n < 1 << 20)
    new(vc, st, args[0], z3.Array(uniq("text"), B64, z3.BitVecSort(32)), n); return R(st)
