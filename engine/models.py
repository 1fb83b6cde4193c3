"""Models of library code (boost, libstdc++, runtime) and of Lucene's thin wrappers around it.
Everything here is trusted and is listed in the evidence of every check that used it."""
import re, z3
from .sym import *
from . import ir as IR
from .ir import qualname, params_of, Unsupported

def R(st, v=None): return [(st, "ret", v)]
def noop(vc, st, fr, name, d, args, depth): return R(st)

TABLE = []      # (regex on qualified name, function)
def model(rx):
    rx = re.compile(rx)
    def deco(f):
        TABLE.append((rx, f)); return f
    return deco
DTABLE = []     # the same, on the full demangled signature
CACHE = {}
class Models:
    extra = []
    @staticmethod
    def lookup(vc, q, d, name):
        for rx, f in vc.extra_models:
            if rx.match(q) or rx.match(d): return f
        for rx, f in DTABLE:
            if rx.match(d): return f
        if q in CACHE: return CACHE[q]
        r = None
        for rx, f in TABLE:
            if rx.match(q): r = f; break
        CACHE[q] = r
        return r
    @staticmethod
    def intrinsic(vc, st, name, args):
        n = name.split(".")
        b = n[1]
        if b in ("lifetime", "dbg", "assume", "donothing", "prefetch", "va_start", "va_end", "stackrestore", "experimental"): return R(st)
        if b == "stacksave": return R(st, UNDEF)
        if b in ("memcpy", "memmove"): memcpy(vc, st, args[0], args[1], args[2]); return R(st)
        if b == "memset": memset(vc, st, args[0], args[1], args[2]); return R(st)
        if b == "expect": return R(st, args[0])
        if b == "is": return R(st, False)          # llvm.is.constant: not known at compile time
        if b == "eh": return R(st, args[0])
        if b in ("trap", "ubsantrap"): raise PathEnd()
        if b in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and n[2] == "with":
            w = int(n[4][1:])
            A, B = Z(args[0], w), Z(args[1], w)
            if b == "umul": return R(st, Agg([simp(A * B), simpb(z3.Not(z3.BVMulNoOverflow(A, B, False)))]))
            if b == "uadd": return R(st, Agg([simp(A + B), simpb(z3.Not(z3.BVAddNoOverflow(A, B, False)))]))
            raise Unsupported(name)
        if b in ("smax", "smin", "umax", "umin"):
            w = int(n[2][1:]); A, B = Z(args[0], w), Z(args[1], w)
            c = {"smax": A >= B, "smin": A <= B, "umax": z3.UGE(A, B), "umin": z3.ULE(A, B)}[b]
            return R(st, simp(z3.If(c, A, B)))
        if b == "abs":
            w = int(n[2][1:]); A = Z(args[0], w)
            return R(st, simp(z3.If(A < 0, -A, A)))
        if b == "fabs": return R(st, z3.fpAbs(args[0]))
        if b == "floor": return R(st, z3.fpRoundToIntegral(z3.RTN(), args[0]))
        if b == "ceil": return R(st, z3.fpRoundToIntegral(z3.RTP(), args[0]))
        if b in ("fmuladd",): return R(st, z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), args[0], args[1]), args[2]))
        if b == "ctpop":
            w = int(n[2][1:]); A = Z(args[0], w)
            return R(st, simp(popcount(A)))
        if b in ("log", "exp", "pow", "sqrt", "log10", "log2"):
            return R(st, z3.FP(uniq(b), z3.Float64()))
        raise Unsupported("intrinsic " + name)

def popcount(A):
    w = A.size()
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, A))
    return r

def memcpy(vc, st, d, s, n):
    if isinstance(n, PDiff): n = simp(Z(n.didx, 64) * n.es + n.doff) if n.doff else n
    if isinstance(n, int) and n == 0: return
    if not (isinstance(d, Ptr) and isinstance(s, Ptr)): raise Unsupported("memcpy %r %r" % (d, s))
    if d.reg is None or s.reg is None:
        if isinstance(n, (int,)): vc.oblige(st, n == 0, "memcpy null", "bounds")
        else:
            nz = Z(n.didx, 64) if isinstance(n, PDiff) else n
            vc.oblige(st, nz == 0, "memcpy null", "bounds")
        return
    for p in (d, s):
        if p.reg not in st.mem: vc.touch(st, p.reg)
    if d.reg.kind == "obj" and s.reg.kind == "obj":
        if not isinstance(n, int): raise Unsupported("memcpy of symbolic size between objects")
        c = st.mem[s.reg]
        items = [(o, x) for o, x in c.items() if isinstance(o, int) and s.off <= o and o + x[0] <= s.off + n]
        dc = st.w(d.reg)
        for o in [o for o, x in dc.items() if isinstance(o, int) and d.off <= o < d.off + n]: dc.pop(o)
        if not items and s.reg.sym: raise Unsupported("memcpy from symbolic object")
        for o, x in items:
            dc[d.off + o - s.off] = x
            if st.rec is not None: st.rec.add((d.reg, d.off + o - s.off, x[0]))
        return
    if d.reg.kind == "arr" and s.reg.kind == "arr":
        es = d.reg.es
        if es != s.reg.es: raise Unsupported("memcpy between element sizes")
        if isinstance(n, PDiff):
            if n.es != es: raise Unsupported("memcpy size")
            cnt = n.didx
        elif isinstance(n, int):
            if n % es: raise Unsupported("memcpy size")
            cnt = n // es
        else:
            cnt = n if es == 1 else vc.divexact(n, es)
            if cnt is None: raise Unsupported("memcpy size")
        copy_range(vc, st, d, s, Z(cnt, 64))
        return
    # bytes between an object and a byte array of constant size
    if isinstance(n, int) and n in (1, 2, 4, 8):
        t = {1: I8, 2: I16, 4: I32, 8: I64}[n]
        vc.store(st, d, t, vc.load(st, s, t)); return
    raise Unsupported("memcpy %r <- %r" % (d, s))

def oblige_range(vc, st, reg, start, cnt, what):
    """[start, start+cnt) lies inside reg"""
    n = st.mem[reg].get("n")
    if n is None: return
    n = Z(n, 64); start = Z(start, 64); cnt = Z(cnt, 64)
    vc.oblige(st, And(cnt >= 0, z3.Implies(cnt != 0, And(start >= 0, z3.ULE(start, n), z3.ULE(cnt, n - start)))), "%s range in bounds of %s" % (what, reg.name), "bounds")

def copy_range(vc, st, d, s, cnt, rev_ok=True):
    """element-wise copy with memmove semantics"""
    if d.off or s.off: raise Unsupported("range copy with offset")
    oblige_range(vc, st, s.reg, s.idx, cnt, "copy source")
    oblige_range(vc, st, d.reg, d.idx, cnt, "copy destination")
    k = cst(simp(cnt))
    keys = [x for x in set(list(st.mem[s.reg]) + list(st.mem[d.reg])) if isinstance(x, tuple) and (len(x) == 2)]
    if not keys: keys = [(0, d.reg.es)]
    if any(isinstance(x, tuple) and len(x) == 3 for x in list(st.mem[s.reg])): raise Unsupported("range copy of fp arrays")
    for kk in keys:
        A = vc.getarr(st, s.reg, *kk); D = vc.getarr(st, d.reg, *kk)
        if d.reg.keyed or s.reg.keyed:
            SA = (lambda i, A=A: z3.Select(A, Z(s.key, 64), i)) if s.reg.keyed else (lambda i, A=A: A[i])
            N = z3.Array(uniq(d.reg.name + ".cp"), *([B64, B64] if d.reg.keyed else [B64]), vc.getarr(st, d.reg, *kk).sort().range())
            di, si, c = Z(d.idx, 64), Z(s.idx, 64), cnt
            if d.reg.keyed:
                dk = Z(d.key, 64)
                st.assume(FA(lambda q, i, SA=SA, D=D, N=N: z3.Select(N, q, i) == z3.If(z3.And(q == dk, di <= i, i < di + c), SA(si + (i - di)), z3.Select(D, q, i)), (64, 64), name="cp", trig=[aname(N)]))
            else: st.assume(FA(lambda i, SA=SA, D=D, N=N: N[i] == z3.If(z3.And(di <= i, i < di + c), SA(si + (i - di)), D[i]), name="cp", trig=[aname(N)]))
            st.w(d.reg)[kk] = N
        elif k is not None and k <= 16:
            vals = [z3.Select(A, Z(simp(Z(s.idx, 64) + i), 64)) for i in range(k)]
            for i in range(k): D = z3.Store(D, Z(simp(Z(d.idx, 64) + i), 64), vals[i])
            st.w(d.reg)[kk] = D
        else:
            N = z3.Array(uniq(d.reg.name + ".cp"), B64, D.sort().range())
            di, si, c = Z(d.idx, 64), Z(s.idx, 64), cnt
            def f(i, A=A, D=D, N=N, di=di, si=si, c=c):
                return N[i] == z3.If(z3.And(di <= i, i < di + c), A[si + (i - di)], D[i])
            st.assume(FA(f, name="cp", trig=[aname(N)]))
            st.w(d.reg)[kk] = N
        if st.rec is not None: st.rec.add((d.reg,) + kk)

def aname(a):
    from .solve import aroot
    r = aroot(a)
    return r.decl().name()

def fill_range(vc, st, d, cnt, val, sz):
    oblige_range(vc, st, d.reg, d.idx, cnt, "fill")
    if d.off: raise Unsupported("fill offset")
    D = vc.getarr(st, d.reg, 0, sz)
    n = st.mem[d.reg].get("n")
    v = Z(val, 8 * sz)
    if cst(simp(Z(d.idx, 64))) == 0 and n is not None and cst(simp(z3.If(Z(n, 64) == Z(cnt, 64), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))) == 1:
        N = z3.K(B64, v)
    else:
        N = z3.Array(uniq(d.reg.name + ".fill"), B64, D.sort().range())
        di = Z(d.idx, 64)
        st.assume(FA(lambda i: N[i] == z3.If(z3.And(di <= i, i < di + cnt), v, D[i]), name="fill", trig=[aname(N)]))
    st.w(d.reg)[(0, sz)] = N
    if st.rec is not None: st.rec.add((d.reg, 0, sz))

def memset(vc, st, d, v, n):
    if isinstance(n, int) and n == 0: return
    if d.reg.kind == "obj":
        if not isinstance(n, int): raise Unsupported("memset")
        if not (isinstance(v, int) and v == 0): raise Unsupported("memset nonzero on object")
        c = st.w(d.reg)
        for o in [o for o, x in c.items() if isinstance(o, int) and d.off <= o < d.off + n]: c.pop(o)
        o = d.off
        while o < d.off + n:
            k = 8 if o % 8 == 0 and o + 8 <= d.off + n else (4 if o % 4 == 0 and o + 4 <= d.off + n else 1)
            c[o] = (k, 0)
            if st.rec is not None: st.rec.add((d.reg, o, k))
            o += k
        return
    es = d.reg.es
    if isinstance(n, PDiff): cnt = n.didx
    elif isinstance(n, int): cnt = n // es
    else: cnt = n if es == 1 else vc.divexact(n, es)
    if cnt is None: raise Unsupported("memset size")
    b = Z(v, 8)
    val = b if es == 1 else z3.Concat(*([b] * es))
    fill_range(vc, st, d, Z(cnt, 64), simp(val), es)

# ------------------------------------------------------------------ runtime
for _rx in (r"boost::detail::(shared_count|weak_count)::", r"boost::detail::(sp_pointer_construct|sp_deleter_construct|sp_enable_shared_from_this)\b",
            r"boost::(weak_ptr|enable_shared_from_this)<.*>::", r"Lucene::(SyncLock|LuceneSync|Synchronize)::", r"Lucene::LuceneObject::(LuceneObject|initialize)$",
            r"std::(__cxx11::)?allocator<.*>::", r"std::__new_allocator<", r"__cxa_end_catch", r"__cxa_guard_release", r"__cxa_free_exception", r"__cxa_atexit",
            r"Lucene::FreeMemory", r"operator delete", r"Lucene::CycleCheck", r"__clang_call_terminate", r"std::ios_base::Init"):
    TABLE.append((re.compile(_rx), noop))

@model(r".*::~[\w]+$")
def _dtor(vc, st, fr, name, d, args, depth): return R(st)

@model(r"boost::throw_exception<|boost::throw_exception$")
def _throw(vc, st, fr, name, d, args, depth):
    m = re.search(r"throw_exception<(.*)>\(", d)
    return [(st, "throw", Exc(m.group(1).strip(), args[0] if isinstance(args[0], Ptr) else None))]

@model(r"__cxa_allocate_exception")
def _calloc(vc, st, fr, name, d, args, depth):
    r = vc.new_obj(st, "exc", sym=True)
    return R(st, Ptr(r))
@model(r"__cxa_throw$")
def _cthrow(vc, st, fr, name, d, args, depth):
    ty = args[1].name if isinstance(args[1], TId) else "?"
    return [(st, "throw", Exc(ty, args[0]))]
@model(r"__cxa_rethrow")
def _rethrow(vc, st, fr, name, d, args, depth):
    if not st.caught: raise Unsupported("rethrow")
    return [(st, "throw", st.caught[-1])]
@model(r"__cxa_begin_catch")
def _bcatch(vc, st, fr, name, d, args, depth):
    e = args[0]
    if not isinstance(e, Exc): raise Unsupported("begin_catch")
    st.caught = st.caught + (e,)
    if isinstance(e.ptr, Ptr) and e.ptr.reg in st.mem: return R(st, e.ptr)
    r = vc.new_obj(st, "caught", cls="Lucene::LuceneException", sym=True)
    r.tags["exc"] = e
    return R(st, Ptr(r))
@model(r"__cxa_guard_acquire")
def _guard(vc, st, fr, name, d, args, depth): return R(st, 0)
@model(r"std::terminate|abort$|__cxa_pure_virtual|std::__throw_")
def _term(vc, st, fr, name, d, args, depth):
    m = re.match(r"std::__throw_(\w+)", d)
    if m: return [(st, "throw", Exc("std::" + m.group(1)))]
    raise PathEnd()

# LuceneException used as value: `finally` objects
EXT = {"Null": 0}
@model(r"Lucene::ExceptionTemplate<.*>::ExceptionTemplate$")
def _exct(vc, st, fr, name, d, args, depth): return R(st)
@model(r"Lucene::LuceneException::LuceneException$")
def _lexc(vc, st, fr, name, d, args, depth):
    p = args[0]
    c = st.w(p.reg)
    if len(args) >= 2 and isinstance(args[1], Ptr) and len(params_of(d)) == 1 and "LuceneException const&" in d: 
        c["exc"] = st.mem.get(args[1].reg, {}).get("exc", args[1].reg.tags.get("exc"))
    else: c["exc"] = None
    return R(st)
@model(r"Lucene::LuceneException::operator=$")
def _lexa(vc, st, fr, name, d, args, depth):
    p, q = args
    st.w(p.reg)["exc"] = st.mem.get(q.reg, {}).get("exc") or q.reg.tags.get("exc") or (st.caught[-1] if st.caught else None)
    return R(st, p)
@model(r"Lucene::LuceneException::throwException$")
def _lext(vc, st, fr, name, d, args, depth):
    e = st.mem[args[0].reg].get("exc")
    if e is None: return R(st)
    return [(st, "throw", e)]
@model(r"Lucene::LuceneException::isNull$")
def _lexn(vc, st, fr, name, d, args, depth): return R(st, st.mem[args[0].reg].get("exc") is None)
@model(r"Lucene::LuceneException::(getError|getType)$")
def _lexg(vc, st, fr, name, d, args, depth): raise Unsupported("exception inspection")

# ------------------------------------------------------------------ Lucene arrays
ES = {"unsigned char": 1, "char": 1, "bool": 1, "wchar_t": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "double": 8, "float": 4, "short": 2}
def mk_array(vc, st, where, es, n32, name="new", zero=False, region=None):
    reg = region or vc.new_arr(st, name, es, simp(sx(Z(n32, 32))), zero=zero)
    ad = vc.new_obj(st, name + ".data")
    st.mem[ad][0] = (8, Ptr(reg)); st.mem[ad][8] = (4, n32)
    vc.store(st, where, PTR, Ptr(ad)); vc.store(st, where.at(8), PTR, NULL); vc.store(st, where.at(16), PTR, Ptr(ad))
    return reg
def tmplarg(q, cls):
    m = re.match(re.escape(cls) + r"<(.*)>::", q)
    return m.group(1).strip() if m else None

@model(r"Lucene::Array<.*>::newInstance$")
def _arrnew(vc, st, fr, name, d, args, depth):
    q = qualname(d)
    t = tmplarg(q, "Lucene::Array")
    es = ES.get(t) or (8 if t.endswith("*") else None)
    if es is None: raise Unsupported("Array<%s>" % t)
    n = Z(args[1], 32)
    vc.oblige(st, n >= 0, "array allocation size is not negative", "bounds")
    mk_array(vc, st, args[0], es, args[1])
    return R(st)
@model(r"Lucene::Array<.*>::(resize|reset)$")
def _arrres(vc, st, fr, name, d, args, depth):
    q = qualname(d); t = tmplarg(q, "Lucene::Array"); es = ES.get(t)
    if es is None: raise Unsupported("Array<%s>::resize" % t)
    n = args[1] if len(args) > 1 else 0
    if isinstance(n, int) and n == 0:       # resize(0) drops the shared storage
        for o in (0, 8, 16): vc.store(st, args[0].at(o), PTR, NULL)
        return R(st)
    ad = vc.load(st, args[0].at(16), PTR)
    if ad.reg is None:
        mk_array(vc, st, args[0], es, n); return R(st)
    old = vc.load(st, ad, PTR); on = vc.load(st, ad.at(8), I32)
    reg = vc.new_arr(st, old.reg.name, es, simp(sx(Z(n, 32))))
    vc.oblige(st, Z(n, 32) >= 0, "array allocation size is not negative", "bounds")
    # realloc keeps the common prefix
    for kk in [x for x in st.mem[old.reg] if isinstance(x, tuple)] or [(0, es)]:
        if len(kk) != 2: continue
        A = vc.getarr(st, old.reg, *kk)
        N = z3.Array(uniq(old.reg.name + ".re"), B64, A.sort().range())
        lim = z3.If(Z(on, 32) < Z(n, 32), sx(Z(on, 32)), sx(Z(n, 32)))
        st.assume(FA(lambda i, N=N, A=A, lim=lim: Imp(And(i >= 0, i < lim), N[i] == A[i]), name="re", trig=[aname(N)]))
        st.w(reg)[kk] = N
    vc.store(st, ad, PTR, Ptr(reg)); vc.store(st, ad.at(8), I32, n)
    return R(st)

@model(r"Lucene::MiscUtils::arrayCopy<")
def _acopy(vc, st, fr, name, d, args, depth):
    s, sp, dd, dp, n = args
    if isinstance(s, Ptr) and isinstance(dd, Ptr):
        sp_, dp_, n_ = sx(Z(sp, 32)), sx(Z(dp, 32)), simp(sx(Z(n, 32)))
        if s.reg is None or dd.reg is None:
            vc.oblige(st, Z(n, 32) == 0, "copy through null", "bounds"); return R(st)
        if s.reg.kind == "arr" and dd.reg.kind == "arr" and s.reg.es == dd.reg.es:
            # std::copy with a negative count copies nothing
            cnt = simp(z3.If(Z(n_, 64) < 0, z3.BitVecVal(0, 64), Z(n_, 64))) if not isinstance(n_, int) else max(0, sgn(n_, 64))
            copy_range(vc, st, Ptr(dd.reg, simp(Z(dd.idx, 64) + dp_), dd.off, dd.key), Ptr(s.reg, simp(Z(s.idx, 64) + sp_), s.off, s.key), Z(cnt, 64))
            return R(st)
    return None
@model(r"Lucene::MiscUtils::arrayFill<")
def _afill(vc, st, fr, name, d, args, depth):
    p, a, b, v = args
    if not (isinstance(p, Ptr) and p.reg is not None and p.reg.kind == "arr"): return None
    ps = params_of(d)
    w = 8 * p.reg.es
    a_, b_ = sx(Z(a, 32)), sx(Z(b, 32))
    if isinstance(v, (z3.FPRef,)): return None
    if isinstance(v, (bool, z3.BoolRef)): v = Z(v, w)
    elif isinstance(v, int): v = v & M(w)
    elif v.size() > w: v = z3.Extract(w - 1, 0, v)
    elif v.size() < w: v = z3.SignExt(w - v.size(), v)
    c = simp(b_ - a_)
    c = z3.If(Z(c, 64) < 0, z3.BitVecVal(0, 64), Z(c, 64)) if not isinstance(c, int) else Z(max(0, sgn(c, 64)), 64)
    fill_range(vc, st, Ptr(p.reg, simp(Z(p.idx, 64) + a_), p.off), simp(c) if not isinstance(simp(c), int) else Z(simp(c), 64), v, p.reg.es)
    return R(st)

# ------------------------------------------------------------------ allocation of objects
@model(r"boost::make_shared<")
def _mkshared(vc, st, fr, name, d, args, depth):
    """sret, ctor args...: allocate T, run its constructor"""
    m = re.match(r".*?make_shared<(.*)>\(", d)
    ty = split_targs(m.group(1))[0]
    out, cargs = args[0], list(args[1:])
    h = vc.ctor_models.get(ty)
    if h is not None:
        p = h(vc, st, ty, cargs)
        vc.store(st, out, PTR, p); vc.store(st, out.at(8), PTR, NULL)
        return R(st)
    if ty.startswith("std::vector<"): 
        p = mk_vector(vc, st, ty, cargs, d)
        vc.store(st, out, PTR, p); vc.store(st, out.at(8), PTR, NULL)
        return R(st)
    # locate the constructor called in make_shared's body
    f = vc.prog.func(name)
    base = re.sub(r"<.*", "", ty).split("::")[-1]
    ctor = None
    for b in f.blocks.values():
        for i in b:
            if i.op == "call" and i.a[1][0] == "g":
                dd = vc.prog.demangle(i.a[1][1])
                if qualname(dd) == ty + "::" + base: ctor = i.a[1][1]
    if ctor is None: raise Unsupported("constructor of " + ty)
    r = vc.new_obj(st, base, cls=ty)
    r.exact = True
    st.mem[r][0] = (8, VPtr(ty, 0))
    # arguments arrive as references to the actual arguments; by-value constructor parameters are loaded
    f2 = vc.prog.func(ctor) if ctor in vc.prog.funcs else None
    pt = params_of(vc.prog.demangle(ctor))
    av = []
    for a, t in zip(cargs, pt):
        if t in ES or t in ("long long", "unsigned long long"):
            w = {1: I8, 2: I16, 4: I32, 8: I64}[ES[t]]
            if t == "bool": v = vc.load(st, a, I8); v = simpb(z3.Extract(0, 0, Z(v, 8)) == 1) if not isinstance(v, int) else bool(v & 1)
            elif t == "double": v = vc.load(st, a, F64)
            else: v = vc.load(st, a, w)
            av.append(v)
        elif t.endswith("*"): av.append(vc.load(st, a, PTR))
        else: av.append(a)
    res = vc.call_named(st, fr, ctor, [Ptr(r)] + av, None, depth)
    outs = []
    for s2, k, v in res:
        if k == "ret":
            s2.w(r)[0] = (8, VPtr(ty, 0))
            vc.store(s2, out, PTR, Ptr(r)); vc.store(s2, out.at(8), PTR, NULL)
        outs.append((s2, k, None if k == "ret" else v))
    return outs

def split_targs(s):
    out = []; dep = 0; cur = ""
    for c in s:
        if c in "<(": dep += 1
        elif c in ">)": dep -= 1
        if c == "," and dep == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    out.append(cur.strip())
    return out

def elem_size(vc, t):
    t = t.strip()
    if t in ES: return ES[t]
    if t.endswith("*"): return 8
    if t.startswith("boost::shared_ptr<") or t.startswith("boost::weak_ptr<"): return 16
    if t.startswith("Lucene::Array<"): return 24
    if t.startswith("std::__cxx11::basic_string<"): return 32
    return vc.prog.cls(t)["size"]

def mk_vector(vc, st, ty, cargs, d):
    et = split_targs(re.match(r"std::vector<(.*)>$", ty).group(1))[0]
    es = elem_size(vc, et)
    if len(cargs) == 0: n = 0; zero = False
    elif len(cargs) == 1:
        a = cargs[0]
        n = vc.load(st, a, I32 if ("int&" in d or "int&&" in d or "int const&" in d) and "long" not in d.split("make_shared")[-1] else I64)
        n = simp(sx(Z(n, 32))) if isinstance(n, int) and n < 2 ** 31 or (not isinstance(n, int) and n.size() == 32) else n
        vc.oblige(st, Z(n, 64) >= 0, "vector size is not negative", "bounds")
        zero = et in ES or et.endswith("*") or et.startswith("boost::shared_ptr")
    else: raise Unsupported("vector constructor " + d[:150])
    reg = vc.new_arr(st, "vec", es, n, cls=et, zero=zero)
    v = vc.new_obj(st, "vec.obj", cls=ty)
    st.mem[v][0] = (8, Ptr(reg)); st.mem[v][8] = (8, Ptr(reg, n)); st.mem[v][16] = (8, Ptr(reg, n))
    return Ptr(v)

@model(r"__dynamic_cast$")
def _dyncast(vc, st, fr, name, d, args, depth):
    """by the object's class: found among its bases -> that subobject; not found and the class is exact -> null"""
    p, dst = args[0], args[2]
    if not isinstance(p, Ptr): raise Unsupported("dynamic_cast of %r" % (p,))
    if p.reg is None: return R(st, NULL)
    q = dst.name if hasattr(dst, "name") else dst.t if hasattr(dst, "t") else None
    if q is None or not p.reg.cls: raise Unsupported("dynamic_cast of an object of unknown class")
    for b, o in vc.prog.bases(p.reg.cls):
        if b == q: return R(st, Ptr(p.reg, 0, o) if False else Ptr(p.reg).at(o))
    if getattr(p.reg, "exact", True): return R(st, NULL)
    raise Unsupported("dynamic_cast to %s of an object known only as %s" % (q, p.reg.cls))

def _weak(vc, st, fr, name, d, args, depth):
    """weak pointers are taken while their object lives: copies the pointer, no counts"""
    p = vc.load(st, args[1], PTR)
    vc.store(st, args[0], PTR, p); vc.store(st, args[0].at(8), PTR, NULL)
    return R(st, args[0])
DTABLE.append((re.compile(r"boost::shared_ptr<.*>::shared_ptr<.*>\(boost::weak_ptr<"), _weak))
DTABLE.append((re.compile(r"(boost::weak_ptr<.*>& )?boost::weak_ptr<.*>::operator=(<.*>)?\(boost::(shared|weak)_ptr<"), _weak))
