"""Contracts.  One declarative object per function: used to verify the function's body and, at call
sites, instead of the body."""
import z3, itertools
from .sym import *
from . import sym
from .ir import params_of

COLL = 40          # Collection<T>: its shared_ptr to the vector follows the LuceneSync base
class Ctx(View):
    """contract context: .st current (post) state reads; .old pre-state view; .a args; .ret"""
    def __init__(self, vc, st, old, args, ret=None, exc=None, call=False):
        View.__init__(self, vc, st)
        self.old, self.a, self.ret, self.exc, self.call = old, args, ret, exc, call
    @property
    def this(self): return self.a[0]

class Contract:
    """requires(c) -> [(name, formula)]       c: Ctx over the pre-state
       modifies(c) -> list of locations (reg, off, size) | ('ghost', reg, name) computed in the pre-state
       ensures(c)  -> [(name, formula)]       c: Ctx over post-state with c.old, c.ret
       raises(c)   -> list of (exception type, condition over pre-state) ; condition None = may throw
       ensures_exc(c) -> [(name, formula)]    for exceptional exits
       ret(c)      -> value builder for the result at call sites (default: fresh by return type)
       setup(b)    -> builder for verification; returns args (or a list of alternatives)"""
    _n = itertools.count()
    def __init__(self, fn, nparams=None, requires=None, modifies=None, ensures=None, raises=None, ensures_exc=None, ret=None, setup=None,
                 loops=(), pred=None, assumed=False, apply=None, cases=None, title=None, match=None, lemmas=None, fn_pred=None,
                 exc_free=True, timeout=20000, rounds=2, maxunroll=70, hints=None, name=None, use=None, nouse=(), replay=None, varmaps=None, tmo=None, skip_ctor=False, when=None, feas=None):
        self.when, self.feas = when, feas
        self.fn, self.nparams, self.requires, self.modifies, self.ensures = fn, nparams, requires, modifies, ensures
        self.raises, self.ensures_exc, self.ret, self.setup, self.loops = raises, ensures_exc, ret, setup, list(loops)
        self.pred, self.assumed, self.apply_fn = pred, assumed, apply
        self.title = title or fn
        self.name = name or fn
        self.lemmas = lemmas
        self.exc_free = exc_free
        self.timeout, self.rounds, self.maxunroll = timeout, rounds, maxunroll
        self.use, self.nouse = use, set(nouse)
        self.replay = replay
        self.varmaps = varmaps
        self.id = self.name
        self.n = next(Contract._n)
    def matches(self, d):
        if self.nparams is not None and len(params_of(d)) != self.nparams: return False
        if self.pred and not self.pred(d): return False
        return True

    def _norm(self, r):
        out = []
        for k, x in enumerate(r or []):
            if x is None: continue
            if isinstance(x, tuple) and isinstance(x[0], str): out.append(x)
            else: out.append(("c%d" % k, x))
        return out

    def apply(self, vc, st, args, where=""):
        if self.apply_fn: return self.apply_fn(vc, st, args, where)
        pre = View(vc, st)
        c0 = Ctx(vc, st, pre, args, call=True)
        for n, f in self._norm(self.requires(c0) if self.requires else []):
            for g in sym._flat([f]): vc.oblige(st, g, "pre of %s: %s" % (self.name, n), "pre", where)
        outs = []
        old_st = st.fork()
        old = View(vc, old_st)
        excs = self.raises(c0) if self.raises else []
        normal = []
        for ty, cond in excs:
            s2 = st.fork()
            if cond is not None:
                if not vc.feasible(s2, cond): 
                    continue
                s2.assume(cond)
                normal.append(Not(cond))
            c2 = Ctx(vc, s2, old, args, call=True)
            for loc in (self.modifies(Ctx(vc, s2, old, args, call=True)) if self.modifies else []): self.hv(vc, s2, loc)
            c2.exc = ty
            for n, f in self._norm(self.ensures_exc(c2) if self.ensures_exc else []): s2.assume(f)
            outs.append((s2, "throw", Exc(ty)))
        if normal and not vc.feasible(st, And(normal)): return outs
        st.assume(normal)
        for loc in (self.modifies(c0) if self.modifies else []): self.hv(vc, st, loc)
        c1 = Ctx(vc, st, old, args, call=True)
        c1.ret = self.ret(c1) if self.ret else None
        for n, f in self._norm(self.ensures(c1) if self.ensures else []): st.assume(f)
        outs.append((st, "ret", c1.ret))
        return outs

    def hv(self, vc, st, loc):
        reg, off, sz = loc
        if isinstance(off, str):
            c = st.w(reg)
            if off in c: c[off] = z3.BitVec(uniq("n"), 64) if off == "n" else vc.fresh_like(c[off], "%s.%s" % (reg.name, off))
            if st.rec is not None: st.rec.add(loc)
            return
        c = st.w(reg)
        if reg.kind == "obj":
            e = c.get(off)
            if e is not None and isinstance(e[1], Ptr): c[off] = (sz, Undef("havoc"))
            elif e is not None and isinstance(e[1], (bool, z3.BoolRef)): c[off] = (sz, z3.Bool(uniq("%s.%d" % (reg.name, off))))
            elif e is not None and isinstance(e[1], z3.FPRef): c[off] = (sz, vc.fresh_like(e[1], reg.name))
            else:
                for o in [o for o, x in c.items() if isinstance(o, int) and o < off + sz and off < o + x[0]]: c.pop(o)
                c[off] = (sz, z3.BitVec(uniq("%s.%d" % (reg.name, off)), 8 * sz))
        else:
            k = off if isinstance(off, tuple) else (off, sz)
            a = vc.getfp(st, reg, k[0], k[2]) if len(k) == 3 else vc.getarr(st, reg, *k)
            c[k] = vc.fresh_like(a, "%s.%s" % (reg.name, k[0]))
        if st.rec is not None: st.rec.add((reg, off, sz))

class Builder(View):
    """builds the symbolic pre-state for verifying one function"""
    def __init__(self, vc, st): View.__init__(self, vc, st); self.inputs = {}; self.hyps = []
    def obj(self, name, cls, exact=True):
        r = self.vc.new_obj(self.st, name, cls=cls, sym=True)
        r.exact = exact
        self.st.mem[r][0] = (8, VPtr(cls, 0)) if self.hasvptr(cls) else self.st.mem[r].get(0)
        if self.st.mem[r][0] is None: del self.st.mem[r][0]
        return Ptr(r)
    def hasvptr(self, cls):
        for b, o in self.vc.prog.bases(cls):
            try: c = self.vc.prog.cls(b)
            except Unsupported: continue
            if o == 0 and any(k.startswith("_vptr") for k in c["members"]): return True
        return False
    def bv(self, name, w):
        v = z3.BitVec(name, w)
        self.inputs[name] = v
        return v
    def i32(self, name): return self.bv(name, 32)
    def i64(self, name): return self.bv(name, 64)
    def bool(self, name):
        v = z3.Bool(name); self.inputs[name] = v; return v
    def assume(self, *f): self.st.assume(*f)
    def array(self, name, es, n, **k):
        """heap array of scalars; n BV64/int"""
        return self.vc.new_arr(self.st, name, es, n, **k)
    def sp(self, objptr):
        """a boost::shared_ptr<T> object holding objptr; returns pointer to it"""
        r = self.vc.new_obj(self.st, "sp", sym=False)
        self.st.mem[r][0] = (8, objptr); self.st.mem[r][8] = (8, NULL)
        return Ptr(r)
    def set_sp(self, p, name, objptr, cls=None):
        q = self.sub(p, name, cls)
        self.vc.store(self.st, q, PTR, objptr); self.vc.store(self.st, q.at(8), PTR, NULL)
    def lucene_array(self, where, reg, n32):
        """initialise a Lucene::Array<T> object at pointer `where` to own region reg of n32 elements"""
        ad = self.vc.new_obj(self.st, reg.name + ".data", sym=False)
        self.st.mem[ad][0] = (8, Ptr(reg)); self.st.mem[ad][8] = (4, n32)
        self.vc.store(self.st, where, PTR, Ptr(ad)); self.vc.store(self.st, where.at(8), PTR, NULL); self.vc.store(self.st, where.at(16), PTR, Ptr(ad))
        return ad
    def vector(self, reg, n64, cap=None):
        """a std::vector object over region reg"""
        v = self.vc.new_obj(self.st, reg.name + ".vec", sym=False)
        self.st.mem[v][0] = (8, Ptr(reg)); self.st.mem[v][8] = (8, Ptr(reg, n64)); self.st.mem[v][16] = (8, Ptr(reg, n64 if cap is None else cap))
        return Ptr(v)
    def string(self, where, name, es=4, maxlen=1 << 30):
        """initialise a std::wstring object at `where` with arbitrary content; returns (region, array, length)"""
        n = z3.BitVec(name + ".len", 64); self.assume(n >= 0, n < maxlen)
        self.inputs[name + ".len"] = n
        reg = self.vc.new_arr(self.st, name, es, simp(n + 1))
        self.vc.store(self.st, where, PTR, Ptr(reg)); self.vc.store(self.st, where.at(8), I64, n)
        return reg, self.vc.getarr(self.st, reg, 0, es), n
    def newstring(self, name, es=4):
        o = Ptr(self.vc.new_obj(self.st, name + ".obj", sym=False))
        return (o,) + self.string(o, name, es)
    def collection(self, where, reg, n64):
        v = self.vector(reg, n64)
        self.vc.store(self.st, where.at(COLL), PTR, v); self.vc.store(self.st, where.at(COLL + 8), PTR, NULL)
        return v

# accessors shared by contracts -------------------------------------------------
def larr(v, p, name=None):
    """Lucene::Array at member `name` of p: (region, size32)"""
    q = v.sub(p, name) if name else p
    ad = v.vc.load(v.st, q.at(16), PTR)
    if ad.reg is None: return None, z3.BitVecVal(0, 32)
    d = v.vc.load(v.st, ad, PTR)
    n = v.vc.load(v.st, ad.at(8), I32)
    return d.reg, Z(n, 32)
def lcoll(v, p, name=None):
    """Lucene::Collection at member name of p: (region, start idx, size64)"""
    q = v.sub(p, name) if name else p
    vp = v.vc.load(v.st, q.at(COLL), PTR)
    if vp.reg is None: return None, 0, z3.BitVecVal(0, 64)
    s = v.vc.load(v.st, vp, PTR); e = v.vc.load(v.st, vp.at(8), PTR)
    return s.reg, s.idx, Z(e.idx, 64) - Z(s.idx, 64)
def sptr(v, p, name):
    q = v.sub(p, name)
    return v.vc.load(v.st, q, PTR)
def loc(v, p, name, cls=None):
    """location tuple of a scalar member for modifies clauses"""
    q, sz, t = v.addr(p, name, cls)
    return (q.reg, q.off, sz)
