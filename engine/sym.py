"""Symbolic executor / verification-condition generator over LLVM IR.

Paths fork at branches; loops are cut at their header by the contract's invariant (havoc of the
dynamically discovered write set, assume, one arbitrary iteration, re-establish) or, when no
invariant is supplied, unrolled with an unwinding obligation.  Calls to functions under contract use
the contract; calls to anything else with a body are executed (inlined).  Memory is region based:
distinct regions never alias (regions come from the contract's set-up or from allocations)."""
import z3, itertools, re, sys, time
from .ir import *
from . import ir as IR

sys.setrecursionlimit(20000)
B64 = z3.BitVecSort(64)
_ctr = itertools.count()
def uniq(n): return "%s!%d" % (n, next(_ctr))
def M(w): return (1 << w) - 1
def Z(v, w):
    if isinstance(v, bool): return z3.BitVecVal(1 if v else 0, w)
    if isinstance(v, int): return z3.BitVecVal(v & M(w), w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, z3.BitVecRef):
        if v.size() == w: return v
        raise Unsupported("width mismatch %d/%d" % (v.size(), w))
    raise Unsupported("not an integer value: %r" % (v,))
def ZB(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BitVecRef): return z3.Extract(0, 0, v) == 1
    return v
def sgn(v, w):
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v
def cst(e):
    """python int if the term is a numeral"""
    if isinstance(e, (int, bool)): return int(e)
    if z3.is_bv_value(e): return e.as_long()
    return None
def simp(e):
    if isinstance(e, (int, bool)): return e
    s = z3.simplify(e, elim_sign_ext=False)
    if z3.is_bv_value(s): return s.as_long()
    return s
def simpb(e):
    if isinstance(e, bool): return e
    s = z3.simplify(e, elim_sign_ext=False)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s

def And(*a):
    a = [x for x in _flat(a) if x is not True]
    if any(x is False for x in a): return z3.BoolVal(False)
    return z3.And(*a) if len(a) != 1 else ZB(a[0])
def Or(*a):
    a = [x for x in _flat(a) if x is not False]
    if any(x is True for x in a): return z3.BoolVal(True)
    return z3.Or(*a) if len(a) != 1 else ZB(a[0])
def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else: yield x
def Not(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def Imp(a, b): return z3.Implies(ZB(a), ZB(b))
def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, a, b)
def sx(v, to=64):
    if isinstance(v, int): return v
    n = to - v.size()
    return z3.SignExt(n, v) if n > 0 else (v if n == 0 else z3.Extract(to - 1, 0, v))
def zx(v, to=64):
    if isinstance(v, int): return v
    n = to - v.size()
    return z3.ZeroExt(n, v) if n > 0 else (v if n == 0 else z3.Extract(to - 1, 0, v))
ULT, ULE, UGT, UGE, LShR = z3.ULT, z3.ULE, z3.UGT, z3.UGE, z3.LShR
def bvc(n, w=64): return z3.BitVec(uniq(n), w)

class FA:
    """universally quantified formula.  fn: python function of len(sorts) z3 terms -> Bool.
    Assumed facts are instantiated at index terms of the query; goals are skolemised."""
    def __init__(self, fn, widths=(64,), name="q", trig=None, extra=()):
        self.fn, self.widths, self.name, self.trig, self.extra = fn, tuple(widths), name, trig, tuple(extra)
    def eager(self):
        """evaluate the body now (it may read a state that changes later); instances by substitution"""
        if getattr(self, "_eager", False) or not all(isinstance(w, int) for w in self.widths): return self
        vs = [z3.BitVec("fa!%d!%d" % (k, w), w) for k, w in enumerate(self.widths)]
        body = self.fn(*vs)
        if isinstance(body, bool): body = z3.BoolVal(body)
        self._eager = True
        if z3.is_expr(body): self.fn = lambda *t, body=body, vs=vs: z3.substitute(body, *zip(vs, t))
        return self
    def skolem(self):
        vs = [z3.BitVec(uniq("sk_" + self.name), w) for w in self.widths]
        return self.fn(*vs)
    def quant(self):
        vs = [z3.BitVec(uniq("qv_" + self.name), w) for w in self.widths]
        return z3.ForAll(vs, ZB(self.fn(*vs)))

# ---------------------------------------------------------------- values
class Region:
    _n = itertools.count(1)
    def __init__(self, name, kind, es=0, cls=None, keyed=False, sym=False, nullable=False, stack=False):
        self.id = next(Region._n); self.name, self.kind, self.es, self.cls, self.keyed, self.sym = name, kind, es, cls, keyed, sym
        self.nullable, self.stack = nullable, stack
        self.pointee = {}
        self.exact = False     # dynamic type is exactly cls
        self.tags = {}
    def __repr__(self): return "<%s#%d>" % (self.name, self.id)

class Ptr:
    __slots__ = ("reg", "idx", "off", "key")
    def __init__(self, reg, idx=0, off=0, key=None): self.reg, self.idx, self.off, self.key = reg, idx, off, key
    def __repr__(self): return "&%r[%s%s]+%d" % (self.reg, "" if self.key is None else str(self.key) + ",", self.idx, self.off)
    def at(self, off): return Ptr(self.reg, self.idx, self.off + off, self.key)
NULL = Ptr(None)
class VPtr:
    def __init__(self, cls, slot=0): self.cls, self.slot = cls, slot
    def __repr__(self): return "vt(%s)+%d" % (self.cls, self.slot)
class FPtr:
    def __init__(self, name, virt=None): self.name, self.virt = name, virt
    def __repr__(self): return "fn(%s)" % self.name
class Undef:
    def __init__(self, why=""): self.why = why
    def __repr__(self): return "undef"
UNDEF = Undef()
class PInt:
    """ptrtoint of a Ptr"""
    def __init__(self, p): self.p = p
class PDiff:
    """difference of two pointers into one array region: (didx)*es + doff"""
    def __init__(self, didx, es, doff): self.didx, self.es, self.doff = didx, es, doff
class Agg:
    def __init__(self, v): self.v = list(v)
class Exc:
    """a C++ exception in flight"""
    def __init__(self, type, ptr=None, ghost=None): self.type, self.ptr, self.ghost = type, ptr, ghost
    def __repr__(self): return "exc(%s)" % self.type
class Sel:
    def __init__(self, exc): self.exc = exc
class TId:
    def __init__(self, name): self.name = name
class Tok:
    """opaque library value"""
    def __init__(self, name): self.name = name
    def __repr__(self): return "tok(%s)" % self.name

class State:
    __slots__ = ("mem", "pc", "facts", "rec", "trace", "own", "caught", "flags")
    def __init__(self):
        self.mem = {}; self.pc = []; self.facts = []; self.rec = None; self.trace = (); self.own = set(); self.caught = (); self.flags = {}
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.facts = list(self.facts); s.rec = self.rec; s.trace = self.trace
        s.own = set(); self.own = set(); s.caught = self.caught; s.flags = dict(self.flags)
        return s
    def w(self, reg):
        if reg not in self.own:
            self.mem[reg] = dict(self.mem[reg]); self.own.add(reg)
        return self.mem[reg]
    def assume(self, *fs):
        for f in _flat(fs):
            if f is True or f is None: continue
            if isinstance(f, FA): self.facts.append(f.eager())
            elif f is False: self.pc.append(z3.BoolVal(False))
            else: self.pc.append(f)

class Obligation:
    def __init__(self, name, kind, hyps, facts, goal, where, trace=()):
        self.name, self.kind, self.hyps, self.facts, self.goal, self.where, self.trace = name, kind, hyps, facts, goal, where, trace
        self.result = None; self.time = 0; self.solver = None; self.model = None

class View:
    """read access to a state for contracts"""
    def __init__(self, vc, st): self.vc, self.st = vc, st
    def fld(self, p, name, cls=None):
        """value of data member `name` (dotted path) of the class object at p"""
        q, sz, ty = self.addr(p, name, cls)
        return self.vc.load(self.st, q, ty)
    def addr(self, p, name, cls=None):
        if p.reg is None: raise Unsupported("null object in contract: ." + name)
        c = cls or p.reg.cls
        off = 0; sz = 0
        for part in name.split("."):
            o, sz = self.vc.prog.member(c, part)
            off += o
            last = c
            c = self.vc.prog.member_type(c, part)
        t = PTR
        ct = c
        if sz in (1, 2, 4, 8):
            t = {1: I8, 2: I16, 4: I32, 8: I64}[sz]
        d = self.vc.ptrness(last, name.split(".")[-1])
        if d == "ptr": t = PTR
        elif d == "double": t = F64
        elif d == "float": t = F32
        return p.at(off), sz, t
    def set(self, p, name, v, cls=None):
        q, sz, ty = self.addr(p, name, cls)
        self.vc.store(self.st, q, ty, v)
    def sub(self, p, name, cls=None):
        """pointer to an embedded member object"""
        c = cls or p.reg.cls
        off = 0
        for part in name.split("."):
            o, sz = self.vc.prog.member(c, part); off += o
            c = self.vc.prog.member_type(c, part)
        return p.at(off)
    def ghost(self, p, name, default=None):
        reg = p.reg if isinstance(p, Ptr) else p
        c = self.st.mem[reg]
        k = "g:" + name
        if k not in c:
            if default is None: raise Unsupported("ghost %s of %r missing" % (name, reg))
            c = self.st.w(reg); c[k] = default
        return c[k]
    def setghost(self, p, name, v):
        reg = p.reg if isinstance(p, Ptr) else p
        self.st.w(reg)["g:" + name] = v
        if self.st.rec is not None: self.st.rec.add((reg, "g:" + name, 0))
    def n(self, reg): return self.st.mem[reg]["n"]
    def arr(self, reg, off=0, sz=None):
        return self.vc.getarr(self.st, reg, off, sz or reg.es)
    def setarr(self, reg, a, off=0, sz=None):
        self.st.w(reg)[(off, sz or reg.es)] = a
        if self.st.rec is not None: self.st.rec.add((reg, off, sz or reg.es))

class LoopSpec:
    """merge: the body is verified once for all ways of reaching the loop - path conditions since the function's
    entry are dropped at the head, and a further arrival only has to establish the invariant if everything the
    loop does not change is the same"""
    def __init__(self, inv, vars=(), dec=None, name=None, unroll=None, merge=False):
        self.inv, self.vars, self.dec, self.name, self.unroll, self.merge = inv, tuple(vars), dec, name, unroll, merge
def same_val(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.reg is b.reg and a.off == b.off and same_val(a.idx, b.idx) and same_val(a.key, b.key)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    try: return type(a) == type(b) and a == b
    except Exception: return False
def same_state(s, t, W):
    """s and t agree outside W (memory of temporaries that only one of them has is not compared)"""
    if s.caught != t.caught or s.flags != t.flags: return False
    for reg in set(s.mem) | set(t.mem):
        if (reg in s.mem) != (reg in t.mem):
            if not reg.stack: return False
            continue
        a, b = s.mem[reg], t.mem[reg]
        if a is b: continue
        for k in set(a) | set(b):
            if any(w[0] is reg and (w[1] == k or isinstance(k, tuple) and w[1] in (k, k[0])) for w in W): continue
            if not same_val(a.get(k), b.get(k)): return False
    return True

class Frame:
    __slots__ = ("f", "env", "active", "counts", "caller", "depth")

class VC:
    def __init__(self, prog, contracts=None, models=None, unit="", maxpaths=4000, maxunroll=70, deadline=None):
        self.prog = prog
        self.contracts = contracts or {}      # qualified name -> Contract
        self.models = models
        self.unit = unit
        self.obs = []
        self.muted = 0
        self.maxpaths, self.maxunroll = maxpaths, maxunroll
        self.npaths = 0
        self.loopspecs = []       # for the function under verification
        self.loopmap = {}
        self.called_contracts = set()
        self.inlined = set()
        self.model_used = set()
        self.bounded = None       # unrolling bound when run as a bounded stand-in
        self.was_bounded = False
        self.solver_t = 0.0
        self.globs = {}
        self.deadline = deadline
        self.pre_view = None
        self.loop_hits = {}
        self.bounds_on = True
        self.feas_facts = 1
        self.varmap = {}
        self.allnames = set()
        self.assumed_throw = set()
        self.ptrhavoc = {}
        self.loop_ct = 0
        self.loopperm = None
        self.ginit = {}
        self.cur_st = None
        self.vac = []
        self.pre_args = None
        self.constglobals = set()
        self.table_specs = []; self.table_facts = {}

    # ------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind, where=""):
        if self.muted: return
        if isinstance(goal, FA):
            goal = goal.skolem()
        if goal is True or goal is None: 
            goal = z3.BoolVal(True)
        goal = ZB(goal)
        self.obs.append(Obligation(name, kind, list(st.pc), list(st.facts) + list(self.table_facts.values()), goal, where, st.trace))

    def check_sat(self, st, extra=None, ms=1500):
        s = z3.Solver(); s.set("timeout", ms)
        pc, facts = st.pc, st.facts
        skip = set().union(*[F.rel for F in facts if getattr(F, "rel", None)])
        if skip:      # leaving assumptions out only keeps more paths
            from .solve import symbols
            m = self.__dict__.setdefault("_symc", {})
            def hit(p):
                k = p.get_id()
                if k not in m: m[k] = (p, symbols(p))
                return m[k][1] & skip
            facts = [F for F in facts if not getattr(F, "rel", None)]; pc = [p for p in pc if not z3.is_expr(p) or not hit(p)]
        for p in pc: s.add(p)
        if extra is not None: s.add(ZB(extra))
        if facts and self.feas_facts:
            from .solve import instantiate_auto
            for i in instantiate_auto(list(pc) + ([ZB(extra)] if extra is not None else []), facts, rounds=self.feas_facts, cap=200): s.add(i)
        t = time.time()
        r = s.check()
        self.solver_t += time.time() - t
        return r

    def infeasible_strong(self, st, ms=15000):
        from .solve import instantiate_auto, portfolio
        s = z3.Solver(); s.set("timeout", 2000); s.add(*st.pc); s.add(*instantiate_auto(list(st.pc), st.facts, 3))
        r = s.check()
        if r == z3.unknown: return portfolio(s.to_smt2(), None, ms)[0] == "unsat"
        return r == z3.unsat
    def feasible(self, st, cond):
        if isinstance(cond, bool): return cond
        return self.check_sat(st, cond) != z3.unsat

    # ------------------------------------------------ memory
    def new_obj(self, st, name, cls=None, sym=False, stack=False):
        r = Region(name, "obj", cls=cls, sym=sym, stack=stack)
        st.mem[r] = {}
        st.own.add(r)
        return r
    def new_arr(self, st, name, es, n, cls=None, keyed=False, zero=False):
        r = Region(name, "arr", es=es, cls=cls, keyed=keyed)
        st.mem[r] = {"n": n, "zero": zero}
        st.own.add(r)
        return r
    def ptrness(self, cls, mem):
        for b, o in self.prog.bases(cls):
            try: c = self.prog.cls(b)
            except Unsupported: continue
            if mem in c["members"]:
                m = c["mod"]; bt = m.mdget(c["members"][mem][2])
                while "DW_TAG_typedef" in bt or "DW_TAG_const" in bt: bt = m.mdget(mdfield(bt, "baseType"))
                if "DW_TAG_pointer_type" in bt or "DW_TAG_reference_type" in bt or "DW_TAG_rvalue" in bt: return "ptr"
                if "DW_ATE_float" in bt: return "double" if "size: 64" in bt else "float"
                return "int"
        return "int"

    def getarr(self, st, reg, off, sz):
        c = st.mem[reg]
        a = c.get((off, sz))
        if a is None:
            if c.get("zero"):
                a = z3.K(B64, z3.BitVecVal(0, 8 * sz))
            else:
                nm = "%s.%d" % (reg.name, off)
                dom = [B64, B64] if reg.keyed else [B64]
                a = z3.Array("%s!%d" % (nm, reg.id), *dom, z3.BitVecSort(8 * sz))
        return a

    def getfp(self, st, reg, off, sz):
        a = st.mem[reg].get((off, "fp", sz))
        if a is None:
            a = z3.Array("%s.fp%d!%d" % (reg.name, off, reg.id), *([B64, B64] if reg.keyed else [B64]), z3.Float64() if sz == 8 else z3.Float32())
        return a

    def fresh_val(self, t, name):
        if t.k == "i":
            if t.w == 1: return z3.Bool(uniq(name))
            return z3.BitVec(uniq(name), t.w)
        if t.k == "double": return z3.FP(uniq(name), z3.Float64())
        if t.k == "float": return z3.FP(uniq(name), z3.Float32())
        return Undef(name)

    def det_val(self, t, name):
        """initial content of a location: a constant determined by the location"""
        if t.k == "i":
            if t.w == 1: return z3.Extract(0, 0, z3.BitVec(name + ".8", 8)) == 1
            return z3.BitVec("%s.%d" % (name, t.w), t.w)
        if t.k == "double": return z3.fpBVToFP(z3.BitVec(name + ".64", 64), z3.Float64())
        if t.k == "float": return z3.fpBVToFP(z3.BitVec(name + ".32", 32), z3.Float32())
        return Undef(name)

    def tsize(self, t): return IR.size(t)

    def bounds(self, st, p, sz, what, where=""):
        reg = p.reg
        n = st.mem[reg].get("n")
        if n is None or self.muted or not self.bounds_on: return
        idx = p.idx
        if p.off + sz > reg.es and reg.es == 1:
            last = simp(Z(idx, 64) + (sz - 1)) if not isinstance(idx, int) else idx + sz - 1
            g = And(ULT(Z(idx, 64), Z(n, 64)), ULT(Z(last, 64), Z(n, 64)))
        else: g = ULT(Z(idx, 64), Z(n, 64)) if not (isinstance(idx, int) and isinstance(n, int)) else (idx < n)
        if g is True: return
        self.oblige(st, g, "%s in bounds of %s" % (what, reg.name), "bounds", where)

    def load(self, st, p, t, where=""):
        if not isinstance(p, Ptr): raise Unsupported("load through %r at %s" % (p, where))
        if p.reg is None:
            self.oblige(st, False, "null dereference (load)", "bounds", where)
            raise PathEnd()
        if t.k == "struct" or t.k == "arr":
            return self.load_agg(st, p, t, where)
        sz = self.tsize(t)
        reg = p.reg
        if reg.kind == "obj":
            c = st.mem[reg]
            e = c.get(p.off)
            if e is not None and e[0] == sz: return self.coerce(e[1], t)
            if e is None:
                ov = [(o, x) for o, x in c.items() if isinstance(o, int) and o < p.off + sz and p.off < o + x[0]]
                if ov: return self.partial(st, reg, p.off, sz, t, ov)
                if reg.sym:
                    v = self.det_val(t, "%s#%d.%d" % (reg.name, reg.id, p.off))
                    if isinstance(v, Undef): v = Undef("%s+%d" % (reg, p.off))
                    return v
                if t.k == "ptr": return Undef("uninitialised %s+%d" % (reg, p.off))
                return self.det_val(t, "uninit_%s#%d.%d" % (reg.name, reg.id, p.off))
            ov = [(o, x) for o, x in c.items() if isinstance(o, int) and o < p.off + sz and p.off < o + x[0]]
            return self.partial(st, reg, p.off, sz, t, ov)
        # array region
        off = p.off
        idx = p.idx
        self.bounds(st, p, sz, "read", where)
        if reg.es == 1 and sz > 1:
            parts = [z3.Select(self.getarr(st, reg, 0, 1), Z(simp(Z(idx, 64) + i), 64)) for i in range(sz)]
            return self.coerce(z3.Concat(*parts[::-1]), t)
        if t.k == "ptr":
            if off == 0 and reg.tags.get("vcls"): return VPtr(reg.tags["vcls"], 0)     # array of objects known by their static class only
            ir_ = reg.tags.get("idrows")
            if ir_ and off in ir_:      # element i of this array owns row i of another region
                v = ir_[off]
                if v is None: return NULL
                return Ptr(v, idx, 0) if not v.keyed else Ptr(v, 0, 0, idx)
            tgt = reg.pointee.get(off)
            if tgt is None: raise Unsupported("pointer load from %r+%d has no declared target" % (reg, off))
            a = self.getarr(st, reg, off, 8)
            key = self.sel(a, p)
            if callable(tgt): return tgt(self, st, key)
            if tgt.tags.get("rows"): return Ptr(tgt, 0, 0, key)
            return Ptr(tgt, key, 0)
        if t.k in ("double", "float") :
            return self.sel(self.getfp(st, reg, off, sz), p)
        a = self.getarr(st, reg, off, sz)
        return self.coerce(simp(self.sel(a, p)), t)

    def sel(self, a, p):
        if p.reg.keyed: return z3.Select(a, Z(p.key, 64), Z(p.idx, 64))
        return z3.Select(a, Z(p.idx, 64))

    def load_agg(self, st, p, t, where):
        if t.k == "struct": return Agg([self.load(st, p.at(IR.field_off(t, i)), f, where) for i, f in enumerate(t.fs)])
        raise Unsupported("aggregate load")

    def coerce(self, v, t):
        if t.k == "i":
            if t.w == 1:
                if isinstance(v, (bool, z3.BoolRef)): return v
                if isinstance(v, int): return bool(v & 1)
                if isinstance(v, z3.BitVecRef): return simpb(z3.Extract(0, 0, v) == 1)
                return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, z3.BoolRef): return Z(v, t.w)
            if isinstance(v, z3.FPRef): return self.fp_bits(v)
            if isinstance(v, z3.BitVecRef) and v.size() != t.w: raise Unsupported("load width %d of %d" % (t.w, v.size()))
            return v
        if t.k in ("double", "float"):
            so = z3.Float64() if t.k == "double" else z3.Float32()
            if isinstance(v, (int, z3.BitVecRef)): return z3.fpBVToFP(Z(v, 64 if t.k == "double" else 32), so)
            return v
        if t.k == "ptr" and isinstance(v, int):
            if v == 0: return NULL
            raise Unsupported("integer as pointer")
        if t.k == "ptr" and isinstance(v, z3.ExprRef): raise Unsupported("integer as pointer")
        return v

    def fp_bits(self, v):
        return z3.fpToIEEEBV(v)

    def partial(self, st, reg, off, sz, t, ov):
        # compose bytes (little endian) from integer pieces
        out = []
        for b in range(off, off + sz):
            hit = None
            for o, (s, v) in ov:
                if o <= b < o + s: hit = (o, s, v)
            if hit is None:
                out.append(bvc("uninit", 8)); continue
            o, s, v = hit
            if isinstance(v, (bool, z3.BoolRef)): v = Z(v, 8)
            if isinstance(v, z3.FPRef): v = self.fp_bits(v)
            if not isinstance(v, (int, z3.BitVecRef)): raise Unsupported("partial load of %r" % (v,))
            k = b - o
            out.append(z3.Extract(8 * k + 7, 8 * k, Z(v, 8 * s)))
        return self.coerce(simp(z3.Concat(*out[::-1]) if len(out) > 1 else out[0]), t)

    def store(self, st, p, t, v, where=""):
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % (p,))
        if p.reg is None:
            self.oblige(st, False, "null dereference (store)", "bounds", where)
            raise PathEnd()
        if isinstance(v, Agg):
            for i, f in enumerate(t.fs): self.store(st, p.at(IR.field_off(t, i)), f, v.v[i], where)
            return
        sz = self.tsize(t)
        reg = p.reg
        if reg.kind == "obj":
            c = st.w(reg)
            e = c.get(p.off)
            if e is None or e[0] != sz:
                for o in [o for o, x in c.items() if isinstance(o, int) and o < p.off + sz and p.off < o + x[0]]:
                    s0, v0 = c.pop(o)
                    # keep the non-overwritten integer bytes
                    if isinstance(v0, (int, z3.BitVecRef)) and not isinstance(v0, bool):
                        for k in range(s0):
                            if not (p.off <= o + k < p.off + sz):
                                c[o + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, Z(v0, 8 * s0))))
            if t.k == "i" and t.w == 1: pass
            c[p.off] = (sz, v)
            if st.rec is not None:
                st.rec.add((reg, p.off, sz))
                if isinstance(v, Ptr): self.ptrhavoc.setdefault((reg, p.off), set()).add((v.reg, v.off))
            return
        if isinstance(v, VPtr): return
        self.bounds(st, p, sz, "write", where)
        c = st.w(reg)
        if t.k == "ptr":
            if reg.tags.get("idrows"): raise Unsupported("pointer store into %r+%d" % (reg, p.off))
            tgt = reg.pointee.get(p.off)
            if isinstance(v, Ptr) and v.reg is None: key = 0
            elif tgt is None or callable(tgt): 
                if isinstance(v, Undef): return
                raise Unsupported("pointer store into %r+%d of %r" % (reg, p.off, v))
            elif isinstance(v, Ptr) and v.reg is tgt: key = v.key if tgt.tags.get("rows") else v.idx
            else: raise Unsupported("pointer store into %r+%d of %r" % (reg, p.off, v))
            a = self.getarr(st, reg, p.off, 8)
            c[(p.off, 8)] = self.upd(a, p, Z(key, 64))
            if st.rec is not None: st.rec.add((reg, p.off, 8))
            return
        if t.k in ("double", "float"):
            c[(p.off, "fp", sz)] = self.upd(self.getfp(st, reg, p.off, sz), p, v)
            if st.rec is not None: st.rec.add((reg, (p.off, "fp", sz), sz))
            return
        if reg.es == 1 and sz > 1:
            for i in range(sz):
                c[(0, 1)] = z3.Store(self.getarr(st, reg, 0, 1), Z(simp(Z(p.idx, 64) + i), 64), z3.Extract(8 * i + 7, 8 * i, Z(v, 8 * sz)))
            if st.rec is not None: st.rec.add((reg, 0, 1))
            return
        a = self.getarr(st, reg, p.off, sz)
        c[(p.off, sz)] = self.upd(a, p, Z(v, 8 * sz))
        if st.rec is not None: st.rec.add((reg, p.off, sz))

    def upd(self, a, p, v):
        if p.reg.keyed: return z3.Update(a, Z(p.key, 64), Z(p.idx, 64), v) if hasattr(z3, "Update") else z3.Store(a, Z(p.key, 64), Z(p.idx, 64), v)
        return z3.Store(a, Z(p.idx, 64), v)

    # ------------------------------------------------ havoc
    def havoc(self, st, W, pre=None, tag="h"):
        for reg, off, sz in sorted(W, key=lambda x: (x[0].id, str(x[1]), x[2])):
            if reg not in st.mem: continue
            c = st.w(reg)
            if isinstance(off, str) and off.startswith("g:"):
                v = c.get(off)
                if v is None: raise Unsupported("ghost %s written in a loop but not initialised" % off)
                c[off] = self.fresh_like(v, "%s.%s_%s" % (reg.name, off[2:], tag))
                continue
            if off == "n":
                c["n"] = z3.BitVec(uniq(reg.name + ".n"), 64); continue
            if reg.kind == "obj":
                e = c.get(off)
                if e is None or e[0] != sz:
                    for o in [o for o, x in c.items() if isinstance(o, int) and o < off + sz and off < o + x[0]]: c.pop(o)
                    if (reg, off) in self.ptrhavoc: c[off] = (sz, Undef("havoc pointer"))
                    else: c[off] = (sz, z3.BitVec(uniq("%s.%s" % (reg.name, off)), 8 * sz))
                    continue
                v = e[1]
                if isinstance(v, Ptr):
                    tg = self.ptrhavoc.get((reg, off))
                    if tg and len(tg) == 1 and (v.reg is None or list(tg)[0] == (v.reg, v.off)) and list(tg)[0][0] is not None:
                        r2, o2 = list(tg)[0]
                        if r2.kind == "arr":
                            c[off] = (sz, Ptr(r2, z3.BitVec(uniq("%s.p%d" % (reg.name, off)), 64), o2, z3.BitVec(uniq("pk"), 64) if r2.keyed else None))
                        elif v.reg is not None: pass  # same object pointer: unchanged
                        else: c[off] = (sz, Undef("havoc pointer"))
                    else: c[off] = (sz, Undef("havoc pointer %s+%d" % (reg.name, off)))
                elif isinstance(v, bool): c[off] = (sz, z3.Bool(uniq("%s.%s" % (reg.name, off))))
                elif isinstance(v, int): c[off] = (sz, z3.BitVec(uniq("%s.%s" % (reg.name, off)), 8 * sz))
                else: c[off] = (sz, self.fresh_like(v, "%s.%s" % (reg.name, off)))
            else:
                k = off if isinstance(off, tuple) else (off, sz)
                a = self.getfp(st, reg, k[0], k[2]) if len(k) == 3 else self.getarr(st, reg, *k)
                c[k] = self.fresh_like(a, "%s.%s_%s" % (reg.name, k[0], tag))
    def fresh_like(self, v, name):
        if isinstance(v, bool): return z3.Bool(uniq(name))
        if isinstance(v, int): return v if False else z3.BitVec(uniq(name), 64)
        if isinstance(v, z3.ExprRef): return z3.Const(uniq(name), v.sort())
        if isinstance(v, (Undef, Tok, VPtr, FPtr)): return v
        return Undef("havoc " + name)

class PathEnd(Exception): pass

FREM = None
CMPF = {"eq": "==", "ne": "!="}

class Frm:
    """one activation"""
    __slots__ = ("f", "env", "active", "counts", "caller", "entry", "args")
    def __init__(self, f, env, caller):
        self.f, self.env, self.caller = f, env, caller
        self.active = {}; self.counts = {}; self.entry = None
    def fork(self):
        g = Frm(self.f, dict(self.env), self.caller)
        g.active = dict(self.active); g.counts = dict(self.counts); g.entry = self.entry; g.args = self.args
        return g

class LoopCtx(View):
    def __init__(self, vc, st, frame, entry=None):
        View.__init__(self, vc, st)
        self.frame = frame
        self.entry = entry      # View of the state on loop entry (or None)
        self.pre = vc.pre_view  # View of the state on entry of the verified function
        self.cargs = vc.pre_args
    def has(self, name):
        return self._find(name) is not None
    def _find(self, name):
        name = self.vc.varmap.get((self.frame.f.name, name), self.vc.varmap.get(name, name))
        fr = self.frame
        while fr is not None:
            for n in (name, name + ".addr"):
                if n in fr.env and isinstance(fr.env[n], Ptr): return fr.env[n], fr.f
            fr = None
        return None
    def cell(self, name):
        r = self._find(name)
        if r is None: raise Unsupported("local variable %s not found in %s" % (name, self.frame.f.demangled))
        return r[0]
    def var(self, name):
        p = self.cell(name)
        e = self.st.mem[p.reg].get(p.off)
        if e is None: raise Unsupported("local variable %s uninitialised" % name)
        return e[1] if not isinstance(e[1], int) or isinstance(e[1], bool) else z3.BitVecVal(e[1], 8 * e[0])
    def old(self, name):
        """value of the local at loop entry"""
        return LoopCtx(self.vc, self.entry.st, self.frame).var(name)
    @property
    def this(self): return self.frame.args[0] if not self.frame.args or True else None

def _exec(vc):
    pass

class Executor(VC):
    # ------------------------------------------------ operand evaluation
    def ev(self, fr, t, v):
        k = v[0]
        if k == "l":
            try: return fr.env[v[1]]
            except KeyError: raise Unsupported("value %%%s undefined in %s" % (v[1], fr.f.name))
        if k == "c":
            if t.k == "i":
                if t.w == 1: return bool(v[1] & 1)
                return v[1] & M(t.w)
            if t.k in ("double", "float"): return z3.FPVal(float(v[1]), z3.Float64() if t.k == "double" else z3.Float32())
            raise Unsupported("constant")
        if k == "null": return NULL
        if k == "undef":
            if t.k == "struct": return Agg([UNDEF] * len(t.fs))
            if t.k == "i": return self.fresh_val(t, "undef")
            return UNDEF
        if k == "zero":
            if t.k == "i": return 0 if t.w > 1 else False
            if t.k == "ptr": return NULL
            if t.k == "struct": return Agg([self.ev(fr, f, v) for f in t.fs])
            if t.k in ("double", "float"): return z3.FPVal(0.0, z3.Float64() if t.k == "double" else z3.Float32())
            raise Unsupported("zeroinitializer")
        if k == "f": return self.fconst(t, v[1])
        if k == "g": return self.gaddr(v[1])
        if k == "gep":
            ops = [(tt, self.ev(fr, tt, vv)) for tt, vv in v[2]]
            return self.gep(v[1], ops)
        if k == "cast":
            a = self.ev(fr, v[2][0], v[2][1])
            return self.cast(v[1], v[2][0], a, v[3])
        if k == "cbin":
            (ta, a), (tb, b) = v[2]
            return self.binop(v[1], ta, self.ev(fr, ta, a), self.ev(fr, tb, b), {})
        if k == "agg": return Agg([self.ev(fr, tt, vv) for tt, vv in v[1]])
        raise Unsupported("operand " + str(v)[:80])

    def fconst(self, t, s):
        if s.startswith("0x") and s[2] not in "KMLHR":
            import struct
            d = struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
        elif s.startswith("0x"): return Tok("fp80")
        else: d = float(s)
        import math
        so = z3.Float64() if t.k == "double" else z3.Float32()
        if math.isnan(d): return z3.fpNaN(so)
        if math.isinf(d): return z3.fpPlusInfinity(so) if d > 0 else z3.fpMinusInfinity(so)
        return z3.FPVal(d, so)

    def gaddr(self, name):
        if name in self.prog.funcs or self.is_fn(name): return FPtr(name)
        d = self.prog.demangle(name)
        if d.startswith("vtable for "): return VPtr(d[11:], None)
        if d.startswith("typeinfo for "): return TId(d[13:])
        if name in self.globs: return Ptr(self.globs[name])
        mod, body = self.prog.gvar(name)
        r = Region("@" + d.split("::")[-1][:40], "obj", sym=True)
        r.tags["global"] = d
        self.globs[name] = r
        self.ginit[r] = (mod, body, name)
        return Ptr(r)

    def is_fn(self, name):
        for m in self.prog.mods:
            if name in m.decls: return True
        return False

    def gmat(self, st, reg):
        """materialise a global's initial content on first touch"""
        if reg in st.mem or reg not in self.ginit: return
        mod, body, name = self.ginit[reg]
        st.mem[reg] = {}
        if mod is None: return
        m = re.match(r"(?:[a-z_]+(?:\([^)]*\))? )*?(?:global|constant) ", body)
        if not m: return
        const = " constant " in " " + m.group()
        t, i = mod.ptype(body, m.end())
        try: v, _ = mod.pvalue(body, i, t)
        except (Unsupported, IndexError): return
        reg.sym = False
        isconst = const or not self.mutable_global(name)
        if t.k == "arr" and t.e.k == "i":
            reg.kind = "arr"; reg.es = IR.size(t.e)
            st.mem[reg]["n"] = t.n
            a = z3.K(B64, z3.BitVecVal(0, t.e.w))
            if isconst and t.n > 64 and (v[0] == "str" or v[0] == "agg" and all(vv[0] == "c" for _, vv in v[1])):
                vals = list(v[1]) if v[0] == "str" else [vv[1] for _, vv in v[1]]
                T = z3.Array("tbl:" + name, B64, z3.BitVecSort(t.e.w))
                dn = self.prog.demangle(name)
                f = None
                for tn, uf, py in self.table_specs:
                    if tn == dn and all((py(k) & M(t.e.w)) == (x & M(t.e.w)) for k, x in enumerate(vals)):   # decided by complete enumeration of the table
                        f = FA(lambda i, n=t.n, uf=uf: Imp(ULT(i, z3.BitVecVal(n, 64)), T[i] == uf(i)), name="tbl", trig=["tbl:" + name])
                if f is None:
                    ch = a
                    for k, x in enumerate(vals):
                        if x: ch = z3.Store(ch, z3.BitVecVal(k, 64), z3.BitVecVal(x, t.e.w))
                    f = FA(lambda i, ch=ch: T[i] == ch[i], name="tbl", trig=["tbl:" + name])
                self.table_facts[name] = f
                st.mem[reg][(0, reg.es)] = T
                reg.tags["const"] = v
                return
            if v[0] == "str":
                for k, b in enumerate(v[1]): a = z3.Store(a, z3.BitVecVal(k, 64), z3.BitVecVal(b, 8))
            elif v[0] == "agg":
                for k, (tt, vv) in enumerate(v[1]):
                    if vv[0] == "c" and vv[1]: a = z3.Store(a, z3.BitVecVal(k, 64), z3.BitVecVal(vv[1], t.e.w))
            st.mem[reg][(0, reg.es)] = a
            reg.tags["const"] = v
            return
        if t.k == "struct":
            try: val = self.ev(None, t, v)
            except Exception: reg.sym = True; return
            if const: self.store(st, Ptr(reg), t, val)
            else: reg.sym = True
            return
        if t.k in ("i", "double", "float", "ptr"):
            src = self.const_alias(mod, name) if not const else None
            if src:      # a C++ const initialised from another constant: same value
                p = self.gaddr(src); self.gmat(st, p.reg)
                if not p.reg.sym and 0 in st.mem.get(p.reg, {}): st.mem[reg][0] = st.mem[p.reg][0]; return
            if not const and name not in self.constglobals and not self.never_written(mod, name): reg.sym = True; return
            st.mem[reg][0] = (IR.size(t), self.ev(None, t, v))
            return
        reg.sym = True

    def mutable_global(self, name): return True
    def never_written(self, mod, name):
        """a variable private to its translation unit whose every use is a load"""
        if not re.match(r"internal\b", self.ginit_body(name)): return False
        use, ld = re.compile(r'@"?%s"?(?![\w.$])' % re.escape(name)), re.compile(r'= load [^@]*@"?%s"?(?![\w.$])[^@]*$' % re.escape(name))
        for f in mod.funcs.values():
            for l in f.lines or []:
                if use.search(l) and not ld.search(l.split(", !dbg")[0]): return False
        return not any(use.search(b) for n, b in mod.globals.items() if n != name)
    def ginit_body(self, name):
        for mod, body, n in self.ginit.values():
            if n == name and mod is not None: return body
        return ""
    def const_alias(self, mod, name):
        """@name is declared const and its only store is `@name = @other` in a static initialiser"""
        hits = []
        for f in mod.funcs.values():
            L = f.lines or []
            for k, l in enumerate(L):
                if "store " in l and ("ptr @%s," % name) in l: hits.append((f, k, l))
        if len(hits) != 1 or not hits[0][0].name.startswith("__cxx_global_var_init"): return None
        f, k, l = hits[0]
        m = re.search(r"store \S+ (%[\w.]+), ptr @", l)
        if not m: return None
        m2 = [re.search(re.escape(m.group(1)) + r" = load \S+, ptr @([\w.$]+),", x) for x in f.lines[:k]]
        m2 = [x for x in m2 if x]
        dv = [x for x in mod.md.values() if "DIGlobalVariable(" in x and 'linkageName: "%s"' % name in x]
        if not m2 or not dv: return None
        ty = re.search(r"type: (!\d+)", dv[0])
        if not ty or "DW_TAG_const_type" not in mod.md.get(ty.group(1)[1:], ""): return None
        return m2[-1].group(1)

    # ------------------------------------------------ arithmetic
    def binop(self, op, t, a, b, at):
        if t.k in ("double", "float"):
            rm = z3.RNE()
            if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh_val(t, "fp")
            if op == "fadd": return z3.fpAdd(rm, a, b)
            if op == "fsub": return z3.fpSub(rm, a, b)
            if op == "fmul": return z3.fpMul(rm, a, b)
            if op == "fdiv": return z3.fpDiv(rm, a, b)
            raise Unsupported(op)
        w = t.w
        if t.k != "i": raise Unsupported("vector arithmetic")
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                p, q = a.p, b.p
                if p.reg is q.reg:
                    if p.reg is None: return 0
                    if p.reg.kind == "obj": return (p.off - q.off) & M(64)
                    d = simp(Z(p.idx, 64) - Z(q.idx, 64))
                    if isinstance(d, int): return (d * p.reg.es + p.off - q.off) & M(64)
                    if p.off == q.off and p.reg.es == 1: return d
                    return PDiff(d, p.reg.es, p.off - q.off)
            raise Unsupported("pointer arithmetic on integers (%s)" % op)
        if isinstance(a, PDiff):
            if op in ("sdiv", "udiv") and isinstance(b, int):
                if b == a.es and a.doff == 0: return a.didx
            if op in ("ashr", "lshr") and isinstance(b, int) and (1 << b) == a.es and a.doff == 0: return a.didx
            a = simp(Z(a.didx, 64) * a.es + a.doff)
        if isinstance(b, PDiff): b = simp(Z(b.didx, 64) * b.es + b.doff)
        if isinstance(a, (Undef, Tok)) or isinstance(b, (Undef, Tok)): return self.fresh_val(t, "undefop")
        if w == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b}[op]
            A, B = ZB(a), ZB(b)
            return simpb({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](A, B))
        if isinstance(a, int) and isinstance(b, int):
            m = M(w)
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return (a * b) & m
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & m if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & m
            if op in ("udiv", "urem") and b: return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem") and b:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == "sdiv" else x - q * y) & m
        A, B = Z(a, w), Z(b, w)
        if op == "add": r = A + B
        elif op == "sub": r = A - B
        elif op == "mul": r = A * B
        elif op == "and": r = A & B
        elif op == "or": r = A | B
        elif op == "xor": r = A ^ B
        elif op == "shl": r = A << B
        elif op == "lshr": r = z3.LShR(A, B)
        elif op == "ashr": r = A >> B
        elif op == "sdiv": r = A / B
        elif op == "udiv": r = z3.UDiv(A, B)
        elif op == "srem": r = z3.SRem(A, B)
        elif op == "urem": r = z3.URem(A, B)
        else: raise Unsupported(op)
        return simp(r)

    def cast(self, op, t, v, t2):
        if op in ("bitcast", "addrspacecast"): 
            if t.k == t2.k: return v
            if isinstance(v, z3.FPRef): return self.fp_bits(v)
            if t2.k in ("double", "float"): return self.coerce(v, t2)
            return v
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                if v.reg is None: return 0
                return PInt(v)
            return v
        if op == "inttoptr":
            if isinstance(v, PInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            return Undef("inttoptr")
        if isinstance(v, (Undef, Tok, PInt)): 
            if isinstance(v, PInt): raise Unsupported("cast of pointer integer")
            return self.fresh_val(t2, "undefcast")
        if isinstance(v, PDiff): v = simp(Z(v.didx, 64) * v.es + v.doff)
        if op in ("zext", "sext", "trunc"):
            w1, w2 = t.w, t2.w
            if w1 == 1:
                if isinstance(v, bool): return (1 if v else 0) if op == "zext" else (M(w2) if v else 0)
                return z3.If(v, z3.BitVecVal(1 if op == "zext" else M(w2), w2), z3.BitVecVal(0, w2))
            if w2 == 1:
                if isinstance(v, int): return bool(v & 1)
                return simpb(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                if op == "trunc": return v & M(w2)
                if op == "zext": return v
                return sgn(v, w1) & M(w2)
            if op == "trunc": return simp(z3.Extract(w2 - 1, 0, v))
            return simp(z3.ZeroExt(w2 - w1, v) if op == "zext" else z3.SignExt(w2 - w1, v))
        so = {"double": z3.Float64, "float": z3.Float32}.get(t2.k)
        if op == "sitofp": return z3.fpSignedToFP(z3.RNE(), Z(v, t.w), so())
        if op == "uitofp": return z3.fpUnsignedToFP(z3.RNE(), Z(v, t.w), so())
        if op == "fptosi": return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2.w))
        if op == "fptoui": return z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2.w))
        if op in ("fpext", "fptrunc"): return z3.fpFPToFP(z3.RNE(), v, so())
        raise Unsupported("cast " + op)

    def icmp(self, pr, t, a, b):
        if isinstance(a, Sel) or isinstance(b, Sel):
            s, k = (a, b) if isinstance(a, Sel) else (b, a)
            if isinstance(k, TId):
                r = self.exc_match(s.exc.type, k.name)
                return r if pr == "eq" else not r
            raise Unsupported("selector compare")
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, Ptr) and isinstance(b, int) and b == 0: b = NULL
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, (FPtr, Tok, VPtr)) or isinstance(b, (FPtr, Tok, VPtr)): return pr == "ne"
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("pointer comparison %r %r" % (a, b))
            if pr in ("eq", "ne"):
                r = self.ptr_eq(a, b)
                return r if pr == "eq" else Not(r)
            if a.reg is b.reg and a.reg is not None:
                if a.reg.kind == "obj": x, y = a.off, b.off; return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pr]
                x, y = Z(a.idx, 64), Z(b.idx, 64)
                if a.off != b.off: raise Unsupported("pointer order with offsets")
                return simpb({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pr](x, y))
            raise Unsupported("pointer order across regions")
        if isinstance(a, (FPtr, VPtr, Tok, Undef)) or isinstance(b, (FPtr, VPtr, Tok, Undef)):
            if isinstance(a, FPtr) and isinstance(b, FPtr): return (a.name == b.name) == (pr == "eq")
            return z3.Bool(uniq("cmpundef"))
        if isinstance(a, PDiff): a = simp(Z(a.didx, 64) * a.es + a.doff)
        if isinstance(b, PDiff): b = simp(Z(b.didx, 64) * b.es + b.doff)
        w = t.w if t.k == "i" else 64
        if w == 1:
            A, B = ZB(a), ZB(b)
            if pr == "eq": return simpb(A == B)
            if pr == "ne": return simpb(A != B)
            A, B = Z(a, 1), Z(b, 1)
        else:
            if isinstance(a, int) and isinstance(b, int):
                x, y = (sgn(a, w), sgn(b, w)) if pr[0] == "s" else (a & M(w), b & M(w))
                return {"eq": x == y, "ne": x != y}.get(pr) if pr in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr[1:]]
            A, B = Z(a, w), Z(b, w)
        f = {"eq": lambda: A == B, "ne": lambda: A != B, "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B, "sge": lambda: A >= B,
             "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B)}[pr]
        return simpb(f())

    def ptr_eq(self, a, b):
        if a.reg is None and b.reg is None: return True
        if a.reg is None or b.reg is None:
            p = a if b.reg is None else b
            if p.reg.nullable and p.off == 0:
                k = p.key if p.reg.tags.get("rows") else p.idx
                return simpb(Z(k, 64) == 0)
            return False
        if a.reg is not b.reg: return False
        if a.reg.kind == "obj": return a.off == b.off
        if a.off != b.off: return False
        r = Z(a.idx, 64) == Z(b.idx, 64)
        if a.reg.keyed: r = z3.And(r, Z(a.key, 64) == Z(b.key, 64))
        return simpb(r)

    def fcmp(self, pr, a, b):
        if isinstance(a, (Undef, Tok)) or isinstance(b, (Undef, Tok)): return z3.Bool(uniq("fcmpundef"))
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        o = pr[0] == "o"
        base = pr[1:]
        if pr == "ord": return simpb(z3.Not(un))
        if pr == "uno": return simpb(un)
        f = {"eq": lambda: z3.fpEQ(a, b), "ne": lambda: z3.Not(z3.fpEQ(a, b)), "lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b),
             "gt": lambda: z3.fpGT(a, b), "ge": lambda: z3.fpGEQ(a, b)}[base]()
        return simpb(z3.And(z3.Not(un), f) if o else z3.Or(un, f))

    def gep(self, bt, ops):
        p = ops[0][1]
        if isinstance(p, VPtr):
            if p.slot is None:  # address point inside the vtable object
                return VPtr(p.cls, 0)
            k = ops[1][1]
            if not isinstance(k, int): raise Unsupported("vtable index")
            return VPtr(p.cls, p.slot + sgn(k, 64))
        if isinstance(p, (Undef, Tok, FPtr)): return Undef("gep of %r" % (p,))
        if not isinstance(p, Ptr): raise Unsupported("gep base %r" % (p,))
        if p.reg is not None and p.reg in self.ginit and self.cur_st is not None: self.gmat(self.cur_st, p.reg)
        t = bt
        p = self.padd(p, ops[1], IR.size(t))
        for o in ops[2:]:
            if t.k == "struct":
                i = o[1]
                p = p.at(IR.field_off(t, i)) if p.reg is not None else p
                p = self.norm(p)
                t = t.fs[i]
            elif t.k in ("arr", "vec"):
                t = t.e
                p = self.padd(p, o, IR.size(t))
            else: raise Unsupported("gep type")
        return p

    def norm(self, p):
        return p

    def padd(self, p, o, S):
        it, i = o
        w = it.w
        if isinstance(i, int):
            i = sgn(i, w)
            if i == 0: return p
        if p.reg is None:
            return Undef("null + offset")
        if isinstance(i, PDiff):
            if S == 1 and i.es == p.reg.es and i.doff == 0:
                return Ptr(p.reg, simp(Z(p.idx, 64) + i.didx), p.off, p.key)
            i = simp(Z(i.didx, 64) * i.es + i.doff)
        if isinstance(i, (Undef, Tok)): raise Unsupported("undefined pointer offset")
        reg = p.reg
        if reg.kind == "obj":
            if isinstance(i, int): return p.at(i * S)
            raise Unsupported("symbolic offset into object %r" % reg)
        es = reg.es
        if isinstance(i, int):
            b = i * S
            tot = p.off + b
            q, r = divmod(tot, es)
            if es == 1: q, r = b, p.off
            if q == 0: return Ptr(reg, p.idx, r, p.key)
            idx = p.idx
            idx = (idx + q) & M(64) if isinstance(idx, int) else simp(idx + z3.BitVecVal(q & M(64), 64))
            return Ptr(reg, idx, r, p.key)
        i = sx(i, 64) if w < 64 else i
        if S % es == 0:
            k = S // es
            d = i if k == 1 else i * k
            return Ptr(reg, simp(Z(p.idx, 64) + d), p.off, p.key)
        if S == 1:
            # byte offset that is a multiple of es (i = j*es)
            d = self.divexact(i, es)
            if d is not None: return Ptr(reg, simp(Z(p.idx, 64) + d), p.off, p.key)
        raise Unsupported("gep stride %d into %r (element %d)" % (S, reg, es))

    def divexact(self, i, es):
        k = es.bit_length() - 1
        if (1 << k) != es: 
            d = simp(z3.UDiv(i, z3.BitVecVal(es, 64)))
            return None
        q = simp(i >> k)
        s = z3.Solver(); s.set("timeout", 300)
        s.add((q << k) != i)
        if s.check() == z3.unsat: return q
        return None

    def exc_match(self, thrown, handler):
        if thrown == handler: return True
        if handler in ("std::exception", "boost::exception") and thrown.startswith(("Lucene::", "std::", "boost::")): return True
        m = re.match(r"Lucene::ExceptionTemplate<(.*), \(Lucene::LuceneException::ExceptionType\)\d+>$", thrown)
        while m:
            thrown = m.group(1).strip()
            if thrown == handler: return True
            m = re.match(r"Lucene::ExceptionTemplate<(.*), \(Lucene::LuceneException::ExceptionType\)\d+>$", thrown)
        return False

    # ------------------------------------------------ function execution
    def call_body(self, st, name, args, caller=None, depth=0):
        """execute a body; returns list of (state, 'ret'|'throw', value)"""
        f = self.prog.func(name)
        if f.demangled is None: f.demangled = self.prog.demangle(name)
        if depth > 60: raise Unsupported("call depth")
        fr = Frm(f, {}, caller)
        fr.args = args
        if len(args) < len(f.params): raise Unsupported("argument count of " + f.demangled)
        for (t, n, at), v in zip(f.params, args): fr.env[n] = v
        IR.loops(f)
        out = []
        pre_regions = set(st.mem) if False else None
        work = [(st, fr, f.entry, None, 0)]
        while work:
            st, fr, blk, prev, pos = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget for %s exhausted" % self.unit)
            try:
                self.run_block(st, fr, blk, prev, pos, work, out, depth)
            except PathEnd:
                pass
            if len(out) + len(work) > self.maxpaths: raise Unsupported("too many paths in " + f.demangled)
        # drop this frame's stack regions
        for s2, k, v in out:
            dead = [r for r in s2.mem if r.stack and r.tags.get("frame") is f and r.tags.get("depth") == depth]
            for r in dead: del s2.mem[r]
        return out

    def enter(self, st, fr, blk, prev, work, depth):
        """block entry: loop handling + phis. returns True to continue"""
        f = fr.f
        L = f.loops
        for h in list(fr.active):
            if blk not in L[h]: del fr.active[h]
        for h in list(fr.counts):
            if blk not in L[h]: del fr.counts[h]
        if blk in L:
            back = prev is not None and prev in L[blk]
            if back:
                if blk in fr.active:
                    spec, ectx, tag, dec0 = fr.active[blk]
                    self.phis(fr, blk, prev)
                    self.check_inv(st, fr, spec, ectx, "inv-step", tag, dec0)
                    raise PathEnd()
                c = fr.counts.get(blk, 0) + 1
                fr.counts[blk] = c
                lim = self.bounded if self.bounded is not None else self.maxunroll
                sp = self.loopspecs_for(f, blk, peek=True)
                if sp is not None and sp.unroll and self.bounded is None: lim = sp.unroll
                if c > lim:
                    if self.bounded is not None:
                        self.was_bounded = True
                        raise PathEnd()
                    if self.infeasible_strong(st): raise PathEnd()
                    raise Unsupported("loop in %s (line %d) needs an invariant" % (f.demangled, self.hline(f, blk)))
            else:
                spec = None if self.bounded is not None else self.loopspecs_for(f, blk)
                if spec is not None and not spec.unroll:
                    self.phis(fr, blk, prev)
                    self.cut(st, fr, blk, spec, work, depth)
                    return "cut"
                fr.counts[blk] = 0
        self.phis(fr, blk, prev)
        return True

    def phis(self, fr, blk, prev):
        new = {}
        for i in fr.f.blocks[blk]:
            if i.op != "phi": break
            t, inc = i.a
            for v, b in inc:
                if b == prev: new[i.res] = self.ev(fr, t, v); break
        fr.env.update(new)

    def hline(self, f, blk):
        for i in f.blocks[blk]:
            l = f.mod.line(i.dbg)
            if l: return l
        return 0

    def loopspecs_for(self, f, blk, peek=False):
        k = (f.name, blk)
        if k in self.loopmap:
            i = self.loopmap[k]
            return self.loopspecs[i] if i is not None and i < len(self.loopspecs) else None
        if peek: return None
        i = self.loop_ct; self.loop_ct += 1
        self.loopmap[k] = self.loopperm[i] if self.loopperm and i < len(self.loopperm) else i
        i = self.loopmap[k]
        return self.loopspecs[i] if i is not None and i < len(self.loopspecs) else None

    def inv_items(self, st, fr, spec, ectx):
        c = LoopCtx(self, st, fr, ectx)
        r = spec.inv(c)
        out = []
        for k, x in enumerate(r):
            if x is None: continue
            if isinstance(x, tuple) and isinstance(x[0], str): out.append(x)
            else: out.append(("i%d" % k, x))
        return out

    def check_inv(self, st, fr, spec, ectx, kind, tag, dec0=None):
        if self.muted: return
        for n, x in self.inv_items(st, fr, spec, ectx):
            for k, g in enumerate(_flat([x])):
                self.oblige(st, g, "%s:%s" % (tag, n), kind, tag)
        if dec0 is not None:
            d = spec.dec(LoopCtx(self, st, fr, ectx))
            self.oblige(st, And(d < dec0, dec0 >= 0), "%s:decreases" % tag, "decreases", tag)

    def cut(self, st, fr, blk, spec, work, depth):
        f = fr.f
        tag = spec.name or "%s loop@%s" % (IR.qualname(f.demangled).split("::")[-1], blk)
        entry = View(self, st.fork())
        if not self.muted: self.loop_hits[tag] = self.loop_hits.get(tag, 0) + 1
        self.check_inv(st, fr, spec, entry, "inv-init", tag)
        W = set()
        saved_ph = self.ptrhavoc
        pre = set(st.mem)
        cnt = 0
        PH = {}
        while True:
            cnt += 1
            if cnt > 8: raise Unsupported("write-set discovery of %s does not converge" % tag)
            s2 = st.fork(); f2 = fr.fork()
            self.ptrhavoc = PH
            self.havoc(s2, W)
            s2.assume(*[x for _, x in self.inv_items(s2, f2, spec, entry)])
            s2.rec = set()
            f2.active[blk] = (spec, entry, tag, None)
            self.muted += 1
            recs = set()
            self.ptrhavoc = {k: set(v) for k, v in PH.items()}
            lc = self.loop_ct
            try:
                w2 = []; o2 = []
                self.dry_recs = getattr(self, "dry_recs", [])
                self.dry_recs.append(recs)
                s2.rec = RecSet(recs)
                w2.append((s2, f2, blk, "<cut>", -1))
                while w2:
                    a = w2.pop()
                    if a[1].f is f and a[2] not in f.loops[blk]: continue
                    try: self.run_block(a[0], a[1], a[2], a[3], a[4], w2, o2, depth)
                    except PathEnd: pass
                    if len(w2) > self.maxpaths: raise Unsupported("too many paths")
            finally:
                self.muted -= 1
                self.dry_recs.pop()
            ph2 = self.ptrhavoc
            new = {x for x in recs if x[0] in pre}
            same = all(ph2.get(k) == PH.get(k) for k in ph2 if k[0] in pre)
            if new <= W and same: break
            W |= new; PH = ph2
        self.ptrhavoc = PH
        s3 = st
        if spec.merge and not self.muted and depth == 0:
            seen = self.__dict__.setdefault("merged", {}).setdefault((f.name, blk, self.cur_alt), [])
            if any(W <= w and same_state(m, s3, w) for m, w in seen): self.ptrhavoc = saved_ph; raise PathEnd()
            seen.append((s3.fork(), set(W)))
            pre = self.pre_view.st
            s3.pc = s3.pc[:len(pre.pc)]; s3.facts = s3.facts[:len(pre.facts)]
        self.havoc(s3, W)
        for k, v in PH.items(): saved_ph.setdefault(k, set()).update(v)
        items = self.inv_items(s3, fr, spec, entry)
        s3.assume(*[x for _, x in items])
        self.ptrhavoc = saved_ph
        if s3.rec is not None:
            for x in W: s3.rec.add(x)
        dec0 = spec.dec(LoopCtx(self, s3, fr, entry)) if spec.dec else None
        fr.active[blk] = (spec, entry, tag, dec0)
        if not self.muted:
            self.vac.append((tag, s3.fork()))
        work.append((s3, fr, blk, "<cut>", -1))

    def run_block(self, st, fr, blk, prev, pos, work, out, depth):
        f = fr.f
        if pos == 0:
            r = self.enter(st, fr, blk, prev, work, depth)
            if r == "cut": return
        elif pos == -1: pos = 0
        ins = f.blocks[blk]
        env = fr.env
        n = len(ins)
        self.cur_st = st
        while pos < n:
            i = ins[pos]; pos += 1
            op = i.op
            if op == "nop" or op == "phi": continue
            if op == "load":
                t, a = i.a
                p = self.ev(fr, PTR, a)
                if isinstance(p, VPtr):
                    env[i.res] = FPtr(None, virt=(p.cls, p.slot)); continue
                if isinstance(p, Ptr) and p.reg is not None and p.reg not in st.mem: self.touch(st, p.reg)
                env[i.res] = self.load(st, p, t, self.loc(f, i))
            elif op == "store":
                t, v, a = i.a
                p = self.ev(fr, PTR, a)
                if isinstance(p, Ptr) and p.reg is not None and p.reg not in st.mem: self.touch(st, p.reg)
                self.store(st, p, t, self.ev(fr, t, v), self.loc(f, i))
            elif op == "gep":
                bt, ops = i.a
                env[i.res] = self.gep(bt, [(tt, self.ev(fr, tt, vv)) for tt, vv in ops])
            elif op == "bin":
                o, t, a, b, at = i.a
                A = self.ev(fr, t, a); B = self.ev(fr, t, b)
                if o in ("sdiv", "udiv", "srem", "urem") and not self.muted and isinstance(B, z3.BitVecRef):
                    self.oblige(st, B != 0, "division by zero", "bounds", self.loc(f, i))
                env[i.res] = self.binop(o, t, A, B, at)
            elif op == "icmp":
                pr, t, a, b = i.a
                env[i.res] = self.icmp(pr, t, self.ev(fr, t, a), self.ev(fr, t, b))
            elif op == "fcmp":
                pr, t, a, b = i.a
                env[i.res] = self.fcmp(pr, self.ev(fr, t, a), self.ev(fr, t, b))
            elif op == "fneg":
                env[i.res] = z3.fpNeg(self.ev(fr, i.a[0], i.a[1]))
            elif op == "cast":
                o, t, v, t2 = i.a
                env[i.res] = self.cast(o, t, self.ev(fr, t, v), t2)
            elif op == "alloca":
                t, cnt = i.a
                if t.k == "arr" and t.e.k in ("i", "ptr"):
                    r = self.new_arr(st, i.res, IR.size(t.e), t.n)
                    r.stack = True
                else:
                    r = self.new_obj(st, i.res, stack=True)
                r.tags["frame"] = f; r.tags["depth"] = depth
                r.tags["ty"] = t
                env[i.res] = Ptr(r)
            elif op == "freeze": env[i.res] = self.ev(fr, i.a[0], i.a[1])
            elif op == "select":
                (tc, c), (ta, a), (tb, b) = i.a
                cv = self.ev(fr, tc, c); av = self.ev(fr, ta, a); bv = self.ev(fr, tb, b)
                if isinstance(cv, bool): env[i.res] = av if cv else bv
                elif ta.k == "i":
                    env[i.res] = z3.If(cv, ZB(av), ZB(bv)) if ta.w == 1 else simp(z3.If(cv, Z(av, ta.w), Z(bv, ta.w)))
                elif ta.k in ("double", "float") and not isinstance(av, Undef) and not isinstance(bv, Undef): env[i.res] = z3.If(cv, av, bv)
                elif isinstance(av, Ptr) and isinstance(bv, Ptr) and av.reg is bv.reg and av.off == bv.off and av.reg is not None and av.reg.kind == "arr" and not av.reg.keyed:
                    env[i.res] = Ptr(av.reg, z3.If(cv, Z(av.idx, 64), Z(bv.idx, 64)), av.off)
                else:
                    s2 = st.fork(); f2 = fr.fork()
                    if self.feasible(s2, Not(cv)):
                        s2.assume(Not(cv)); f2.env[i.res] = bv
                        work.append((s2, f2, blk, prev, pos if pos else -1))
                    if not self.feasible(st, cv): return
                    st.assume(cv); env[i.res] = av
            elif op == "jmp":
                work.append((st, fr, i.a, blk, 0)); return
            elif op == "br":
                c, a, b = i.a
                c = self.ev(fr, I1, c)
                if isinstance(c, Undef): raise Unsupported("branch on undefined value")
                if isinstance(c, bool):
                    work.append((st, fr, a if c else b, blk, 0)); return
                ft = self.feasible(st, c); ff = self.feasible(st, Not(c))
                if ft and ff:
                    s2 = st.fork(); f2 = fr.fork()
                    s2.assume(Not(c)); st.assume(c)
                    if not self.muted:
                        l = f.mod.line(i.dbg)
                        s2.trace = s2.trace + (l,); st.trace = st.trace + (l,)
                    work.append((s2, f2, b, blk, 0))
                    work.append((st, fr, a, blk, 0))
                elif ft:
                    st.assume(c)
                    work.append((st, fr, a, blk, 0))
                elif ff:
                    st.assume(Not(c))
                    work.append((st, fr, b, blk, 0))
                return
            elif op == "switch":
                t, v, d, cases = i.a
                v = self.ev(fr, t, v)
                if isinstance(v, int):
                    for k, b in cases:
                        if (k & M(t.w)) == v: work.append((st, fr, b, blk, 0)); return
                    work.append((st, fr, d, blk, 0)); return
                rest = []
                for k, b in cases:
                    c = v == z3.BitVecVal(k & M(t.w), t.w)
                    rest.append(Not(c))
                    if self.feasible(st, c):
                        s2 = st.fork(); f2 = fr.fork(); s2.assume(c)
                        work.append((s2, f2, b, blk, 0))
                if self.feasible(st, And(rest)):
                    st.assume(rest)
                    work.append((st, fr, d, blk, 0))
                return
            elif op == "ret":
                v = None if i.a is None else self.ev(fr, i.a[0], i.a[1])
                out.append((st, "ret", v)); return
            elif op == "call":
                t, fv, args, norm, unw = i.a
                fn = self.ev(fr, PTR, fv)
                av = [self.ev(fr, tt, vv) for tt, vv in args]
                res = self.call(st, fr, fn, av, i, depth)
                many = len(res) > 1
                k = 0
                for s2, kind, val in res:
                    k += 1
                    f2 = fr.fork() if k < len(res) else fr
                    if kind == "throw":
                        if unw is None: out.append((s2, "throw", val)); continue
                        f2.env["<exc>"] = val
                        work.append((s2, f2, unw, blk, 0))
                        continue
                    if i.res is not None: f2.env[i.res] = val
                    if norm is not None: work.append((s2, f2, norm, blk, 0))
                    elif not many:
                        st = s2; self.cur_st = st
                        break
                    else:
                        work.append((s2, f2, blk, prev, pos if pos else -1))
                else:
                    return
                continue
            elif op == "landingpad":
                cl, cleanup = i.a
                e = env.get("<exc>")
                env[i.res] = Agg([e, Sel(e)])
                ok = cleanup or any(c == "null" for c in cl) or any(self.exc_match(e.type, self.prog.demangle(c)[13:]) for c in cl)
                if not ok:
                    out.append((st, "throw", e)); return
            elif op == "resume":
                v = self.ev(fr, i.a[0], i.a[1])
                e = v.v[0] if isinstance(v, Agg) else None
                if not isinstance(e, Exc): raise Unsupported("resume of unknown exception")
                out.append((st, "throw", e)); return
            elif op == "unreachable":
                return
            elif op == "extractvalue":
                v, ix = i.a
                x = self.ev(fr, PTR, v)
                for k in ix:
                    if isinstance(x, Undef): break
                    x = x.v[k]
                env[i.res] = x
            elif op == "insertvalue":
                t, v, t2, v2, ix = i.a
                x = self.ev(fr, t, v)
                x = Agg(x.v if isinstance(x, Agg) else [UNDEF] * len(t.fs))
                x.v[ix[0]] = self.ev(fr, t2, v2)
                env[i.res] = x
            elif op == "atomicrmw":
                o, a, t, v = i.a
                p = self.ev(fr, PTR, a)
                if isinstance(p, Ptr) and p.reg is not None and p.reg not in st.mem: self.touch(st, p.reg)
                old = self.load(st, p, t)
                nv = self.binop({"add": "add", "sub": "sub", "xchg": None}[o], t, old, self.ev(fr, t, v), {}) if o != "xchg" else self.ev(fr, t, v)
                self.store(st, p, t, nv)
                env[i.res] = old
            else: raise Unsupported("instruction " + i.txt[:100])
        raise Unsupported("fell off block")

    def touch(self, st, reg):
        if reg in self.ginit: self.gmat(st, reg); return
        raise Unsupported("access to dead object %r" % reg)

    def loc(self, f, i):
        return (f, i.dbg)

    def locstr(self, l):
        if not isinstance(l, tuple): return str(l)
        f, dbg = l
        return "%s:%d" % (f.demangled or f.name, f.mod.line(dbg))

    # ------------------------------------------------ calls
    def call(self, st, fr, fn, args, ins, depth):
        if isinstance(fn, FPtr) and fn.virt is not None:
            c, slot = fn.virt
            name = self.prog.virt(c, slot)
            if name.startswith("~"): return [(st, "ret", None)]
        elif isinstance(fn, FPtr): name = fn.name
        else: raise Unsupported("call through %r" % (fn,))
        return self.call_named(st, fr, name, args, ins, depth)

    def call_named(self, st, fr, name, args, ins=None, depth=0):
        if name.startswith("llvm."):
            return self.models.intrinsic(self, st, name, args)
        d = self.prog.demangle(name)
        q = IR.qualname(d)
        c = self.contract_for(q, d, st, args)
        if c is not None:
            self.called_contracts.add(c.id)
            where = self.loc(fr.f, ins) if fr is not None and ins is not None else ""
            return c.apply(self, st, args, where)
        m = self.models.lookup(self, q, d, name)
        if m is not None:
            self.model_used.add(q)
            r = m(self, st, fr, name, d, args, depth)
            if r is not None: return r
        if name in self.prog.funcs:
            if not q.startswith(("boost::", "std::", "__gnu", "operator")): self.inlined.add(q)
            return self.call_body(st, name, args, fr, depth + 1)
        raise Unsupported("no body or contract for " + d)

    def contract_for(self, q, d, st=None, args=None):
        for x in self.contracts.get(q) or []:
            if not x.matches(d): continue
            if x.when is not None and st is not None:
                from .spec import Ctx
                if not x.when(Ctx(self, st, View(self, st), args, call=True)): continue
            return x
        return None

class RecSet(set):
    def __init__(self, sink): set.__init__(self); self.sink = sink
    def add(self, x): self.sink.add(x)
