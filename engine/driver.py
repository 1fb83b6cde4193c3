"""Verification of one contract: set-up, body execution, obligations, discharge."""
import z3, time, traceback, re, os, sys, multiprocessing, json, itertools
from . import ir as IR
from .ir import Unsupported
from .sym import *
from . import sym
from .spec import *
from .models import Models
from . import strings
from .solve import discharge, instantiate

class Engine(Executor): pass
TABLES = []     # (demangled constant array, spec term of an index, python evaluation): checked entry by entry

def mkvc(prog, contracts, unit, **k):
    vc = Engine(prog, contracts, Models, unit, **k)
    vc.extra_models = []
    vc.ctor_models = {}
    return vc

def region_frame(vc, c, pre, post, allowed, where):
    """everything that existed before and is not in the modifies clause is unchanged"""
    for reg, content in pre.mem.items():
        if reg.stack or reg not in post.mem: continue
        new = post.mem[reg]
        if new is content: continue
        for k in set(content) | set(new):
            if k in ("exc", "zero"): continue
            if isinstance(k, str):
                if (reg, k, 0) in allowed: continue
                a, b = content.get(k), new.get(k)
                if a is None: continue
                if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): continue
                if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
                    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): continue
                    vc.oblige(post, (Z(a, 64) == Z(b, 64)) if k == "n" else a == b, "frame: %s of %s unchanged" % (k, reg.name), "frame", where)
                continue
            if reg.kind == "obj":
                if any(r is reg and isinstance(o, int) and o < k + max(content.get(k, (0,))[0], new.get(k, (0,))[0]) and k < o + s for r, o, s in allowed if not isinstance(o, str)): continue
                b = new.get(k)
                a = content.get(k)
                if b is None:
                    continue
                sz, bv_ = b
                if a is None:
                    if not reg.sym: continue
                    if isinstance(bv_, (int, z3.BitVecRef)) and not isinstance(bv_, bool):
                        av = vc.det_val({1: I8, 2: I16, 4: I32, 8: I64}[sz], "%s#%d.%d" % (reg.name, reg.id, k))
                    elif isinstance(bv_, (bool, z3.BoolRef)): av = vc.det_val(I1, "%s#%d.%d" % (reg.name, reg.id, k))
                    elif isinstance(bv_, z3.FPRef): av = vc.det_val(F64 if sz == 8 else F32, "%s#%d.%d" % (reg.name, reg.id, k))
                    else:
                        vc.oblige(post, False, "frame: pointer at %s+%d unchanged" % (reg.name, k), "frame", where); continue
                else: av = a[1]
                if av is bv_: continue
                g = val_eq(vc, av, bv_, sz)
                if g is True: continue
                vc.oblige(post, g, "frame: %s.%s unchanged" % (reg.name, offname(vc, reg, k)), "frame", where)
            else:
                off, sz = (k, k) if len(k) == 3 else k
                if any(r is reg and (o == off or o == k) for r, o, s in allowed): continue
                a = content.get(k); b = new.get(k)
                if a is None: a = vc.getfp(pre, reg, k[0], k[2]) if len(k) == 3 else vc.getarr(pre, reg, *k)
                if b is None or a is b or a.eq(b): continue
                if reg.keyed: vc.oblige(post, FA(lambda i, j, a=a, b=b: z3.Select(a, i, j) == z3.Select(b, i, j), (64, 64)), "frame: %s unchanged" % reg.name, "frame", where)
                else: vc.oblige(post, FA(lambda i, a=a, b=b: a[i] == b[i]), "frame: %s unchanged" % reg.name, "frame", where)

def offname(vc, reg, k):
    try:
        for b, o in vc.prog.bases(reg.cls):
            for n, (mo, ms, _) in vc.prog.cls(b)["members"].items():
                if o + mo == k: return n
    except Exception: pass
    return "+%d" % k

def val_eq(vc, a, b, sz):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return vc.ptr_eq(a, b)
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return ZB(a) == ZB(b)
    if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
        if isinstance(a, int) and isinstance(b, int): return a == b
        return Z(a, 8 * sz) == Z(b, 8 * sz)
    if isinstance(a, z3.FPRef) and isinstance(b, z3.FPRef): return a == b
    if isinstance(a, (Undef, VPtr, Tok)) and type(a) == type(b): return True
    return z3.BoolVal(False)

def run_contract(prog, contracts, c, bounded=None, perm=None, varmap=None, deadline=None):
    """generate all obligations of contract c on its body"""
    use = {}
    for k, v in contracts.items():
        vs = [x for x in (v if isinstance(v, list) else [v]) if x is not c and x.name not in c.nouse and (c.use is None or x.name in c.use)]
        if vs: use[k] = vs
    vc = mkvc(prog, use, c.name, maxunroll=c.maxunroll, deadline=deadline)
    vc.loopspecs = c.loops; vc.loopperm = perm; vc.bounded = bounded
    vc.varmap = varmap or {}
    if getattr(c, "models", None): vc.extra_models = c.models
    vc.table_specs = list(getattr(c, "tables", None) or TABLES)
    if getattr(c, "ctors", None): vc.ctor_models = c.ctors
    if c.feas: vc.feas_facts = c.feas
    name = prog.find(c.fn, c.nparams, c.pred)
    alts = getattr(c, "alts", None) or [c.setup]
    npaths = 0
    vacs = []
    for ai, setup in enumerate(alts):
        vc.cur_alt = ai
        st = State()
        b = Builder(vc, st)
        args = setup(b)
        vc.builder = b
        vc.pre_args = args
        c0 = Ctx(vc, st, View(vc, st), args)
        req = c._norm(c.requires(c0)) if c.requires else []
        for n, f in req: st.assume(f)
        vacs.append(("precondition", st.fork()))
        pre = st.fork()
        vc.pre_view = View(vc, pre)
        excs = c.raises(Ctx(vc, pre, View(vc, pre), args)) if c.raises else []
        allowed = list(c.modifies(Ctx(vc, pre, View(vc, pre), args))) if c.modifies else []
        allowed = [(r, o, 0 if isinstance(o, str) else s) for r, o, s in allowed]
        outs = vc.call_body(st, name, args)
        for s2, kind, val in outs:
            npaths += 1
            cc = Ctx(vc, s2, View(vc, pre), args)
            cc.pre = View(vc, pre)
            if kind == "throw":
                cc.exc = val.type
                m = [x for x in excs if vc.exc_match(val.type, x[0])]
                if not m:
                    vc.oblige(s2, False, "no exception %s allowed" % short_exc(val.type), "post", "throw")
                    continue
                conds = [x[1] for x in m]
                if not any(x is None for x in conds): vc.oblige(s2, Or(conds), "exception %s only when specified" % short_exc(val.type), "post", "throw")
                for n, f in c._norm(c.ensures_exc(cc) if c.ensures_exc else []):
                    for g in sym._flat([f]): vc.oblige(s2, g, "exc-post: " + n, "post", "throw")
            else:
                cc.ret = val
                for ty, cond in excs:
                    if cond is not None: vc.oblige(s2, Not(cond), "must raise %s" % short_exc(ty), "post", "return")
                for n, f in c._norm(c.ensures(cc) if c.ensures else []):
                    for g in sym._flat([f]):
                        vc.oblige(s2, g, "post: " + n, "post", "return")
                        if n.startswith("cut:"): s2.assume(g)      # an obligation of its own; the later ones may use it
            if c.modifies is not None: region_frame(vc, c, pre, s2, allowed, kind)
            vacs.append(("exit", s2))
    vc.npaths = npaths
    vc.vacs = vacs + vc.vac
    return vc

def short_exc(t):
    m = re.findall(r"ExceptionType\)(\d+)", t)
    return "LuceneException[%s]" % (m[-1] if m else t)

def verify(prog, contracts, c, ms=None, bounded=None, budget=240):
    """returns a JSON-able report"""
    t0 = time.time()
    rep = {"function": c.fn, "contract": c.name, "status": None, "obligations": 0, "discharged": 0, "failed": [], "bounded": bounded, "solver_s": 0.0}
    tried = []
    perms = [None]
    if len(c.loops) > 1 and len(c.loops) <= 3: perms += [p for p in itertools.permutations(range(len(c.loops))) if p != tuple(range(len(c.loops)))]
    best = None
    for perm in (perms if bounded is None else [None]):
        r = attempt(prog, contracts, c, ms, bounded, perm, None, t0 + budget)
        if r["status"] == "proved": best = r; break
        if best is None or (best["status"] == "undecided" and r["status"] == "refuted"): best = best or r
        if perm is None and r["status"] != "undecided" and not any(f["kind"].startswith("inv") for f in r["failed"]): best = r; break
        if perm is None: best = r
        if time.time() - t0 > budget: break
    rep.update(best)
    if rep["status"] in ("undecided", "refuted") and bounded is None and c.loops and rep.get("why", "").startswith("local variable"):
        # renamed locals: try same-typed candidates for the names the invariants mention
        pass
    rep["wall_s"] = round(time.time() - t0, 3)
    return rep

def discharge_all(obs, one, deadline, jobs=4, few=10):
    """[(obligation, result or None for out of time)]; many obligations are shared between forked workers"""
    out = []
    if len(obs) <= few:
        for ob in obs:
            out.append((ob, one(ob)))
            if sum(1 for _, r in out if r["result"] != "proved") >= 6: break
            if time.time() > deadline: out.append((ob, None)); break
        return out
    kids = []
    for k in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd); bad = 0
                with os.fdopen(wr, "w") as f:
                    for i in range(k, len(obs), jobs):
                        if time.time() > deadline: break
                        r = one(obs[i])
                        f.write(json.dumps([i, r]) + "\n"); f.flush()
                        bad += r["result"] != "proved"
                        if bad >= 6: break
                    else: f.write(json.dumps([-1, None]) + "\n")
                    if bad >= 6: f.write(json.dumps([-1, None]) + "\n")
            except BaseException: code = 1
            os._exit(code)
        os.close(wr); kids.append((pid, rd))
    done = {}; late = False
    for pid, rd in kids:
        fin = False
        with os.fdopen(rd) as f:
            for l in f:
                try: i, r = json.loads(l)
                except ValueError: continue
                if i < 0: fin = True
                else: done[i] = r
        os.waitpid(pid, 0)
        late = late or not fin
    out = [(obs[i], done[i]) for i in sorted(done)]
    if late or (len(done) < len(obs) and not any(r["result"] != "proved" for _, r in out)): out.append((obs[0], None))
    return out

def attempt(prog, contracts, c, ms, bounded, perm, varmap, deadline):
    rep = {"function": c.fn, "contract": c.name, "obligations": 0, "discharged": 0, "failed": [], "solver_s": 0.0, "perm": perm}
    try:
        vc = run_contract(prog, contracts, c, bounded, perm, varmap, deadline)
    except Unsupported as e:
        rep["status"] = "undecided"; rep["why"] = str(e); return rep
    except PathEnd:
        rep["status"] = "undecided"; rep["why"] = "path ended in set-up"; return rep
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as e:
        rep["status"] = "undecided"; rep["why"] = "engine: %r" % (e,); rep["tb"] = traceback.format_exc()[-1500:]; return rep
    st = vc.solver_t
    rep["paths"] = vc.npaths
    rep["obligations"] = len(vc.obs)
    by = {}
    solver = {}
    unk = []
    def one(ob):
        discharge(ob, ms or c.timeout, c.rounds)
        inp = {}
        if ob.result != "proved" and ob.model is not None:
            for n, v in vc.builder.inputs.items():
                try: inp[n] = str(ob.model.eval(v, model_completion=True))
                except z3.Z3Exception: pass
        return {"result": ob.result, "solver": ob.solver, "time": ob.time, "inputs": inp}
    for ob, r in discharge_all(vc.obs, one, deadline):
        if r is None:
            rep["failed"].append({"name": "time budget", "kind": "budget", "result": "unknown", "where": "", "inputs": {}, "goal": ""}); break
        st += r["time"]
        by[ob.kind] = by.get(ob.kind, 0) + 1
        if r["result"] == "proved":
            rep["discharged"] += 1
            solver[r["solver"]] = solver.get(r["solver"], 0) + 1
        elif len(rep["failed"]) < 6:
            rep["failed"].append({"name": ob.name, "kind": ob.kind, "where": vc.locstr(ob.where), "result": r["result"], "trace": list(ob.trace)[-12:], "inputs": r["inputs"],
                                  "goal": str(ob.goal)[:600], "time": round(r["time"], 2), "facts": len(ob.facts)})
    rep["kinds"] = by; rep["backends"] = solver; rep["solver_s"] = round(st, 3)
    # vacuity: preconditions, loop heads and at least one exit are reachable
    reach = {}
    for n, s in vc.vacs:
        if reach.get(n): continue
        s_ = z3.Solver(); s_.set("timeout", 4000); s_.add(*s.pc)
        if s.facts: s_.add(*instantiate(list(s.pc), s.facts, 1, 500))
        reach[n] = s_.check() != z3.unsat
    rep["reachable"] = {k: bool(v) for k, v in reach.items()}
    rep["callees_by_contract"] = sorted(vc.called_contracts)
    rep["inlined"] = sorted(vc.inlined)[:80]
    rep["models"] = sorted(vc.model_used)
    rep["was_bounded"] = vc.was_bounded
    rep["loops_cut"] = vc.loop_hits
    if not rep["failed"]:
        if rep["obligations"] == 0 or not reach.get("precondition") or not (reach.get("exit")): rep["status"] = "vacuous"
        else: rep["status"] = "proved"
    else:
        rep["status"] = "refuted" if any(f["result"].startswith("refuted") for f in rep["failed"]) else "undecided"
        if rep["status"] == "undecided": rep["why"] = "solver: " + ", ".join(f["name"] for f in rep["failed"])
    return rep
