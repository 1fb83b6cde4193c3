"""Discharging obligations: quantifier instantiation over index terms, then z3; cvc5 and the second
z3 release as fallbacks."""
import z3, time, subprocess, tempfile, os, itertools, shutil

def subterms(fs, seen=None):
    seen = {} if seen is None else seen
    st = list(fs); out = []
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen: continue
        seen[k] = e
        out.append(e)
        if z3.is_quantifier(e): continue
        st.extend(e.children())
    return out

def aroot(a):
    while True:
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: a = a.arg(1)
        else: return a

class Index:
    def __init__(self): self.by = {}; self.seen = {}; self.arr = {}; self.apps = {}
    def add(self, fs):
        for e in subterms(fs, self.seen):
            if not z3.is_app(e): continue
            k = e.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                n = e.num_args() - (1 if k == z3.Z3_OP_SELECT else 2)
                ix = tuple(e.arg(i) for i in range(1, n + 1))
                for i in ix: self.by.setdefault(i.size() if z3.is_bv(i) else str(i.sort()), {})[i.get_id()] = i
                for nm in aroots(e.arg(0)): self.arr.setdefault(nm, {})[tuple(i.get_id() for i in ix)] = ix
            elif k == z3.Z3_OP_UNINTERPRETED:
                if e.num_args() == 0:
                    if e.decl().name().startswith("sk_") and z3.is_bv(e): self.by.setdefault(e.size(), {})[e.get_id()] = e
                else:
                    self.apps.setdefault(e.decl().name(), {})[e.get_id()] = e

def candidates(F, ix):
    if F.trig is not None:
        out = {}
        for t in (F.trig if isinstance(F.trig, (list, tuple)) else [F.trig]):
            if callable(t):
                for d in ix.apps.values():
                    for e in d.values():
                        r = t(e)
                        if r is not None: out[tuple(x.get_id() for x in r)] = tuple(r)
                continue
            # string: array-name prefix, or uninterpreted function name with all args
            for nm, d in ix.arr.items():
                if nm == t or nm.startswith(t + "!") or nm.startswith(t + "."):
                    for k, v in d.items():
                        if len(v) == len(F.widths) and all(x.size() == w for x, w in zip(v, F.widths)): out[k] = v
                        elif len(F.widths) == 1:
                            for x in v:
                                if x.size() == F.widths[0]: out[(x.get_id(),)] = (x,)
            for nm, d in ix.apps.items():
                if nm == t:
                    for e in d.values():
                        a = [x for x in e.children() if z3.is_bv(x)]
                        if len(a) == len(F.widths) and all(x.size() == w for x, w in zip(a, F.widths)):
                            out[tuple(x.get_id() for x in a)] = tuple(a)
        for ex in F.extra:
            ex = ex if isinstance(ex, tuple) else (ex,)
            out[tuple(x.get_id() for x in ex)] = ex
        return out.values()
    pools = [list(ix.by.get(w, {}).values()) + [e for e in F.extra if not isinstance(e, tuple) and e.size() == w] for w in F.widths]
    if len(pools) == 1: return [(x,) for x in pools[0]]
    tot = 1
    for p in pools: tot *= max(1, len(p))
    if tot > 3000: pools = [p[:50] for p in pools]
    return list(itertools.product(*pools)) + [e for e in F.extra if isinstance(e, tuple)]

def contains(e, v):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st.extend(x.children())
    return False
def patterns(F):
    """array / function positions of the bound variable of the form v + d, so that an occurring index t
    gives the instance v := t - d"""
    if hasattr(F, "_pats"): return F._pats
    F._pats = []
    if len(F.widths) == 2 and all(isinstance(w, int) for w in F.widths):
        v, w = z3.BitVec("pat!v", F.widths[0]), z3.BitVec("pat!w", F.widths[1])
        try: f = F.fn(v, w)
        except Exception: return F._pats
        if not z3.is_expr(f): return F._pats
        got = set()
        for e in subterms([f]):
            if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.num_args() == 3): continue
            if e.arg(1).sort() != v.sort() or e.arg(2).sort() != w.sort() or not contains(e.arg(1), v) or not contains(e.arg(2), w): continue
            d0, d1 = z3.simplify(e.arg(1) - v, elim_sign_ext=False), z3.simplify(e.arg(2) - w, elim_sign_ext=False)
            if any(contains(x, y) for x in (d0, d1) for y in (v, w)): continue
            for n in aroots(e.arg(0)):
                key = (n, d0.get_id(), d1.get_id())
                if key not in got: got.add(key); F._pats.append(("p", n, (d0, d1)))
        return F._pats
    if len(F.widths) != 1 or not isinstance(F.widths[0], int): return F._pats
    v = z3.BitVec("pat!v", F.widths[0])
    try: f = F.fn(v)
    except Exception: return F._pats
    if not z3.is_expr(f): return F._pats
    got = set()
    for e in subterms([f]):
        if not z3.is_app(e) or e.num_args() == 0: continue
        k = e.decl().kind()
        if k == z3.Z3_OP_SELECT and e.num_args() == 2: nm, arg, kind = aroots(e.arg(0)), e.arg(1), "a"
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1: nm, arg, kind = [e.decl().name()], e.arg(0), "f"
        else: continue
        if not z3.is_bv(arg) or arg.size() != F.widths[0] or not contains(arg, v): continue
        d = z3.simplify(arg - v, elim_sign_ext=False)
        if contains(d, v): continue
        for n in nm:
            key = (kind, n, d.get_id())
            if key in got: continue
            got.add(key); F._pats.append((kind, n, d))
    return F._pats
def aroots(a):
    out = []; st = [a]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE: st.append(x.arg(0))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: st += [x.arg(1), x.arg(2)]
        elif z3.is_app(x): out.append(x.decl().name())
    return out
def auto_candidates(F, ix):
    out = {}
    for kind, n, d in patterns(F):
        if kind == "p":
            for v in ix.arr.get(n, {}).values():
                if len(v) == 2 and v[0].sort() == d[0].sort() and v[1].sort() == d[1].sort():
                    c = (z3.simplify(v[0] - d[0], elim_sign_ext=False), z3.simplify(v[1] - d[1], elim_sign_ext=False))
                    out[(c[0].get_id(), c[1].get_id())] = c
            continue
        if kind == "a": ts = [v[0] for v in ix.arr.get(n, {}).values() if len(v) == 1]
        else: ts = [e.arg(0) for e in ix.apps.get(n, {}).values()]
        for t in ts:
            if not z3.is_bv(t) or t.size() != F.widths[0]: continue
            c = z3.simplify(t - d, elim_sign_ext=False)
            out[c.get_id()] = (c,)
    for ex in F.extra:
        if not isinstance(ex, tuple): out[ex.get_id()] = (ex,)
    return list(out.values())
def instantiate_auto(fs, facts, rounds=3, cap=3000):
    ix = Index(); ix.add(fs)
    done = set(); out = []
    for r in range(rounds):
        new = []
        for k, F in enumerate(facts):
            cs = list(candidates(F, ix)) if (F.trig is not None or not patterns(F)) else []
            if F.trig is None and patterns(F): cs += auto_candidates(F, ix)
            for c in cs:
                key = (k,) + tuple((z3.simplify(x, elim_sign_ext=False) if z3.is_bv(x) else x).get_id() for x in c)
                if key in done: continue
                done.add(key)
                f = F.fn(*c)
                if f is True or f is None: continue
                if isinstance(f, bool): f = z3.BoolVal(f)
                new.append((f, c))
                if len(out) + len(new) > cap: break
        if not new: break
        out += [f for f, _ in new]
        instantiate.keep.append(new)
        if r + 1 < rounds: ix.add([f for f, _ in new])
    return out

def instantiate(fs, facts, rounds=2, cap=6000):
    ix = Index(); ix.add(fs)
    done = set(); out = []
    for r in range(rounds):
        new = []
        for k, F in enumerate(facts):
            for c in candidates(F, ix):
                key = (k,) + tuple(x.get_id() for x in c)
                if key in done: continue
                done.add(key)
                f = F.fn(*c)
                if f is True or f is None: continue
                if isinstance(f, bool): f = z3.BoolVal(f)
                new.append((f, c))
                if len(out) + len(new) > cap: break
        if not new: break
        out += [f for f, _ in new]
        instantiate.keep.append(new)
        if r + 1 < rounds: ix.add([f for f, _ in new])
    return out
instantiate.keep = []

BACK = {"cvc5-int": ["cvc5", "--lang=smt2", "--solve-bv-as-int=sum"], "cvc5": ["cvc5", "--lang=smt2"], "z3-new": ["z3-new"]}
def portfolio(full, hyps, ms):
    """external back ends side by side on the problem with (full) and without (hyps) the quantifier
    instances; unsat of either decides, sat counts only for the full problem"""
    d = tempfile.mkdtemp(prefix="lppob")
    ps = []
    try:
        for tag, txt in (("f", full), ("h", hyps)):
            if txt is None: continue
            fn = os.path.join(d, tag + ".smt2")
            open(fn, "w").write("(set-logic ALL)\n" + txt)
            for nm, cmd in BACK.items():
                if tag == "h" and nm == "z3-new": continue
                c = cmd + (["-T:%d" % max(1, ms // 1000)] if nm == "z3-new" else ["--tlimit=%d" % ms]) + [fn]
                ps.append((tag, nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + ms / 1000 + 3
        sat = None
        while ps and time.time() < end:
            for e in list(ps):
                tag, nm, p = e
                if p.poll() is None: continue
                ps.remove(e)
                o = (p.stdout.read().strip().split("\n") or [""])[0]; p.stdout.close()
                if o == "unsat": return "unsat", nm
                if o == "sat" and tag == "f" and not sat: sat = nm
            if sat: return "sat", sat
            time.sleep(0.02)
        return "unknown", ""
    finally:
        for _, _, p in ps:
            try: p.kill(); p.wait(); p.stdout.close()
            except Exception: pass
        shutil.rmtree(d, ignore_errors=True)

def symbols(f):
    return {e.decl().name() for e in subterms([f]) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED}
def discharge(ob, ms=20000, rounds=2):
    """facts marked as relevant to some symbols only are left out first when the goal has none of them"""
    if any(getattr(F, "rel", None) for F in ob.facts or ()):
        sy = symbols(ob.goal); uni = set().union(*[F.rel for F in ob.facts if getattr(F, "rel", None)])
        links = [F.rel for F in ob.facts if getattr(F, "rel", None)] + [x for x in (symbols(h) & uni for h in ob.hyps if z3.is_expr(h)) if x]
        while True:      # symbols linked to the goal's
            new = set().union(*[x for x in links if x & sy]) - sy
            if not new: break
            sy |= new
        keep = [F for F in ob.facts if not getattr(F, "rel", None) or F.rel & sy]
        if len(keep) < len(ob.facts):
            allf, hy = ob.facts, ob.hyps; out = set().union(*[F.rel for F in allf if getattr(F, "rel", None)]) - sy
            ob.facts = keep; ob.hyps = [h for h in hy if not (z3.is_expr(h) and symbols(h) & out)]
            try: discharge_(ob, ms, rounds)
            finally: ob.facts, ob.hyps = allf, hy
            if ob.result == "proved": return ob
            ob.result = None; ob.model = None
    return discharge_(ob, ms, rounds)
def discharge_(ob, ms=20000, rounds=2):
    t0 = time.time()
    instantiate.keep = []
    g = ob.goal
    if z3.is_true(g) :
        ob.result, ob.solver = "proved", "trivial"; return ob
    sg = z3.simplify(g, elim_sign_ext=False)
    if z3.is_true(sg):
        ob.result, ob.solver = "proved", "trivial"; return ob
    neg = z3.Not(g)
    base = list(ob.hyps) + [neg]
    if ob.facts:
        s = z3.Solver(); s.set("timeout", 500); s.add(*base)
        if s.check() == z3.unsat:
            ob.result, ob.solver = "proved", "z3"; ob.time = time.time() - t0; return ob
    open_ = False      # a stronger set of instances was left undecided: no refutation may rest on a weaker one
    if ob.facts:
        # instances found by matching array positions against the goal's and hypotheses' index terms
        ia = instantiate_auto(base, ob.facts, rounds + 1)
        s = z3.Solver(); s.set("timeout", 800); s.add(*base); s.add(*ia)
        r = s.check()
        if r == z3.unsat: ob.result, ob.solver = "proved", "z3"
        elif r == z3.unknown:
            s0 = z3.Solver(); s0.add(*base)
            o, nm = portfolio(s.to_smt2(), s0.to_smt2(), ms)
            if o == "unsat": ob.result, ob.solver = "proved", nm
            elif o != "sat": open_ = True
        if ob.result == "proved": ob.time = time.time() - t0; return ob
    inst = instantiate(base, ob.facts, rounds) if ob.facts else []
    def mk(timeout, extra=()):
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*base); s.add(*inst); s.add(*extra)
        return s
    s = mk(min(ms, 2500)); r = s.check(); ob.solver = "z3"
    if r == z3.unknown:
        h = None
        if inst:
            s0 = z3.Solver(); s0.add(*base); h = s0.to_smt2()
        o, nm = portfolio(s.to_smt2(), h, ms)
        if o == "unsat": r, ob.solver = z3.unsat, nm
        elif o == "sat":
            ob.solver = nm; ob.result = "refuted"
            s2 = mk(4000)
            if s2.check() == z3.sat: r, s = z3.sat, s2
    if r == z3.unsat: ob.result = "proved"
    elif r == z3.sat or ob.result == "refuted":
        if r == z3.sat: ob.model = s.model()
        ob.result = "refuted"
        if ob.facts:
            # missing instances?  more rounds, then the quantified formulas themselves
            inst2 = instantiate(base, ob.facts, rounds + 1)
            if len(inst2) > len(inst):
                inst = inst2
                s = mk(2500); r = s.check()
                if r == z3.unsat: ob.result = "proved"
                elif r == z3.sat: ob.model = s.model()
                else:
                    o, nm = portfolio(s.to_smt2(), None, ms)
                    if o == "unsat": ob.result, ob.solver = "proved", nm
                    elif o == "unknown": open_ = True
            if ob.result != "proved":
                try:
                    q = [F.quant() for F in ob.facts if all(isinstance(w, int) for w in F.widths)]
                    s = mk(min(ms, 10000), q); r = s.check()
                    if r == z3.unsat: ob.result = "proved"; ob.solver = "z3-quant"
                    elif r == z3.sat: ob.model = s.model()
                    else: ob.result = "unknown" if open_ else "refuted-inst"   # countermodel of the instantiated problem only
                except z3.Z3Exception: ob.result = "unknown" if open_ else "refuted-inst"
    elif ob.result is None: ob.result = "unknown"
    ob.time = time.time() - t0
    return ob
