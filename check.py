#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: verify the contracts of one property against /repo's current
sources, run the labelled bounded stand-ins / replay harness, write evidence/<property>.json."""
import sys, os, time, json, tempfile, shutil, subprocess, importlib, multiprocessing, traceback, threading, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("LC_ALL", "C.UTF-8")
from engine import build, ir, driver, solve
import z3

def worker(i):
    c = G["todo"][i]
    try:
        if isinstance(c, Lemma): return i, prove_lemma(c)
        r = driver.verify(G["prog"], G["cs"], c, budget=G["budget"])
        if r["status"] != "proved":
            r["first_attempt"] = {k: r.get(k) for k in ("status", "why", "failed")}
            posts = [f for f in r["failed"] if f["result"].startswith("refuted") and not (f["kind"].startswith("inv") or f["kind"] == "decreases")]
            if not posts and c.loops or r["status"] in ("undecided",):
                # the inductive proof does not go through: bounded stand-in for this function
                b = driver.verify(G["prog"], G["cs"], c, bounded=G["unroll"], budget=min(60, G["budget"]))
                r["bounded_standin"] = {k: b.get(k) for k in ("status", "why", "obligations", "discharged", "failed", "paths", "wall_s")}
        return i, r
    except Exception as e:
        return i, {"function": getattr(c, "fn", c.name), "contract": c.name, "status": "undecided", "why": "engine: %r" % (e,), "tb": traceback.format_exc()[-1500:], "obligations": 0, "discharged": 0, "failed": [], "solver_s": 0}

class Lemma:
    """a fact over the contracts' spec functions; hyps/goal built by fn() -> (hyps, facts, goal)"""
    def __init__(self, name, fn, timeout=30000): self.name, self.fn, self.timeout = name, fn, timeout
def prove_lemma(l):
    from engine.sym import Obligation
    t = time.time()
    res = []
    for k, (hyps, facts, goal) in enumerate(l.fn()):
        ob = Obligation("%s.%d" % (l.name, k), "lemma", hyps, facts, goal, "lemma")
        solve.discharge(ob, l.timeout)
        res.append(ob)
    bad = [o for o in res if o.result != "proved"]
    return {"function": "lemma", "contract": l.name, "status": "proved" if not bad else ("refuted" if any((o.result or "").startswith("refuted") for o in bad) else "undecided"),
            "obligations": len(res), "discharged": len(res) - len(bad), "failed": [{"name": o.name, "kind": "lemma", "where": "lemma", "result": o.result, "inputs": {}, "goal": str(o.goal)[:300]} for o in bad],
            "solver_s": round(sum(o.time for o in res), 3), "backends": {}, "kinds": {"lemma": len(res)}, "wall_s": round(time.time() - t, 2), "why": ", ".join(o.name for o in bad)}

G = {}
def schedule(order, todo, work, hard, par=8):
    """one forked process per contract; a worker that exceeds the hard limit leaves its contract undecided"""
    reps = [None] * len(todo)
    pend = list(order); live = {}
    while pend or live:
        while pend and len(live) < par:
            i = pend.pop(0)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                try:
                    _, r = worker(i)
                    json.dump(r, open(os.path.join(work, "rep%d.json" % i), "w"), default=str)
                finally: os._exit(0)
            live[pid] = (i, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0 or pid not in live:
            for p, (i, t) in list(live.items()):
                if time.time() - t > hard:
                    try: os.killpg(p, 9)
                    except OSError: pass
            time.sleep(0.02)
            continue
        i, t = live.pop(pid)
        f = os.path.join(work, "rep%d.json" % i)
        try: reps[i] = json.load(open(f))
        except Exception:
            c = todo[i]
            reps[i] = {"function": getattr(c, "fn", c.name), "contract": c.name, "status": "undecided", "why": "worker ended without a result (time or memory limit)", "obligations": 0, "discharged": 0, "failed": [], "solver_s": 0}
        reps[i]["wall_s"] = round(time.time() - t, 1)
    return reps

def native_main(work, harness):
    t = time.time()
    objs = build.native_lib(work, opt="-O1")
    build.native_link(work, os.path.join(VERIF, "harness", harness), objs, os.path.join(work, "h.exe"), extra=["-fno-access-control"])
    print(round(time.time() - t, 1))

def main():
    if sys.argv[1] == "--native":
        try: native_main(sys.argv[2], sys.argv[3]); return 0
        except Exception as e: print(e); return 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("contracts." + pid.lower())
    quick = tier == "quick"
    known = load_known(pid)
    work = tempfile.mkdtemp(prefix="lppverif-%s-" % pid)
    rc = 1
    try:
        rc = run(pid, tier, seed, mod, quick, known, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("kind") == "finding"]

def run(pid, tier, seed, mod, quick, known, work, t0):
    native = {"thread": None, "exe": None, "err": None}
    harness = getattr(mod, "HARNESS", None)
    try:
        lls = build.ir_modules(os.path.join(work, "ir"), mod.TUS)
    except RuntimeError as e:
        print(e); lls = None
    if lls is None:
        print("ERROR: /repo does not compile"); return 2
    prog = ir.Program([ir.Module(p) for p in lls])
    try: prog.classes()
    except Exception: pass
    cs = {}
    for c in mod.CONTRACTS: cs.setdefault(c.fn, []).append(c)
    todo = [c for c in mod.CONTRACTS if not c.assumed] + list(getattr(mod, "LEMMAS", []))
    G.update(prog=prog, cs=cs, todo=todo, budget=170 if quick else 600, unroll=getattr(mod, "UNROLL", 3))
    order = sorted(range(len(todo)), key=lambda i: -getattr(todo[i], "weight", 1))
    nproc = None
    if harness:
        nproc = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--native", work, harness], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    reps = schedule(order, todo, work, hard=(330 if quick else 2400))
    if nproc:
        o = nproc.communicate()[0]
        if os.path.exists(os.path.join(work, "h.exe")): native["exe"] = os.path.join(work, "h.exe"); native["build_s"] = o.strip().split()[-1]
        else: native["err"] = o[-3000:]
    tproof = time.time() - t0
    # ---- verdict of the deductive part
    refuted, undecided = [], []
    for r in reps:
        if r["status"] == "proved": continue
        posts = [f for f in r["failed"] if f["result"].startswith("refuted") and not (f["kind"].startswith("inv") or f["kind"] == "decreases")]
        b = r.get("bounded_standin")
        if posts: refuted.append((r, posts))
        elif b and any(f["result"] == "refuted" for f in b["failed"]): refuted.append((r, [f for f in b["failed"] if f["result"] == "refuted"]))      # a full countermodel, not one of the instances only
        else: undecided.append(r)
    # ---- native replay / bounded stand-ins
    hres = None
    if harness and native["exe"]:
        hres = run_harness(native["exe"], seed, quick, refuted, work, mod)
    kf_lines, viol, replay = [], None, None
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    rp = os.path.join(VERIF, "replay", pid + ".json")
    fails = list(hres["fails"]) if hres else []
    newfails = []
    for f in fails:
        k = [x for x in known if x["match"] in f]
        if k: kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else: newfails.append(f)
    krefuted = []
    for r, posts in list(refuted):
        k = [x for x in known if x.get("obligation") and x.get("contract") == r["contract"] and all(x["obligation"] in p["name"] for p in posts)]
        if k:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"])); refuted.remove((r, posts)); krefuted.append(r["contract"])
    if hres and hres["rc"] not in (0, 1) and not newfails:
        # the real code crashed under the harness: that is a failing run
        if hres["crash"]: newfails.append("harness crashed: " + hres["crash"])
    tail = ""
    if newfails or refuted:
        rep = {"property": pid, "tier": tier, "seed": seed,
               "failed_obligations": [{"contract": r["contract"], "obligations": ps} for r, ps in refuted],
               "failing_inputs": newfails,
               "replay_cmd": "python3-vt /verif/check.py %s (harness/%s --seed %d)" % (pid, harness, seed)}
        json.dump(rep, open(rp, "w"), indent=1)
        viol = True
        if not newfails: tail = " no-failing-input-found"
    # ---- evidence
    nob = sum(r["obligations"] for r in reps); nd = sum(r["discharged"] for r in reps if r["status"] == "proved") + sum(r["discharged"] for r in reps if r["status"] != "proved")
    fn = {}
    trusted = set(getattr(mod, "TRUSTED", []))
    for c in mod.CONTRACTS:
        if c.assumed: trusted.add("assumed contract: " + c.name)
    models = set(); inl = set(); backs = {}
    for r in reps:
        models.update(r.get("models") or []); inl.update(r.get("inlined") or [])
        for k, v in (r.get("backends") or {}).items(): backs[k] = backs.get(k, 0) + v
    proved = [r for r in reps if r["status"] == "proved"]
    bounded = [{"contract": r["contract"], "why": r.get("why") or ", ".join(f["name"] for f in r["failed"]), "standin": r.get("bounded_standin"), "tb": r.get("tb")} for r in undecided]
    nthm = sum(r["obligations"] for r in proved)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"), "wall_s": round(time.time() - t0, 1),
          "violations": (len(newfails) + len(refuted)),
          "coverage": {"obligations": nob, "discharged": nd, "checker_cmd": "python3-vt /verif/check.py %s %s" % (pid, tier),
                       "functions_under_contract": [{"function": r["function"], "contract": r["contract"], "status": r["status"], "obligations": r["obligations"], "discharged": r["discharged"],
                            "kinds": r.get("kinds"), "paths": r.get("paths"), "loops_by_invariant": r.get("loops_cut"), "solver_s": r.get("solver_s"), "reachable": r.get("reachable")} for r in reps],
                       "proved_functions": len(proved), "back_ends": backs, "solver_s": round(sum(r.get("solver_s") or 0 for r in reps), 1),
                       "inlined_bodies": sorted(inl), "library_models_used": sorted(models),
                       "bounded_standins": bounded,
                       "native_bounded": {"harness": harness, "cases": hres["cases"] if hres else 0, "build_s": native.get("build_s"), "error": native["err"], "sections": hres["sections"] if hres else [], "note": "bounded stand-in / counterexample replay against the real library; never counted as proved"} if harness else None,
                       "trusted_base": sorted(trusted) + ["clang-18 -O0 LLVM IR is a faithful rendering of the sources (the shipped build uses g++ -O3)", "own VC generator engine/*.py", "z3 5.3 / cvc5 1.1 / z3-new", "destructors and shared_ptr reference counts have no effect on the property",
                           "set-up regions of a contract do not alias"]},
          "assumptions": sorted(trusted) + getattr(mod, "ASSUMPTIONS", []) + ["partial correctness: termination is proved only where a decreases clause is given", "out-of-memory and asynchronous failures excluded"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for r in reps:
        s = "  %-58s %-9s obligations=%d discharged=%d %.1fs" % (r["contract"], r["status"], r["obligations"], r["discharged"], r.get("wall_s", 0))
        if r["status"] != "proved":
            s += "  [%s]" % (r.get("why") or "; ".join("%s (%s, %s)" % (f["name"], f["result"], f["where"]) for f in r["failed"][:3]))
            b = r.get("bounded_standin")
            if b: s += " bounded stand-in: %s%s" % (b["status"], (" " + str(b.get("why"))) if b.get("why") else "")
        print(s)
    print("%s: %d/%d obligations discharged over %d contracts (%d undecided -> bounded), proof %.1fs, native cases %s%s, total %.1fs" % (
        pid, nd, nob, len(reps), len(undecided), tproof, hres["cases"] if hres else 0, (" NATIVE-ERROR " + native["err"][:300]) if native["err"] else "", time.time() - t0))
    for l in sorted(set(kf_lines)): print(l)
    if newfails:
        for f in newfails[:5]: print("  failing input: " + f[:400])
    for r, ps in refuted:
        for p in ps[:2]: print("  failed obligation: %s :: %s at %s %s" % (r["contract"], p["name"], p["where"], p.get("inputs")))
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, tail)); return 1
    if nob == 0 or not proved:
        # nothing was decided deductively; bounded stand-ins must have run
        if not (hres and hres["cases"] > 0): print("ERROR: nothing decided"); return 2
    return 0

def run_harness(exe, seed, quick, refuted, work, mod):
    secs = getattr(mod, "SECS", 20) if quick else getattr(mod, "SECS_THOROUGH", 180)
    inp = []
    for r, ps in refuted:
        for p in ps:
            for k, v in (p.get("inputs") or {}).items():
                inp.append("%s=%s" % (k, v))
    scratch = os.path.join(work, "scratch"); os.makedirs(scratch, exist_ok=True)
    open(os.path.join(work, "inputs"), "w").write("\n".join(inp[:400]) + "\n")
    env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", HARNESS_INPUTS=os.path.join(work, "inputs"), HARNESS_SCRATCH=scratch, HARNESS_SECS=str(secs), HARNESS_SEED=str(seed), HARNESS_TIER="quick" if quick else "thorough")
    N = getattr(mod, "PROCS", 4)
    ps = []
    for i in range(N):
        e = dict(env, HARNESS_PART=str(i), HARNESS_PARTS=str(N), HARNESS_SCRATCH=os.path.join(scratch, str(i)))
        os.makedirs(e["HARNESS_SCRATCH"], exist_ok=True)
        fo = open(os.path.join(work, "h%d.out" % i), "w")
        ps.append((subprocess.Popen(["timeout", "-k", "5", str(secs * 4 + 60), exe], stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=e["HARNESS_SCRATCH"], preexec_fn=limit), fo))
    fails = []; cases = 0; rcs = []; crash = None; sections = {}
    for i, (p, fo) in enumerate(ps):
        p.wait(); fo.close()
        o = open(os.path.join(work, "h%d.out" % i), errors="replace").read()
        for l in o.split("\n"):
            if l.startswith("FAIL "): fails.append(l[5:])
            m = re.match(r"SECTION (\S+) cases=(\d+)", l)
            if m: sections[m.group(1)] = sections.get(m.group(1), 0) + int(m.group(2)); cases += int(m.group(2))
        rc = p.returncode
        rcs.append(rc)
        if rc not in (0, 1): crash = "exit status %d%s; last output: %s" % (rc, " (time limit: the code under test does not return)" if rc in (124, 137) else "", o[-400:])
    return {"rc": 0 if all(r == 0 for r in rcs) else (1 if all(r in (0, 1) for r in rcs) else 2), "fails": fails[:50], "cases": cases, "crash": crash, "sections": [{"name": k, "cases": v} for k, v in sorted(sections.items())]}

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
