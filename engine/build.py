"""Compiles /repo's current sources: LLVM IR for the verifier, and (for replay) the whole core
library as unity objects.  Nothing is written under /repo."""
import os, subprocess, glob, hashlib, sys, time, re, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("LPP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANG): CLANG = "clang++"
DEFS = ["-std=gnu++17", "-DNDEBUG", "-w", "-fPIC", "-DLPP_BUILDING_LIB", "-Dlucene___EXPORTS"]

def config_dir(work):
    """Config.h as the release build configures it (generated from /repo's template when possible)."""
    d = os.path.join(work, "cfg")
    os.makedirs(d, exist_ok=True)
    shutil.copyfile(os.path.join(VERIF, "engine", "Config.h"), os.path.join(d, "Config.h"))
    return d

def incs(work):
    return ["-I" + config_dir(work), "-I" + REPO + "/include/lucene++", "-I" + REPO + "/src/core/include", "-I" + REPO + "/src/contrib/include"]

def ir_modules(work, tus):
    """tus: paths relative to src/core -> list of .ll paths"""
    os.makedirs(work, exist_ok=True)
    inc = incs(work)
    def one(t):
        src = t if t.startswith("/") else os.path.join(REPO, "src/core", t)
        out = os.path.join(work, re.sub(r"[/.]", "_", t.lstrip("/")) + ".ll")
        r = subprocess.run([CLANG, "-S", "-emit-llvm", "-O0", "-g", "-fstandalone-debug", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone"]
                           + DEFS + inc + ["-o", out, src], capture_output=True, text=True)
        if r.returncode: raise RuntimeError("compilation of %s failed:\n%s" % (src, r.stderr[-2000:]))
        return out
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, tus))

def native_lib(work, opt="-O1", n=8, extra=()):
    """whole core library from the current tree; returns list of objects (unity build)"""
    d = os.path.join(work, "native"); os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/core/**/*.cpp", recursive=True)) 
    single = [s for s in srcs if s.endswith(("guniprop.cpp",))]
    rest = [s for s in srcs if s not in single]
    csrc = sorted(glob.glob(REPO + "/src/core/**/*.c", recursive=True))
    rest.sort(key=lambda f: (-os.path.getsize(f), f))
    g = [[] for _ in range(n)]; w = [0] * n
    for s in rest:
        i = w.index(min(w)); g[i].append(s); w[i] += os.path.getsize(s) + 3000
    inc = incs(work)
    fl = DEFS + [opt] + list(extra) + inc
    def comp(src, out, c=False):
        cmd = (["clang" if c else CLANG] if not c else [CLANG.replace("clang++", "clang")]) + ([opt, "-fPIC", "-w"] + inc if c else fl) + ["-c", src, "-o", out]
        return subprocess.run(cmd, capture_output=True, text=True)
    def unit(i):
        p = "%s/u%d.cpp" % (d, i)
        open(p, "w").write("".join('#include "%s"\n' % s for s in g[i]))
        r = comp(p, "%s/u%d.o" % (d, i))
        if r.returncode == 0: return ["%s/u%d.o" % (d, i)]
        out = []
        for k, s in enumerate(g[i]):   # name clash inside the unity unit: compile one by one
            o = "%s/u%d_%d.o" % (d, i, k)
            r = comp(s, o)
            if r.returncode: raise RuntimeError("compilation of %s failed:\n%s" % (s, r.stderr[-3000:]))
            out.append(o)
        return out
    def sing(s):
        o = "%s/s_%s.o" % (d, os.path.basename(s))
        r = comp(s, o, s.endswith(".c"))
        if r.returncode: raise RuntimeError("compilation of %s failed:\n%s" % (s, r.stderr[-3000:]))
        return [o]
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(unit, i) for i in range(n)] + [ex.submit(sing, s) for s in single + csrc]
        objs = [o for f in a for o in f.result()]
    return objs

LIBS = ["-lboost_date_time", "-lboost_filesystem", "-lboost_iostreams", "-lboost_regex", "-lboost_thread", "-lboost_atomic", "-lz", "-lpthread"]
def native_link(work, harness, objs, out, opt="-O1", extra=()):
    r = subprocess.run([CLANG] + [x for x in DEFS if x != "-fPIC"] + [opt] + list(extra) + incs(work) + ["-I" + VERIF + "/harness", harness] + objs + LIBS + ["-o", out], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("harness %s failed to build:\n%s" % (harness, r.stderr[-3000:]))
    return out
