"""LLVM-18 textual IR reader (lazy): types, globals, functions, DWARF metadata.

Only what the symbolic executor needs.  Every module is the compiler's output for one
unmodified translation unit of /repo; nothing here rewrites code."""
import re, subprocess

class Unsupported(Exception):
    """The verifier cannot follow this code (structural, not a verdict)."""

# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "n", "e", "fs", "packed", "_size", "_align", "_offs", "name")
    def __init__(self, k, w=0, n=0, e=None, fs=None, packed=False, name=None):
        self.k, self.w, self.n, self.e, self.fs, self.packed, self.name = k, w, n, e, fs, packed, name
        self._size = self._align = self._offs = None
    def __repr__(self):
        return {"i": "i%d" % self.w, "arr": "[%d x %r]" % (self.n, self.e), "struct": self.name or "{..}"}.get(self.k, self.k)

I1 = T("i", 1); I8 = T("i", 8); I16 = T("i", 16); I32 = T("i", 32); I64 = T("i", 64); PTR = T("ptr"); VOID = T("void")
F64 = T("double"); F32 = T("float")
_INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

def size(t):
    if t._size is None: _lay(t)
    return t._size
def align(t):
    if t._align is None: _lay(t)
    return t._align
def _lay(t):
    k = t.k
    if k == "i":
        b = max(1, (t.w + 7) // 8)
        p = 1
        while p < b: p *= 2
        t._size = t._align = p
        if p > 8: t._align = 16
    elif k == "ptr" or k == "double": t._size = t._align = 8
    elif k == "float": t._size = t._align = 4
    elif k == "x86_fp80": t._size = t._align = 16
    elif k == "void": t._size, t._align = 0, 1
    elif k in ("arr", "vec"):
        t._size, t._align = size(t.e) * t.n, align(t.e)
    elif k == "struct":
        if t.fs is None: raise Unsupported("opaque type %s" % t.name)
        o = 0; al = 1; offs = []
        for f in t.fs:
            a = 1 if t.packed else align(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += size(f)
        o = (o + al - 1) // al * al
        t._size, t._align, t._offs = o, al, offs
    else: raise Unsupported("size of type " + k)
def field_off(t, i):
    size(t)
    return t._offs[i]

_ws = re.compile(r"[ \t]*")
_name_re = re.compile(r'"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+')
_num_re = re.compile(r"-?\d+")
_attrs1 = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "writable", "dead_on_unwind", "signext",
           "zeroext", "inreg", "returned", "immarg", "nofree", "nest", "swiftself", "inbounds", "nuw", "nsw", "exact", "dso_local",
           "noreturn", "nounwind", "allocptr", "fast", "nneg", "disjoint"}

class Func:
    __slots__ = ("name", "ret", "params", "mod", "lines", "blocks", "order", "demangled", "entry", "dbg", "loops", "_allocas", "retattrs", "preds")
    def __init__(self): self.blocks = None; self.loops = None; self._allocas = None

class Ins:
    __slots__ = ("op", "res", "a", "dbg", "txt")
    def __init__(self, op, res, a, dbg, txt): self.op, self.res, self.a, self.dbg, self.txt = op, res, a, dbg, txt
    def __repr__(self): return self.txt

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typetxt = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.aliases = {}
        self._names = None
        self.private = set(); self.tag = "in$" + re.sub(r"\W", "_", path.rsplit("/", 1)[-1])      # names private to one translation unit
        self._parse(open(path, errors="replace").read().split("\n"))

    def _parse(self, L):
        i = 0; n = len(L)
        while i < n:
            s = L[i]
            if s.startswith("define"):
                f = self._defline(s)
                j = i + 1
                while L[j] != "}": j += 1
                f.lines = L[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1; continue
            if s.startswith("!"):
                p = s.find(" = ")
                if p > 0: self.md[s[1:p]] = s[p + 3:]
            elif s.startswith("%"):
                p = s.find(" = type ")
                if p > 0: self.typetxt[s[1:p].strip('"')] = s[p + 8:]
            elif s.startswith("@"):
                p = s.find(" = ")
                nm = s[1:p].strip('"')
                body = s[p + 3:]
                if " alias " in " " + body[:80] and re.search(r"\balias\b", body[:60]):
                    m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\s*$", body)
                    if m: self.aliases[nm] = m.group(1).strip('"')
                else:
                    if body.startswith("private"): self.private.add(nm); nm += "$" + self.tag
                    self.globals[nm] = body
            elif s.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', s)
                if m: self.decls[m.group(1).strip('"')] = s
            i += 1

    def _defline(self, s):
        f = Func(); f.mod = self
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', s)
        f.name = m.group(1).strip('"')
        m2 = re.search(r"!dbg !(\d+)", s[m.end():])
        f.dbg = m2.group(1) if m2 else None
        f.lines = None; f.ret = s[6:m.start()]; f.params = s[m.end():]
        f.demangled = None
        return f

    # ---- types
    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = T("struct", name=nm)
            self.types[nm] = t
            b = self.typetxt.get(nm)
            if b is not None and b.strip() != "opaque":
                tt, _ = self.ptype(b, 0)
                t.fs, t.packed = tt.fs, tt.packed
        return t

    def ptype(self, s, i):
        i = _ws.match(s, i).end()
        c = s[i]
        if c == "i" and s[i + 1].isdigit():
            m = _num_re.match(s, i + 1)
            w = int(m.group())
            return _INTS.get(w) or T("i", w), m.end()
        if s.startswith("ptr", i): return PTR, i + 3
        if s.startswith("void", i): return VOID, i + 4
        if s.startswith("double", i): return F64, i + 6
        if s.startswith("float", i): return F32, i + 5
        if s.startswith("x86_fp80", i): return T("x86_fp80"), i + 8
        if s.startswith("metadata", i): return T("metadata"), i + 8
        if s.startswith("label", i): return T("label"), i + 5
        if s.startswith("token", i): return T("token"), i + 5
        if c == "%":
            m = _name_re.match(s, i + 1)
            return self.named(m.group().strip('"')), m.end()
        if c == "[":
            m = re.compile(r"\[\s*(\d+) x ").match(s, i)
            e, j = self.ptype(s, m.end())
            return T("arr", n=int(m.group(1)), e=e), s.index("]", j) + 1
        if c == "<" and s[i + 1] != "{":
            m = re.compile(r"<\s*(\d+) x ").match(s, i)
            e, j = self.ptype(s, m.end())
            return T("vec", n=int(m.group(1)), e=e), s.index(">", j) + 1
        if c == "{" or s.startswith("<{", i):
            packed = c == "<"
            j = i + (2 if packed else 1)
            fs = []
            while True:
                j = _ws.match(s, j).end()
                if s[j] == "}": break
                if s[j] == ",": j += 1; continue
                e, j = self.ptype(s, j)
                fs.append(e)
            j += 2 if packed else 1
            return T("struct", fs=fs, packed=packed), j
        raise Unsupported("type at: " + s[i:i + 40])

    def skipattrs(self, s, i):
        at = {}
        while True:
            i = _ws.match(s, i).end()
            m = re.compile(r"[a-z_A-Z]+").match(s, i)
            if not m: return i, at
            w = m.group()
            if w in _attrs1: at[w] = True; i = m.end(); continue
            if w == "align":
                m = re.compile(r"align\s+\d+").match(s, i)
                i = m.end(); continue
            if w in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "memory", "allocsize", "nofpclass", "elementtype", "initializes", "captures", "range"):
                j = s.index("(", i); d = 0; k = j
                while True:
                    if s[k] == "(": d += 1
                    elif s[k] == ")":
                        d -= 1
                        if d == 0: break
                    k += 1
                if w in ("sret", "byval"): at[w] = self.ptype(s, j + 1)[0]
                i = k + 1; continue
            return i, at

    # operand value grammar: returns ('l',name) ('g',name) ('c',int) ('f',float) ('null',) ('undef',) ('zero',) ('agg',[..]) ('str',bytes) ('gep',..) ('cast',..)
    def pvalue(self, s, i, t):
        i = _ws.match(s, i).end()
        c = s[i]
        if c == "%":
            m = _name_re.match(s, i + 1)
            return ("l", m.group().strip('"')), m.end()
        if c == "@":
            m = _name_re.match(s, i + 1)
            nm = m.group().strip('"')
            return ("g", nm + "$" + self.tag if nm in self.private else nm), m.end()
        if t.k in ("double", "float", "x86_fp80") and (c in "-0123456789"):
            m = re.compile(r"0x[KMLHR]?[0-9A-Fa-f]+|-?[0-9.]+(?:e[+-]?\d+)?").match(s, i)
            return ("f", m.group()), m.end()
        if c in "-0123456789":
            m = _num_re.match(s, i)
            return ("c", int(m.group())), m.end()
        if s.startswith("true", i): return ("c", 1), i + 4
        if s.startswith("false", i): return ("c", 0), i + 5
        if s.startswith("null", i): return ("null",), i + 4
        if s.startswith("none", i): return ("null",), i + 4
        if s.startswith("undef", i): return ("undef",), i + 5
        if s.startswith("poison", i): return ("undef",), i + 6
        if s.startswith("zeroinitializer", i): return ("zero",), i + 15
        if s.startswith('c"', i):
            j = s.index('"', i + 2)
            raw = s[i + 2:j]
            b = bytearray(); k = 0
            while k < len(raw):
                if raw[k] == "\\": b.append(int(raw[k + 1:k + 3], 16)); k += 3
                else: b.append(ord(raw[k])); k += 1
            return ("str", bytes(b)), j + 1
        if c in "[{<":
            close = {"[": "]", "{": "}", "<": ">"}[c]
            j = i + 1
            if c == "<" and s[j] == "{": j += 1; close = "}>"
            out = []
            while True:
                j = _ws.match(s, j).end()
                if s.startswith(close, j): return ("agg", out), j + len(close)
                if s[j] == ",": j += 1; continue
                et, j = self.ptype(s, j)
                v, j = self.pvalue(s, j, et)
                out.append((et, v))
        m = re.compile(r"(getelementptr|inttoptr|ptrtoint|bitcast|sub|add|trunc|zext|sext)\b").match(s, i)
        if m:
            op = m.group()
            j, _ = self.skipattrs(s, m.end())
            j = _ws.match(s, j).end()
            if s.startswith("inrange", j): j = s.index("(", j)
            assert s[j] == "(", s[i:i + 60]
            if op == "getelementptr":
                bt, j = self.ptype(s, j + 1)
                ops, j = self.plist(s, s.index(",", j) + 1, ")")
                return ("gep", bt, ops), j
            if op in ("sub", "add"):
                ops, j = self.plist(s, j + 1, ")")
                return ("cbin", op, ops), j
            et, j = self.ptype(s, j + 1)
            v, j = self.pvalue(s, j, et)
            j = s.index(" to ", j)
            tt, j = self.ptype(s, j + 4)
            return ("cast", op, (et, v), tt), s.index(")", j) + 1
        if s.startswith("!", i): # metadata operand
            return ("md", s[i:]), len(s)
        raise Unsupported("value at: " + s[i:i + 60])

    def plist(self, s, i, close):
        out = []
        while True:
            i = _ws.match(s, i).end()
            if s.startswith(close, i): return out, i + len(close)
            if s[i] == ",": i += 1; continue
            if s.startswith("...", i): i += 3; continue
            if s.startswith("inrange", i): i += 7; continue
            t, i = self.ptype(s, i)
            if t.k == "metadata":
                # metadata args (dbg intrinsics): skip to matching close
                return out, len(s)
            i, at = self.skipattrs(s, i)
            v, i = self.pvalue(s, i, t)
            out.append((t, v) if not at.get("byval") else (t, v))

    # ---- functions
    def fbody(self, f):
        if f.blocks is not None: return f
        # signature
        s = f.ret
        j = 0
        words = {"dso_local", "linkonce_odr", "internal", "weak_odr", "external", "available_externally", "private", "hidden", "protected", "weak",
                 "linkonce", "unnamed_addr", "local_unnamed_addr", "fastcc", "comdat"}
        while True:
            j = _ws.match(s, j).end()
            m = re.compile(r"[a-z_]+").match(s, j)
            if m and m.group() in words: j = m.end(); continue
            j2, at = self.skipattrs(s, j)
            if j2 == j: break
            j = j2
        rt, _ = self.ptype(s + " ", j)
        p = f.params
        i = 0; ps = []
        while True:
            i = _ws.match(p, i).end()
            if p[i] == ")": break
            if p[i] == ",": i += 1; continue
            if p.startswith("...", i): i += 3; continue
            t, i = self.ptype(p, i)
            i, at = self.skipattrs(p, i)
            if p[i] == "%":
                v, i = self.pvalue(p, i, t)
                ps.append((t, v[1], at))
            else: ps.append((t, str(len(ps)), at))
        f.ret, f.params = rt, ps
        blocks = {}; order = []
        cur = None
        lines = f.lines
        k = 0
        while k < len(lines):
            s = lines[k]
            k += 1
            if not s or s.lstrip().startswith(";"): continue
            if s[0] != " ":
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', s)
                if not m: raise Unsupported("block label " + s)
                cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur)
                continue
            if cur is None:
                cur = "entry"; blocks[cur] = []; order.append(cur)
            st = s.strip()
            # multi-line: switch, invoke, landingpad
            if st.startswith("switch") or " = switch" in st:
                while "]" not in st: st += " " + lines[k].strip(); k += 1
            elif re.match(r"(%\S+ = )?invoke\b", st):
                if "unwind label" not in st: st += " " + lines[k].strip(); k += 1
            elif " = landingpad" in st:
                while k < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[k]): st += " " + lines[k].strip(); k += 1
            blocks[cur].append(st)
        f.order = order; f.entry = order[0]
        f.blocks = {b: [self.pins(x) for x in ls] for b, ls in blocks.items()}
        f.lines = None
        return f

    def pins(self, s):
        txt = s
        dbg = None
        m = re.search(r", !dbg !(\d+)", s)
        if m: dbg = m.group(1); s = s[:m.start()] + s[m.end():]
        s = re.sub(r"(, ![\w.]+ !\d+)+\s*$", "", s)
        res = None
        m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = ', s)
        if m: res = m.group(1).strip('"'); s = s[m.end():]
        m = re.match(r"(tail |musttail |notail )?([a-z]\w*)", s)
        op = m.group(2); i = m.end()
        P = self.ptype; 
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            j, at = self.skipattrs(s, i)
            t, j = P(s, j)
            a, j = self.pvalue(s, j, t)
            b, j = self.pvalue(s, s.index(",", j) + 1, t)
            return Ins("bin", res, (op, t, a, b, at), dbg, txt)
        if op == "fneg":
            j, _ = self.skipattrs(s, i); t, j = P(s, j); a, j = self.pvalue(s, j, t)
            return Ins("fneg", res, (t, a), dbg, txt)
        if op in ("icmp", "fcmp"):
            m = re.compile(r"\s*(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*(\w+)").match(s, i)
            t, j = P(s, m.end())
            a, j = self.pvalue(s, j, t)
            b, j = self.pvalue(s, s.index(",", j) + 1, t)
            return Ins(op, res, (m.group(1), t, a, b), dbg, txt)
        if op == "alloca":
            t, j = P(s, i)
            cnt = None
            m = re.compile(r",\s*(i32|i64)\s+(\S+?),").match(s, j)
            if m: cnt = ((I32 if m.group(1) == "i32" else I64), self.pvalue(m.group(2), 0, I64)[0])
            return Ins("alloca", res, (t, cnt), dbg, txt)
        if op == "load":
            j = i
            m = re.compile(r"\s+(atomic|volatile)\b").match(s, j)
            while m: j = m.end(); m = re.compile(r"\s+(atomic|volatile)\b").match(s, j)
            t, j = P(s, j)
            j = s.index(",", j) + 1
            pt, j = P(s, j)
            a, j = self.pvalue(s, j, pt)
            return Ins("load", res, (t, a), dbg, txt)
        if op == "store":
            j = i
            m = re.compile(r"\s+(atomic|volatile)\b").match(s, j)
            while m: j = m.end(); m = re.compile(r"\s+(atomic|volatile)\b").match(s, j)
            t, j = P(s, j)
            v, j = self.pvalue(s, j, t)
            j = s.index(",", j) + 1
            pt, j = P(s, j)
            a, j = self.pvalue(s, j, pt)
            return Ins("store", None, (t, v, a), dbg, txt)
        if op == "getelementptr":
            j, _ = self.skipattrs(s, i)
            bt, j = P(s, j)
            ops, _ = self.plist(s + ")", s.index(",", j) + 1, ")")
            return Ins("gep", res, (bt, ops), dbg, txt)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            j, _ = self.skipattrs(s, i)
            t, j = P(s, j)
            v, j = self.pvalue(s, j, t)
            t2, j = P(s, s.index(" to ", j) + 4)
            return Ins("cast", res, (op, t, v, t2), dbg, txt)
        if op == "freeze":
            t, j = P(s, i); v, j = self.pvalue(s, j, t)
            return Ins("freeze", res, (t, v), dbg, txt)
        if op == "select":
            ops, _ = self.plist(s + ")", i, ")")
            return Ins("select", res, tuple(ops), dbg, txt)
        if op == "br":
            m = re.match(r"br label %(\S+)$", s)
            if m: return Ins("jmp", None, m.group(1).strip('"'), dbg, txt)
            m = re.match(r'br i1 (.+), label %("[^"]*"|\S+), label %("[^"]*"|\S+)$', s)
            c, _ = self.pvalue(m.group(1), 0, I1)
            return Ins("br", None, (c, m.group(2).strip('"'), m.group(3).strip('"')), dbg, txt)
        if op == "switch":
            t, j = P(s, i)
            v, j = self.pvalue(s, j, t)
            m = re.compile(r",\s*label %(\S+) \[").match(s, j)
            cases = re.findall(r"i\d+ (-?\d+), label %(\S+)", s[m.end():])
            return Ins("switch", None, (t, v, m.group(1).strip('"'), [(int(a), b.strip('"]')) for a, b in cases]), dbg, txt)
        if op == "ret":
            if re.match(r"ret void", s): return Ins("ret", None, None, dbg, txt)
            t, j = P(s, i); v, j = self.pvalue(s, j, t)
            return Ins("ret", None, (t, v), dbg, txt)
        if op in ("call", "invoke"):
            j = i
            while True:
                m = re.compile(r"\s*(fastcc|ccc|coldcc|fast|nnan|ninf|nsz)\b").match(s, j)
                if m: j = m.end()
                else: break
            j, _ = self.skipattrs(s, j)
            t, j = P(s, j)
            j = _ws.match(s, j).end()
            if s[j] == "(":  # function type (varargs)
                j = s.index(")", j) + 1
                j = _ws.match(s, j).end()
            if s.startswith("asm", j): return Ins("asm", res, None, dbg, txt)
            v, j = self.pvalue(s, j, PTR)
            if v[0] == "g" and v[1].startswith("llvm.dbg"): return Ins("nop", None, None, None, "dbg")
            j = s.index("(", j)
            args, j = self.plist(s, j + 1, ")")
            norm = unw = None
            if op == "invoke":
                m = re.search(r"to label %(\S+) unwind label %(\S+)", s[j:])
                norm, unw = m.group(1).strip('"'), m.group(2).strip('"')
            return Ins("call", res, (t, v, args, norm, unw), dbg, txt)
        if op == "landingpad":
            cl = re.findall(r"catch ptr (null|@\S+)", s)
            return Ins("landingpad", res, ([c.lstrip("@").strip('"') for c in cl], " cleanup" in s), dbg, txt)
        if op == "resume":
            t, j = P(s, i); v, j = self.pvalue(s, j, t)
            return Ins("resume", None, (t, v), dbg, txt)
        if op == "unreachable": return Ins("unreachable", None, None, dbg, txt)
        if op == "phi":
            t, j = P(s, i)
            inc = []
            for m in re.finditer(r"\[ (.+?), %(\S+) \]", s[j:]):
                inc.append((self.pvalue(m.group(1), 0, t)[0], m.group(2).strip('"')))
            return Ins("phi", res, (t, inc), dbg, txt)
        if op == "extractvalue":
            t, j = P(s, i); v, j = self.pvalue(s, j, t)
            return Ins("extractvalue", res, (v, [int(x) for x in re.findall(r"\d+", s[j:])]), dbg, txt)
        if op == "insertvalue":
            t, j = P(s, i); v, j = self.pvalue(s, j, t)
            t2, j = P(s, s.index(",", j) + 1); v2, j = self.pvalue(s, j, t2)
            return Ins("insertvalue", res, (t, v, t2, v2, [int(x) for x in re.findall(r"\d+", s[j:])]), dbg, txt)
        if op == "atomicrmw":
            m = re.compile(r"\s+(?:volatile\s+)?(\w+)\s+").match(s, i)
            pt, j = P(s, m.end()); a, j = self.pvalue(s, j, pt)
            t, j = P(s, s.index(",", j) + 1); v, j = self.pvalue(s, j, t)
            return Ins("atomicrmw", res, (m.group(1), a, t, v), dbg, txt)
        if op == "fence": return Ins("nop", None, None, None, txt)
        return Ins("unsupported", res, op, dbg, txt)

    def line(self, dbg):
        if dbg is None: return 0
        m = re.search(r"line: (\d+)", self.md.get(dbg, ""))
        return int(m.group(1)) if m else 0

    # ---- DWARF
    def mdget(self, ref):
        return self.md.get(ref.lstrip("!"), "")

def demangle_all(names):
    r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names) + "\n", capture_output=True, text=True)
    out = r.stdout.split("\n")
    return dict(zip(names, out))

def mdfield(txt, key):
    m = re.search(r"\b%s: (\"(?:[^\"\\]|\\.)*\"|![0-9]+|[-\w.|]+)" % key, txt)
    if not m: return None
    v = m.group(1)
    return v[1:-1] if v.startswith('"') else v

class Program:
    """A set of modules with a merged symbol table and merged DWARF class table."""
    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}
        names = set()
        for m in mods:
            names.update(m.funcs); names.update(m.decls); names.update(m.aliases)
        for m in mods:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
        for m in mods:
            for n, tgt in m.aliases.items():
                if n not in self.funcs and tgt in self.funcs: self.funcs[n] = self.funcs[tgt]
        self.dem = demangle_all(sorted(names))
        self.bydem = {}
        for n in self.funcs:
            self.bydem.setdefault(self.qual(n), []).append(n)
        self._cls = None
        self._inits = {}

    def demangle(self, n):
        d = self.dem.get(n)
        if d is None:
            d = demangle_all([n])[n]; self.dem[n] = d
        return d

    def qual(self, n):
        return qualname(self.demangle(n))

    def func(self, n):
        f = self.funcs.get(n)
        if f is not None: f.mod.fbody(f)
        return f

    def find(self, qual, nparams=None, pred=None):
        c = self.bydem.get(qual, [])
        out = []
        for n in c:
            d = self.demangle(n)
            if pred and not pred(d): continue
            if nparams is not None and nparamsof(d) != nparams: continue
            out.append(n)
        if not out: raise Unsupported("function not found: %s" % qual)
        # C1/C2 constructors, D0/D1/D2 destructors share names: prefer C2 / D2
        if len(out) > 1:
            pr = [n for n in out if re.search(r"C2E|D2Ev", n)]
            if pr: out = pr
        if len(out) > 1:
            raise Unsupported("ambiguous function %s: %s" % (qual, [self.demangle(x) for x in out]))
        return out[0]

    # class table: qualified name -> dict(size, bases=[(name,off)], members={name:(off,size)}, virt={slot: linkage}, mod, id)
    def classes(self):
        if self._cls is None:
            self._cls = {}
            for m in self.mods:
                for i, t in m.md.items():
                    if "DICompositeType(tag: DW_TAG_class_type" in t or "DICompositeType(tag: DW_TAG_structure_type" in t:
                        if "DIFlagFwdDecl" in t or "elements:" not in t: continue
                        n = mdfield(t, "name")
                        if not n: continue
                        q = self.scopename(m, t)
                        q = (q + "::" + n) if q else n
                        if q not in self._cls or self._cls[q]["n"] < len(t):
                            self._cls.setdefault(q, {"mod": m, "id": i, "txt": t, "n": len(t), "done": False})
        return self._cls

    def scopename(self, m, t):
        s = mdfield(t, "scope")
        if not s or not s.startswith("!"): return ""
        tt = m.mdget(s)
        if "DINamespace" in tt or "DICompositeType" in tt:
            n = mdfield(tt, "name") or ""
            p = self.scopename(m, tt)
            if tt.find("exportSymbols: true") >= 0: return p
            return (p + "::" + n) if p else n
        return ""

    def cls(self, q):
        c = self.classes().get(q) or self.classes().get(re.sub(r">(?=>)", "> ", q))
        if c is None: raise Unsupported("class layout not found: " + q)
        if c["done"]: return c
        m = c["mod"]; t = c["txt"]
        c["size"] = int(mdfield(t, "size") or 0) // 8
        c["bases"] = []; c["members"] = {}; c["virt"] = {}
        el = m.mdget(mdfield(t, "elements") or "")
        for r in re.findall(r"!(\d+)", el):
            e = m.md.get(r, "")
            if "DW_TAG_inheritance" in e:
                bt = m.mdget(mdfield(e, "baseType"))
                while "DW_TAG_typedef" in bt: bt = m.mdget(mdfield(bt, "baseType"))
                bq = self.scopename(m, bt); bn = mdfield(bt, "name")
                c["bases"].append(((bq + "::" + bn) if bq else bn, int(mdfield(e, "offset") or 0) // 8))
            elif "DW_TAG_member" in e and "DIFlagStaticMember" not in e:
                c["members"][mdfield(e, "name")] = (int(mdfield(e, "offset") or 0) // 8, int(mdfield(e, "size") or 0) // 8, mdfield(e, "baseType"))
            elif "DISubprogram" in e:
                vi = mdfield(e, "virtualIndex")
                if vi is not None and "Virtual" in e:
                    ln = mdfield(e, "linkageName")
                    if ln: c["virt"][int(vi)] = ln
                    else: c["virt"][int(vi)] = "~" + (mdfield(e, "name") or "")
        c["done"] = True
        return c

    def bases(self, q):
        """all (base,offset) transitively incl. self"""
        out = [(q, 0)]
        try: c = self.cls(q)
        except Unsupported: return out
        for b, o in c["bases"]:
            out += [(bb, o + oo) for bb, oo in self.bases(b)]
        return out

    def member(self, q, name):
        for b, o in self.bases(q):
            try: c = self.cls(b)
            except Unsupported: continue
            if name in c["members"]:
                mo, ms, bt = c["members"][name]
                return o + mo, ms
        raise Unsupported("member %s::%s not found" % (q, name))

    def member_type(self, q, name):
        for b, o in self.bases(q):
            try: c = self.cls(b)
            except Unsupported: continue
            if name in c["members"]:
                m = c["mod"]; bt = m.mdget(c["members"][name][2])
                while "DW_TAG_typedef" in bt or "DW_TAG_const" in bt: bt = m.mdget(mdfield(bt, "baseType"))
                n = mdfield(bt, "name"); s = self.scopename(m, bt)
                return (s + "::" + n) if s else n
        raise Unsupported("member %s::%s not found" % (q, name))

    def virt(self, q, slot):
        """linkage name of the virtual function in `slot` of primary vtable of class q (most derived)"""
        seen = [q]
        while seen:
            b = seen.pop(0)
            try: c = self.cls(b)
            except Unsupported: continue
            if slot in c["virt"]: return c["virt"][slot]
            # primary base is the one at offset 0
            for bb, o in c["bases"]:
                if o == 0: seen.append(bb)
        raise Unsupported("virtual slot %d of %s" % (slot, q))

    def isbase(self, base, q):
        return any(b == base for b, _ in self.bases(q))

    # globals
    def gvar(self, name):
        best = None
        for m in self.mods:
            b = m.globals.get(name)
            if b is None: continue
            if re.match(r"(dso_local )?(external|available_externally)\b", b):
                continue
            if re.match(r"internal\b", b) and best is not None and best[1].split(", !dbg")[0] != b.split(", !dbg")[0]: raise Unsupported("internal variable %s in two translation units" % name)
            if best is None: best = (m, b)
            if not re.match(r"internal\b", best[1]): break
        return best or (None, None)

def qualname(d):
    """strip return type, params and trailing qualifiers from a demangled name (keeps template args)."""
    # find the parameter list: last top-level '(' whose matching ')' ends the name (modulo const/abi)
    s = d
    m = re.match(r"(.*) \[clone .*\]$", s)
    if m: s = m.group(1)
    if s.endswith(" const"): s = s[:-6]
    if s.endswith(" const&"): s = s[:-7]
    if not s.endswith(")"): return s
    dep = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ")": dep += 1
        elif s[i] == "(":
            dep -= 1
            if dep == 0: break
        i -= 1
    s = s[:i]
    # strip return type: a top-level space not within <> or ()
    dep = 0; cut = 0
    k = 0
    while k < len(s):
        c = s[k]
        if s.startswith("operator", k) and (k == 0 or not (s[k-1].isalnum() or s[k-1] == "_")): break
        if c in "<(": dep += 1
        elif c in ">)": dep -= 1
        elif c == " " and dep == 0: cut = k + 1
        k += 1
    q = s[cut:]
    q = re.sub(r"\[abi:\w+\]", "", q)
    return q

def params_of(d):
    s = d
    m = re.match(r"(.*) \[clone .*\]$", s)
    if m: s = m.group(1)
    if s.endswith(" const"): s = s[:-6]
    if not s.endswith(")"): return []
    dep = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ")": dep += 1
        elif s[i] == "(":
            dep -= 1
            if dep == 0: break
        i -= 1
    p = s[i + 1:-1]
    out = []; dep = 0; cur = ""
    for c in p:
        if c in "<(": dep += 1
        elif c in ">)": dep -= 1
        if c == "," and dep == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def nparamsof(d): return len(params_of(d))

# ---------------------------------------------------------------- loops
def succs(ins):
    last = ins[-1]
    if last.op == "jmp": return [last.a]
    if last.op == "br": return [last.a[1], last.a[2]]
    if last.op == "switch": return [last.a[2]] + [b for _, b in last.a[3]]
    if last.op == "call" and last.a[3]: return [last.a[3], last.a[4]]
    return []

def loops(f):
    """header -> set(blocks) natural loops (reducible CFG)"""
    if f.loops is not None: return f.loops
    S = {b: succs(i) for b, i in f.blocks.items()}
    # iterative DFS for back edges + dominators
    order = []; seen = set(); st = [(f.entry, iter(S[f.entry]))]; seen.add(f.entry); onst = {f.entry}
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n); onst.add(n); st.append((n, iter(S[n]))); break
        else:
            st.pop(); onst.discard(b); order.append(b)
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    P = {b: [] for b in rpo}
    for b in rpo:
        for n in S[b]: P[n].append(b)
    dom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in P[b]:
                if p in dom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        new = x
            if dom.get(b) != new: dom[b] = new; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = dom[b]
    L = {}
    for b in rpo:
        for n in S[b]:
            if idx[n] <= idx[b]:
                if not dominates(n, b): raise Unsupported("irreducible loop in " + f.name)
                body = L.setdefault(n, {n})
                stck = [b]
                while stck:
                    x = stck.pop()
                    if x in body: continue
                    body.add(x); stck += P[x]
    f.loops = L
    f.preds = P
    return L
