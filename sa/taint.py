"""Where text from outside goes: label propagation with summaries.

Every function is analysed once per round over its control flow graph, flow-sensitively for its local buffers, for global
buffers and for the members of structures it is handed; the result is a summary (labels of the return value, of what it
writes through pointers and into globals, and the sinks it hands text to) in terms of symbols for what its caller supplies.
Callers instantiate the summary.  A label carries capabilities: what the text may still do (SHELL: contain characters the
shell acts on; PATH: contain a directory part).  Tests the code makes on the text take capabilities away on the branch
where they hold.
"""
from sa.cg import CG

SHELL, PATH, ANY = 1, 2, 4     # ANY: it is text from there at all
ALL = SHELL | PATH | ANY
FOUND = 8                      # nothing left of what a cell could do, but it was looked at
META = set(map(ord, "|&;<>()$`\\\"' \t\n*?[]#~=%!{}^"))
HARD = set(map(ord, "|&;<>()$`\\\"'\n"))
COLLAPSE = {"st_textline", "st_textlist", "st_tmps"}

STRONG_COPY = {"strcpy": (0, [1]), "strncpy": (0, [1]), "memcpy": (0, [1]), "memmove": (0, [1]), "stpcpy": (0, [1]), "memccpy": (0, [1])}
WEAK_COPY = {"strcat": (0, [1]), "strncat": (0, [1])}
ALIAS0 = {"strchr", "strrchr", "strstr", "strpbrk", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "strcasestr", "memchr", "index", "rindex"}
DUP = {"strdup", "strndup", "realpath", "basename", "dirname"}
EQ = {"strcmp", "strcasecmp", "strncmp", "strncasecmp", "stricmp", "strnicmp"}
PREFIX = {"strncmp", "strncasecmp", "strnicmp"}
NONE = {}
UID = (("m", -1), "uid")       # the caller has no fewer rights than the program


def ju(*ls):
    out = None
    n = 0
    for l in ls:
        if l:
            n += 1
            if n == 1:
                out = l
            else:
                if n == 2:
                    out = dict(out)
                for k, c in l.items():
                    out[k] = out.get(k, 0) | c
    return out or NONE


class Sum:
    def __init__(self):
        self.ret = NONE; self.writes = {}; self.gwrites = {}; self.sinks = {}; self.feff = {}; self.guards = {}; self.retroots = ()

    def same(self, o):
        return (self.ret == o.ret and self.writes == o.writes and self.gwrites == o.gwrites and self.sinks == o.sinks
                and self.feff == o.feff and self.guards == o.guards and self.retroots == o.retroots)


class Taint:
    def __init__(self, prog, sinks, source, dirlabel=True, args=None, dots=False):
        """sinks: external name -> [(argument, capability)]; source(f, i) -> label name for text read by that call or None;
        args: label for main's arguments, optarg and the environment, or None;
        dots: PATH means "may contain '..'" instead of "may contain '/'\""""
        self.prog = prog; self.cg = CG(prog); self.sinkspec = sinks; self.source = source; self.args = args
        self.sum = {}; self.F = {}; self.fchanged = False; self.findings = {}; self.sinkcount = 0; self.nf = 0
        self.dots = dots; self.dirs = "." if dots else "/"; self.stored = {}; self.passed = {}
        self.cache = {}
        self.bodies = {f.key: f for f in prog.funcs()}

    def run(self, maxrounds=12):
        order = self.order()
        self.rounds = 0
        for rnd in range(maxrounds):
            self.rounds += 1
            ch = False; self.fchanged = False; self.findings = {}
            for k in order:
                s = Fn(self, self.bodies[k]).run()
                o = self.sum.get(k)
                if o is None or not o.same(s):
                    ch = True
                self.sum[k] = s
            if not ch and not self.fchanged:
                break
        else:
            self.capped = True
        return self.findings

    def order(self):
        out = []; seen = set()
        callees = {}
        for k, f in self.bodies.items():
            callees[k] = []
            for i in f.calls():
                for t in self.cg.targets(f, i):
                    callees[k].append(t.key)
        for k0 in sorted(self.bodies, key=str):
            st = [(k0, iter(callees[k0]))]
            if k0 in seen:
                continue
            seen.add(k0)
            while st:
                k, it = st[-1]
                for n in it:
                    if n not in seen and n in self.bodies:
                        seen.add(n); st.append((n, iter(callees[n]))); break
                else:
                    out.append(k); st.pop()
        return out

    def callers(self, k):
        a = self.args
        return a is not None and isinstance(k, str) and (k == a or k.startswith(a + ":"))

    def fadd(self, fld, L):
        o = self.F.get(fld, NONE)
        n = ju(o, L)
        if n != o:
            self.F[fld] = n; self.fchanged = True


class Fn:
    def __init__(self, T, f):
        self.T = T; self.f = f; self.S = Sum(); self.rc = {}; self.origin = {}; self.masked = set(); self.selected = set(); self.final = False

    # ---------------------------------------------------------------- pointers
    def roots(self, v, seen=None):
        """[(base, outermost field or None, definite)]"""
        k = v[0]
        if k == "g":
            g = self.T.prog.glob(self.f.unit, v[1])
            if g is None:
                return [(("g", ("", v[1])), None, True)]
            if v[1].startswith((".str", "__const", "__func__")):
                return []
            return [(("g", g.key), None, True)]
        if k == "ce":
            fld, var = self.fieldof(v[3] if len(v) > 3 else [])
            return [(b, f2 if f2 is not None else fld, d) for b, f2, d in self.roots(v[1])] if True else []
        if k != "v":
            return []
        if v[1] in self.rc and seen is None:
            return self.rc[v[1]]
        top = seen is None
        seen = set() if seen is None else seen
        if v[1] in seen:
            return []
        seen.add(v[1])
        r = self._roots(v, seen)
        if top:
            self.rc[v[1]] = r
        return r

    def fieldof(self, path):
        fld = None; var = False
        for e in path:
            if e[0] == "f":
                if fld is None:
                    fld = (e[1], e[2])
        return fld, var

    def _roots(self, v, seen):
        f = self.f
        if v[1] < f.nparams:
            return [(("p", v[1]), None, True)]
        i = f.ins[v[1]]
        if i.op == "alloca":
            return [(("a", i.id), None, True)]
        if i.op == "gep":
            fld, _ = self.fieldof(i.d["path"])
            if fld and fld[0] in COLLAPSE:
                fld = None
            out = []
            for b, f2, d in self.roots(i.d["p"], seen):
                out.append((b, f2 if f2 is not None else fld, d))
            return out
        if i.op == "cast":
            return self.roots(i.d["a"][0], seen)
        if i.op in ("phi", "select"):
            vs = [x for x, _ in i.d["in"]] if i.op == "phi" else i.d["a"][1:]
            out = []
            for x in vs:
                for r in self.roots(x, seen):
                    if r[:2] not in [q[:2] for q in out]:
                        out.append(r)
            if len(out) > 1:
                out = [(b, fl, False) for b, fl, _ in out]
            if len(out) > 6:
                return [(("v", i.id), None, True)]
            return out
        if i.op == "call" and i.callee in ALIAS0 and i.args:
            return self.roots(i.args[0], seen)
        if i.op == "call" and i.ty == "p":
            out = []
            for t in self.T.cg.targets(self.f, i):
                s = self.T.sum.get(t.key)
                for b, fld in (s.retroots if s is not None else ()):
                    if b[0] == "g":
                        out.append((b, fld, False))
                    elif b[1] < len(i.args):
                        for b2, f2, d in self.roots(i.args[b[1]], seen):
                            out.append((b2, f2 if f2 is not None else fld, False))
            if out:
                return out + [(("v", i.id), None, False)]
        return [(("v", i.id), None, True)]

    # ---------------------------------------------------------------- state
    def default(self, cell, st=None):
        b, fld = cell
        if b[0] == "p":
            if fld is None:
                return {("V", b[1]): ALL}
            return {("M", b[1], fld): ALL}
        if b[0] == "g":
            return {("G", b[1], fld): ALL}
        if fld is not None and st is not None:
            return st.get((b, None), NONE)
        return NONE

    def read(self, cell, st, depth=0):
        L = self.raw(cell, st)
        if any(k[0] == "R" for k in L):
            out = {k: c for k, c in L.items() if k[0] != "R"}
            if depth < 3:
                for k in L:
                    if k[0] == "R":
                        out = ju(out, self.read((k[1], k[2]), st, depth + 1))
                        if k[2] is None:
                            for c in [c for c in st if c[0] == k[1] and c[1] is not None]:
                                out = ju(out, self.read(c, st, depth + 1))
            L = out
        return L

    def raw(self, cell, st):
        b, fld = cell
        if cell in st:
            L = st[cell]
        else:
            L = self.default(cell, st)
            if b[0] in ("p", "g") and fld is not None and (b, None) in st:
                L = ju(L, st[(b, None)])
        if b[0] == "v":
            if fld is not None and fld[0] not in COLLAPSE:
                L = ju(L, self.T.F.get(fld, NONE), st.get((b, fld), NONE))
                m = st.get((("m", b[1]), fld))
                if m:
                    L = {k: c & m["c"] for k, c in L.items() if c & m["c"]}
            o = self.origin.get(b[1])
        return L

    def write(self, rs, L, st, strong):
        many = len(rs) > 1
        L0 = L
        if self.masked:
            fs = {r[1] for r in rs if r[1] is not None}
            if fs:
                for k in [k for k in st if k[0][0] == "m" and k[1] in fs]:
                    del st[k]
        for b, fld, d in rs:
            cell = (b, fld)
            L = L0
            if fld is not None and L and any(isinstance(k, str) and ":" not in k for k in L):
                L = {(k + ": " + fld[1] if isinstance(k, str) and ":" not in k else k): c for k, c in L.items()}
            if b[0] == "v":
                if fld is not None and fld[0] not in COLLAPSE:
                    self.feffect(fld, L)
                    st.pop((("m", b[1]), fld), None)
                    st[(b, fld)] = ju(st.get((b, fld), NONE), L)
                else:
                    st[(b, None)] = ju(st.get((b, None), NONE), L)
                    seen = set(); x = b[1]
                    while x in self.origin and x not in seen:      # the place the pointer was loaded from holds the text too
                        seen.add(x); nx = None
                        for ob, of, od in self.origin[x]:
                            if ob[0] == "v":
                                if of is not None and of[0] not in COLLAPSE:
                                    self.feffect(of, L)
                                else:
                                    st[(ob, None)] = ju(st.get((ob, None), NONE), L); nx = ob[1]
                            else:
                                st[(ob, of)] = ju(self.read((ob, of), st), L)
                        x = nx
                continue
            if strong and d and not many:
                st[cell] = L
            else:
                st[cell] = ju(self.read(cell, st), L)

    def feffect(self, fld, L):
        if not self.final:
            return
        conc = {k: c for k, c in L.items() if isinstance(k, str)}
        sym = {k: c for k, c in L.items() if not isinstance(k, str) and k[0] != "R"}
        if conc:
            self.T.fadd(fld, conc)
        if sym:
            self.S.feff[fld] = ju(self.S.feff.get(fld, NONE), sym)

    def label(self, v, st, depth=0):
        """label of a value: of the text it points to, or of a character"""
        k = v[0]
        if k in ("i", "n", "f"):
            return NONE
        if k == "v" and v[1] >= self.f.nparams:
            i = self.f.ins[v[1]]
            if i.ty != "p":
                return st.get((("v", v[1]), None), NONE)
            if (("v", v[1]), "ref") in st:
                return st[(("v", v[1]), "ref")]
            if v[1] in self.selected and depth < 4:
                sel = st.get((("v", v[1]), "sel"))
                if sel and len(sel) < len(i.d["in"]):
                    return ju(*[self.label(i.d["in"][n][0], st, depth + 1) for n in sel])
        elif k == "v" and self.f.params[v[1]][1] != "p":
            return st.get((("p", v[1]), None), {("V", v[1]): ALL})
        out = NONE
        for b, fld, d in self.roots(v):
            out = ju(out, self.read((b, fld), st))
            if fld is None and b[0] in ("a", "p"):
                for c in [c for c in st if c[0] == b and c[1] is not None]:
                    out = ju(out, self.read(c, st))
        return out

    # ---------------------------------------------------------------- run
    def run(self):
        f = self.f
        preds = {b: [] for b in range(len(f.blocks))}
        self.out = {}
        work = [0]; inst = {0: {}}
        if f.name == "main" and self.T.args:
            inst[0][(("p", 1), None)] = {self.T.args: ALL}
        n = 0; cnt = {}
        order = {b: n for n, b in enumerate(self.rpo())}
        self.ord = order
        pend = {0}
        self.instate = inst; self.edges = {}
        while pend:
            b = min(pend, key=lambda x: order.get(x, 1 << 30)); pend.discard(b)
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 12:
                continue
            st = dict(inst[b])
            self.block(b, st)
            for s, es in self.succ_states(b, st):
                self.edges[(b, s)] = es
                new = None
                for q in f.preds(s):
                    e = self.edges.get((q, s))
                    if e is not None:
                        new = e if new is None else self.join(new, e)
                if s == 0:
                    new = self.join(new, {})
                if s not in inst or inst[s] != new:
                    inst[s] = new; pend.add(s)
        self.final = True
        for b in list(inst):
            self.block(b, dict(inst[b]))
        self.final = False
        self.finish()
        return self.S

    def rpo(self):
        f = self.f; seen = set(); out = []
        st = [(0, iter(f.succs(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.succs(s)))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    def join(self, a, b):
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            la = a[k] if k in a else self.jdefault(k, a)
            lb = b[k] if k in b else self.jdefault(k, b)
            out[k] = la if la is lb else ju(la, lb)
        return out

    def jdefault(self, k, st):
        if k[1] == "ref":
            return NONE
        if k[1] == "sel":
            return {n: 1 for n in range(len(self.f.ins[k[0][1]].d["in"]))}
        if k[0][0] == "m":
            return {"c": ALL}        # nothing found out
        return self.default(k, st)

    def block(self, b, st):
        f = self.f
        for i in f.blocks[b]:
            self.step(i, st)

    def setv(self, i, L, st):
        st[(("v", i.id), None)] = L
        if (("v", i.id), "ref") in st:
            del st[(("v", i.id), "ref")]

    def step(self, i, st):
        op = i.op
        if i.id in self.selected:
            st.pop((("v", i.id), "sel"), None)
        if i.id in self.masked:         # a new value
            for k in [k for k in st if k[0] == ("m", i.id)]:
                del st[k]
        if op == "load":
            rs = self.roots(i.d["p"])
            if i.ty == "p" or i.ty in ("i8", "i16"):
                L = NONE
                for b, fld, d in rs:
                    L = ju(L, self.read((b, fld), st))
                if self.masked:
                    pl = self.place(["v", i.id])
                    m = st.get(pl) if pl else None
                    if m:
                        L = {k: c & m["c"] for k, c in L.items() if c & m["c"]}
                if i.d["p"][0] == "g" and i.d["p"][1] == "optarg" and self.T.args:
                    L = NONE if UID in st and not st[UID]["c"] & ALL else {self.T.args: ALL}
                self.origin[i.id] = rs
                self.setv(i, L, st)
            elif i.ty == "i32":
                pass
        elif op == "store":
            v = i.d["v"]
            L = self.label(v, st)
            if self.final and i.d.get("vt") == "p":
                self.T.stored[(self.f.key, i.id)] = L
            rs = self.roots(i.d["p"])
            strong = True
            if i.d.get("vt") == "i8":
                strong = v[0] == "i" and v[1] == 0 and self.at_start(i.d["p"])
                if v[0] == "i" and not strong:
                    return
                if not L and not strong:
                    return
            elif i.d.get("vt") != "p":
                return
            else:
                for b, fld, d in self.roots(v):      # the cell refers to the buffer, whatever is put there later
                    if b[0] in ("a", "g"):
                        L = dict(L); L[("R", b, fld)] = ALL
                if self.indexed(i.d["p"]) or self.collapsed(i.d["p"]):
                    strong = False
            self.write(rs, L, st, strong)
        elif op == "phi" or op == "select":
            if i.ty != "p":
                L = NONE
                for x in ([x for x, _ in i.d["in"]] if op == "phi" else i.d["a"][1:]):
                    L = ju(L, self.label(x, st))
                self.setv(i, L, st)
            elif any(r[0] == ("v", i.id) for r in self.roots(["v", i.id])):
                L = NONE
                for x in ([x for x, _ in i.d["in"]] if op == "phi" else i.d["a"][1:]):
                    if x != ["v", i.id]:
                        L = ju(L, self.label(x, st))
                self.setv(i, L, st)
        elif op == "cast":
            if i.ty != "p":
                self.setv(i, self.label(i.d["a"][0], st), st)
        elif op == "bin" and i.ty in ("i8", "i32"):
            L = NONE
            for x in i.d.get("a", []):
                L = ju(L, self.label(x, st))
            if L:
                self.setv(i, L, st)
        elif op == "call":
            self.call(i, st)
        elif op == "ret":
            pass

    def constarg(self, v, text):
        g = self.T.prog.glob(self.f.unit, v[1]) if v[0] == "g" else None
        s = g.string() if g is not None else None
        if isinstance(s, bytes):
            s = s.decode("latin-1")
        return s is not None and s.rstrip("\0") == text

    def samerights(self, st):
        st[UID] = {"c": FOUND}
        for k, L in list(st.items()):
            if any(self.T.callers(x) for x in L):
                st[k] = {x: c for x, c in L.items() if not self.T.callers(x)}

    def uids(self, x, y):
        f = self.f
        n = {f.ins[v[1]].callee for v in (x, y) if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "call"}
        return n == {"getuid", "geteuid"} or n == {"getgid", "getegid"} and False

    def varying(self, p):
        f = self.f
        while p[0] == "v" and p[1] >= f.nparams and f.ins[p[1]].op in ("gep", "cast"):
            i = f.ins[p[1]]
            if i.op == "gep" and i.d.get("idx"):
                return True
            p = i.d["p"] if i.op == "gep" else i.d["a"][0]
        return False

    def at_start(self, p):
        f = self.f
        while p[0] == "v" and p[1] >= f.nparams:
            i = f.ins[p[1]]
            if i.op == "gep":
                if i.d.get("off") != 0 or i.d.get("idx"):
                    return False
                p = i.d["p"]; continue
            if i.op == "cast":
                p = i.d["a"][0]; continue
            return i.op == "alloca"
        return p[0] == "g" or p[0] == "v"

    def collapsed(self, p):
        if p[0] == "v" and p[1] >= self.f.nparams and self.f.ins[p[1]].op == "gep":
            return any(e[0] == "f" and e[1] in COLLAPSE for e in self.f.ins[p[1]].d["path"])
        return False

    def indexed(self, p):
        while p[0] == "v" and p[1] >= self.f.nparams:
            i = self.f.ins[p[1]]
            if i.op == "gep":
                if any(e[0] == "a" for e in i.d["path"]):
                    return True
                p = i.d["p"]; continue
            if i.op == "cast":
                p = i.d["a"][0]; continue
            return False
        return False

    # ---------------------------------------------------------------- calls
    def fmtargs(self, i, first, st, fmt=None):
        """label of the text the variadic arguments contribute"""
        s = None
        if fmt is not None and fmt[0] == "g":
            g = self.T.prog.glob(self.f.unit, fmt[1])
            s = g.string() if g is not None else None
        L = NONE
        if s is not None:
            if isinstance(s, bytes):
                s = s.decode("latin-1")
            k = first; p = 0
            while p < len(s):
                if s[p] != "%":
                    p += 1; continue
                p += 1
                while p < len(s) and s[p] in "-+ #0123456789.*hlqjzt":
                    if s[p] == "*":
                        k += 1
                    p += 1
                if p >= len(s):
                    break
                if s[p] != "%":
                    if s[p] in "sc" and k < len(i.args):
                        L = ju(L, self.label(i.args[k], st))
                    k += 1
                p += 1
            return L
        for a, t in zip(i.args[first:], i.d["ats"][first:]):
            if t == "p":
                L = ju(L, self.label(a, st))
        return ju(L, self.label(fmt, st) if fmt is not None else NONE)

    def call(self, i, st):
        T = self.T; n = i.callee
        self.setv(i, NONE, st)
        if n and n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                self.copy_struct(i.args[0], i.args[1], st)
            elif n.startswith("llvm.memset"):
                self.write(self.roots(i.args[0]), NONE, st, True)
            return
        if n in ("strtok", "xstrtok", "strtok_r"):
            cells = [(("g", n + ".lasts"), None)] if n != "strtok_r" else [(b, fl) for b, fl, _ in self.roots(i.args[2])]
            if i.args[0][0] != "n":
                L = self.label(i.args[0], st)
                if n == "strtok_r":
                    self.write(self.roots(i.args[2]), L, st, True)
                else:
                    st[cells[0]] = L
            else:
                L = ju(*[self.read(c, st) for c in cells])
            self.setv(i, L, st)
            return
        ts = T.cg.targets(self.f, i)
        if self.final and ts and T.args:
            for a in i.args:
                if a[0] == "v":
                    T.passed[(self.f.key, i.id, tuple(a[:2]))] = self.label(a, st)
        if n in T.sinkspec and not ts:
            for k, cap, kind in T.sinkspec[n]:
                if k < len(i.args):
                    T.sinkcount += 1
                    self.sink((kind, n, self.f.key, i.line, k, cap), self.label(i.args[k], st))
        if ts:
            pre = dict(st)
            post = None
            for t in ts:
                s2 = dict(pre)
                self.apply(i, t, pre, s2)
                post = s2 if post is None else self.join(post, s2)
            st.clear(); st.update(post)
            poss = {}
            for t in ts:
                s = T.sum.get(t.key)
                for r in (s.guards if s is not None else ()):
                    poss[(t.key, r)] = 1
            st[(("r", i.id), None)] = poss
            if poss:
                self.guard(i, None, st)
            return
        if n is None:
            return
        if n in STRONG_COPY:
            d, ss = STRONG_COPY[n]
            if n in ("memcpy", "memmove"):
                self.copy_struct(i.args[0], i.args[1], st); return
            self.write(self.roots(i.args[d]), ju(*[self.label(i.args[s], st) for s in ss]), st, self.at_start(i.args[d]))
        elif n in WEAK_COPY:
            self.write(self.roots(i.args[0]), self.label(i.args[1], st), st, False)
        elif n in DUP:
            L = self.label(i.args[0], st)
            if n == "basename":
                L = {k: c & ~PATH for k, c in L.items()}
            self.setv(i, L, st)
        elif n in ("sprintf",):
            self.write(self.roots(i.args[0]), self.fmtargs(i, 2, st, i.args[1]), st, self.at_start(i.args[0]))
        elif n in ("snprintf",):
            self.write(self.roots(i.args[0]), self.fmtargs(i, 3, st, i.args[2]), st, self.at_start(i.args[0]))
        elif n in ("vsnprintf", "vsprintf"):
            fm = i.args[2 if n == "vsnprintf" else 1]
            self.write(self.roots(i.args[0]), ju(self.label(fm, st), {("VA", fm[1] if fm[0] == "v" and fm[1] < self.f.nparams else -1): ALL}), st, True)
        elif n in ("fgets", "fread", "getline", "read", "fscanf", "getdelim", "recv"):
            src = T.source(self.f, i)
            d = {"getline": 0, "getdelim": 0, "read": 1, "recv": 1, "fgets": 0, "fread": 0}.get(n)
            L = {src: ALL} if src else NONE
            if n == "fscanf":
                for a in i.args[2:]:
                    self.write(self.roots(a), L, st, True)
            else:
                self.write(self.roots(i.args[d]), L, st, self.at_start(i.args[d]))
                if n == "fgets":
                    self.setv(i, L, st)
        elif n in ("getc", "fgetc", "getchar", "_IO_getc"):
            src = T.source(self.f, i)
            if src:
                self.setv(i, {src: ALL}, st)
        elif n == "getenv":
            if T.args and not (UID in st and not st[UID]["c"] & ALL) and not self.constarg(i.args[0], "POSIXLY_CORRECT"):
                self.setv(i, {T.args: ALL}, st)
        elif n == "readdir":
            self.setv(i, {"name of a file found in a directory": SHELL}, st)
        elif n in ("sscanf",):
            L = self.label(i.args[0], st)
            for a in i.args[2:]:
                self.write(self.roots(a), L, st, True)
        elif n in ("strsep",):
            self.setv(i, self.label(i.args[0], st), st)
        elif n in ("tolower", "toupper"):
            self.setv(i, self.label(i.args[0], st), st)
        elif n in ("strerror",):
            pass

    def copy_struct(self, d, s, st):
        L = self.label(s, st)
        rs = self.roots(d)
        src = self.roots(s)
        if len(rs) == 1 and len(src) == 1 and rs[0][1] is None and src[0][1] is None:
            db, sb = rs[0][0], src[0][0]
            if db[0] != "v":
                for c in [c for c in st if c[0] == db]:
                    del st[c]
                got = False
                for c in [c for c in st if c[0] == sb]:
                    st[(db, c[1])] = st[c]; got = True
                if (db, None) not in st:
                    st[(db, None)] = L if not got else self.default((sb, None)) if sb[0] in ("p", "g") else NONE
                return
        self.write(rs, L, st, True)

    def inst(self, L, i, t, st):
        """labels of a summary in terms of the caller"""
        out = NONE
        for k, c in L.items():
            if isinstance(k, str) or k[0] == "R":
                x = {k: c}
            elif k[0] == "V":
                x = self.label(i.args[k[1]], st) if k[1] < len(i.args) else NONE
            elif k[0] == "M":
                x = NONE
                if k[1] < len(i.args):
                    rr = self.roots(i.args[k[1]])
                    for b, fld, d in rr:
                        x = ju(x, self.read((b, fld if fld is not None else k[2]), st))
            elif k[0] == "G":
                x = self.read((("g", k[1]), k[2]), st)
            elif k[0] == "VA":
                x = self.fmtargs(i, len(t.params), st, i.args[k[1]] if 0 <= k[1] < len(i.args) else None)
            else:
                x = NONE
            if x:
                if UID in st and not st[UID]["c"] & ALL:
                    x = {a: b for a, b in x.items() if not self.T.callers(a)}
                if c != ALL:
                    x = {a: b & c for a, b in x.items() if b & c}
                out = ju(out, x)
        return out

    def apply(self, i, t, pre, st):
        s = self.T.sum.get(t.key)
        if s is None:
            return
        if s.ret:
            self.setv(i, self.inst(s.ret, i, t, pre), st)
        for key, L in s.sinks.items():
            self.sink(key, self.inst(L, i, t, pre))
        for fld, L in s.feff.items():
            self.feffect(fld, self.inst(L, i, t, pre))
        for (g, fld), L in s.gwrites.items():
            st[(("g", g), fld)] = self.inst(L, i, t, pre)
        for (k, fld), L in s.writes.items():
            if k >= len(i.args):
                continue
            L2 = self.inst(L, i, t, pre)
            rs = [(b, f2 if f2 is not None else fld, d) for b, f2, d in self.roots(i.args[k])]
            sub = any(f2 is not None and fld is not None for b, f2, d in self.roots(i.args[k]))
            strong = len(rs) == 1 and not sub and (fld is not None or self.at_start(i.args[k])) and rs[0][0][0] != "v"
            self.write(rs, L2, st, strong)

    def sink(self, key, L):
        if not self.final:
            return
        cap = key[5]
        sym = NONE
        for k, c in L.items():
            if not c & cap or k[0] == "R":
                continue
            if isinstance(k, str):
                self.T.findings.setdefault((key, k), (self.f, ))
            else:
                sym = ju(sym, {k: c})
        if sym:
            self.S.sinks[key] = ju(self.S.sinks.get(key, NONE), sym)

    # ---------------------------------------------------------------- branches
    def succ_states(self, b, st):
        f = self.f
        t = f.blocks[b][-1]
        if t.op == "br" and t.d.get("c") is not None and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
            out = []
            for n, s in enumerate(t.d["s"]):
                e = dict(st)
                self.refine(t.d["c"], n == 0, e, b, 0)
                out.append((s, e))
            return out
        return [(s, st) for s in dict.fromkeys(f.succs(b))]

    def place(self, v):
        """a member read through a pointer value: the mask cell of that member"""
        f = self.f
        if v[0] != "v" or v[1] < f.nparams or f.ins[v[1]].op != "load":
            return None
        p = f.ins[v[1]].d["p"]
        if p[0] != "v" or p[1] < f.nparams or f.ins[p[1]].op != "gep":
            return None
        g = f.ins[p[1]]
        b = g.d["p"]
        fld, _ = self.fieldof(g.d["path"])
        if fld is None or fld[0] in COLLAPSE or b[0] != "v" or b[1] < f.nparams:
            return None
        return (("m", b[1]), fld)

    def drop(self, v, cap, st):
        """the text v points to was found to lack cap"""
        pl = self.place(v)
        if pl:
            self.masked.add(pl[0][1])
            st[pl] = {"c": st.get(pl, {"c": ALL})["c"] & ~cap or FOUND}
        for b, fld, d in self.roots(v):
            self.dropcell((b, fld), cap, st)
            if b[0] == "v":
                x = b[1]; n = 0
                while x in self.origin and n < 4:
                    n += 1; o = self.origin[x]
                    if self.T.args and x >= self.f.nparams and self.f.ins[x].op == "load" and self.varying(self.f.ins[x].d["p"]):
                        break                   # one element of several
                    if len(o) != 1:
                        break
                    ob, of, _ = o[0]
                    if ob[0] != "v" or of is not None:
                        self.dropcell((ob, of), cap, st)
                        break
                    x = ob[1]

    def dropcell(self, cell, cap, st):
        for k in self.raw(cell, st):
            if k[0] == "R" and k[1] != cell[0]:
                self.dropcell((k[1], k[2]), cap, st)
        L = self.raw(cell, st)
        n = {k: c & ~cap for k, c in L.items() if c & ~cap}
        if cell[0][0] == "v" and cell[1] is not None:
            if cell[1][0] not in COLLAPSE:
                self.masked.add(cell[0][1])
                mk = (("m", cell[0][1]), cell[1])
                st[mk] = {"c": st.get(mk, {"c": ALL})["c"] & ~cap or FOUND}
            return
        st[cell] = n

    def meet(self, a, b, st):
        la, lb = self.label(a, st), self.label(b, st)
        def caps(L):
            c = 0
            for x in L.values():
                c |= x
            return c
        ca, cb = caps(la), caps(lb)
        if ca & ~cb:
            self.drop(a, ca & ~cb, st)
        if cb & ~ca:
            self.drop(b, cb & ~ca, st)

    def setof(self, v):
        if v[0] == "g":
            g = self.T.prog.glob(self.f.unit, v[1])
            s = g.string() if g is not None else None
            if s is not None:
                return set(s if isinstance(s, bytes) else s.encode("latin-1"))
        return None

    def refine(self, c, truth, st, b, depth):
        f = self.f
        if depth > 6 or c[0] != "v" or c[1] < f.nparams:
            return
        i = f.ins[c[1]]
        if i.op == "icmp":
            x, y = i.d["a"]; pr = i.d["pr"]
            if x[0] in ("i", "n"):
                x, y = y, x
            eq = truth if pr == "eq" else (not truth if pr == "ne" else None)
            if eq and self.T.args and self.uids(x, y):
                self.samerights(st); return
            if eq is None:
                # sizes compared: strspn(s, set) < strlen(s)
                self.spn(x, y, pr, truth, st)
                return
            if y[0] == "n" and eq and x[0] == "v" and (x[1] < f.nparams and f.params[x[1]][1] == "p" or x[1] >= f.nparams and f.ins[x[1]].op == "load"):
                if not any(r[0] == ("v", x[1]) for r in self.roots(x)):
                    self.drop(x, ALL, st)       # no text at all
            if y[0] == "n" and eq and x[0] == "v" and x[1] >= f.nparams and f.ins[x[1]].op == "phi":
                for l in self.only(x[1]):
                    st[(("v", l), None)] = NONE
            if y[0] in ("i", "n") and (y[0] == "n" or y[1] == 0):
                self.zero(x, eq, st, b, depth)
            elif y[0] == "i":
                if y[1] == ord(self.T.dirs) and not eq:
                    self.notin(x, PATH, st)
                self.const(x, y[1], eq, st, b, depth)
            else:
                self.spn(x, y, pr, truth, st)
            return
        if i.op == "phi" and i.ty == "i1":
            self.phi(i, lambda v: (v[0] == "i") and bool(v[1] & 1) != truth, lambda v: self.refine(v, truth, st, b, depth + 1), st)
            return
        if i.op == "call":
            self.zero(c, not truth, st, b, depth)
            return
        if i.op == "xor":
            if i.d["a"][1][0] == "i":
                self.refine(i.d["a"][0], not truth, st, b, depth + 1)
        elif i.op == "and" and truth or i.op == "or" and not truth:
            for x in i.d["a"]:
                self.refine(x, truth, st, b, depth + 1)
        elif i.op == "cast":
            self.refine(i.d["a"][0], truth, st, b, depth + 1)

    def only(self, x):
        """pointers loaded that nothing but the phi x makes use of"""
        f = self.f
        web = {x}; todo = [x]; loads = set()
        while todo:
            for v, _ in f.ins[todo.pop()].d["in"]:
                if v[0] == "v" and v[1] >= f.nparams and v[1] not in web:
                    if f.ins[v[1]].op == "phi":
                        web.add(v[1]); todo.append(v[1])
                    elif f.ins[v[1]].op == "load":
                        loads.add(v[1])
        if not loads:
            return ()
        users = {}
        for i in f.all():
            for k in ("a", "p", "v", "c"):
                a = i.d.get(k)
                if a and not isinstance(a[0], list):
                    a = [a]
                for v in a or ():
                    if v and v[0] == "v":
                        users.setdefault(v[1], set()).add(i.id)
            if i.op == "phi":
                for v, _ in i.d["in"]:
                    if v[0] == "v":
                        users.setdefault(v[1], set()).add(i.id)
        if any(users.get(w, set()) - web for w in web if w != x):
            return ()
        return [l for l in loads if not users.get(l, set()) - web]

    def phi(self, i, excluded, rec, st):
        """a flag set on some paths: the state is that of the paths that give it this value"""
        left = [(v, p) for v, p in i.d["in"] if not excluded(v)]
        if not left or len(left) == len(i.d["in"]) and len(left) > 1:
            return
        es = None
        for v, p in left:
            e = self.edges.get((p, i.blk))
            if e is None:
                continue
            if v[0] == "v" and v[1] >= self.f.nparams and self.f.ins[v[1]].op == "phi" and self.f.ins[v[1]] is not i:
                e = dict(e)
            es = e if es is None else self.join(es, e)
        if es is not None:
            here = self.instate.get(i.blk)
            for cell, L in es.items():
                if cell in st and here is not None and here.get(cell) == st[cell] and L != st[cell]:
                    st[cell] = L
        if len(left) < len(i.d["in"]):
            preds = {p for _, p in left}
            for q in self.f.blocks[i.blk]:
                if q.op != "phi":
                    break
                if q.ty == "p" and len({tuple(v) for v, p in q.d["in"] if p in preds}) < len({tuple(v) for v, _ in q.d["in"]}):
                    st[(("v", q.id), "sel")] = {n: 1 for n, (v, p) in enumerate(q.d["in"]) if p in preds}
                    self.selected.add(q.id)
        if len(left) == 1 and left[0][0][0] == "v":
            rec(left[0][0])

    def const(self, x, n, eq, st, b, depth):
        if x[0] != "v" or x[1] < self.f.nparams:
            return
        i = self.f.ins[x[1]]
        if i.op == "phi":
            self.phi(i, (lambda v: v[0] == "i" and v[1] != n) if eq else (lambda v: v[0] == "i" and v[1] == n), lambda v: self.const(v, n, eq, st, b, depth + 1), st)
        elif i.op == "cast":
            self.const(i.d["a"][0], n, eq, st, b, depth + 1)
        elif i.op == "call":
            self.guard(i, ("=", n) if eq else ("!", n), st)

    def zero(self, x, isz, st, b, depth):
        f = self.f
        if x[0] != "v" or depth > 6:
            return
        if x[1] < f.nparams:
            return
        i = f.ins[x[1]]
        if i.op == "cast":
            return self.zero(i.d["a"][0], isz, st, b, depth + 1)
        if i.op == "icmp":
            return self.refine(x, not isz, st, b, depth + 1)
        if i.op == "phi":
            zc = lambda v: v[0] == "n" or v[0] == "i" and v[1] == 0
            nz = lambda v: v[0] == "i" and v[1] != 0 or v[0] == "g"
            return self.phi(i, nz if isz else zc, lambda v: self.zero(v, isz, st, b, depth + 1), st)
        if i.op == "load" and isz:
            self.scanned(i, st)
        if i.op == "load":
            # s[strspn(s, set)] == 0 : every character is in set
            p = i.d["p"]
            if isz and p[0] == "v" and p[1] >= f.nparams and f.ins[p[1]].op == "gep":
                g = f.ins[p[1]]
                for e in g.d.get("idx") or []:
                    v = e[0] if isinstance(e, (list, tuple)) and e and isinstance(e[0], (list, tuple)) else e
                    self.spnidx(v, st)
            return
        if i.op != "call":
            return
        n = i.callee
        if n in EQ:
            if self.T.dots and not isz and n in PREFIX and (self.constarg(i.args[1], "..") or self.constarg(i.args[1], ".")) and i.args[2][0] == "i" and i.args[2][1] <= 2:
                p = i.args[0]
                while p[0] == "v" and p[1] >= f.nparams and f.ins[p[1]].op == "gep" and f.ins[p[1]].d.get("off") == 0 and not f.ins[p[1]].d.get("idx"):
                    p = f.ins[p[1]].d["p"]
                if p[0] == "v":
                    k = (("m", p[1]), "ch"); self.masked.add(p[1])
                    st[k] = {"c": st.get(k, {"c": ALL})["c"] & ~PATH or FOUND}
            if isz and not (n in PREFIX and self.prefix(i)):
                self.meet(i.args[0], i.args[1], st)
        elif n in ("strchr", "strrchr", "index", "rindex", "memchr") and isz:
            ch = i.args[1]
            if ch[0] == "i" and ch[1] == ord(self.T.dirs):
                self.drop(i.args[0], PATH, st)
            elif ch[0] == "v" and n != "memchr":
                s = self.setof(i.args[0])
                if s is not None:
                    cap = (PATH if ord(self.T.dirs) in s else 0) | (SHELL if HARD <= s else 0)
                    if cap:
                        self.notin(ch, cap, st)
        elif n == "strstr" and isz and self.T.dots:
            if self.constarg(i.args[1], ".."):
                self.drop(i.args[0], PATH, st)
        elif n == "strpbrk" and isz:
            s = self.setof(i.args[1])
            if s is not None:
                cap = (PATH if ord(self.T.dirs) in s else 0) | (SHELL if HARD <= s else 0)
                if cap:
                    self.drop(i.args[0], cap, st)
        else:
            self.guard(i, ("=", 0) if isz else ("!", 0), st)

    def prefix(self, i):
        """a comparison of no more than the beginning"""
        if i.args[2][0] != "i":
            return True
        for a in i.args[:2]:
            g = self.T.prog.glob(self.f.unit, a[1]) if a[0] == "g" else None
            c = g.string() if g is not None else None
            if c is not None and i.args[2][1] <= len(c.rstrip("\0") if isinstance(c, str) else c.rstrip(b"\0")):
                return True
        return False

    def charpos(self, v):
        """(cursor, text, offset) of the character v: the cursor is the pointer or the index that goes over the text"""
        f = self.f
        def strip(v):
            while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "cast":
                v = f.ins[v[1]].d["a"][0]
            return v
        v = strip(v)
        if v[0] != "v" or v[1] < f.nparams or f.ins[v[1]].op != "load" or f.ins[v[1]].ty != "i8":
            return None
        p = f.ins[v[1]].d["p"]
        if p[0] != "v":
            return None
        off = 0; text = None
        if p[1] >= f.nparams and f.ins[p[1]].op == "gep":
            g = f.ins[p[1]]
            ix = g.d.get("idx") or []
            if not ix and g.d.get("off") in (0, 1):
                off = g.d["off"]; p = g.d["p"]
            elif len(ix) == 1 and g.d.get("off") == 0 and ix[0][1] == 1:
                x = strip(ix[0][0])
                if x[0] == "v" and x[1] >= f.nparams and f.ins[x[1]].op == "bin" and f.ins[x[1]].d.get("k") == "add" and f.ins[x[1]].d["a"][1][:2] == ["i", 1]:
                    off = 1; x = strip(f.ins[x[1]].d["a"][0])
                if x[0] == "v" and x[1] >= f.nparams and f.ins[x[1]].op == "phi":
                    return x[1], g.d["p"], off
                return None
        return (p[1], None, off) if p[0] == "v" else None

    def notin(self, v, cap, st):
        """the character v is none of those that give text the capability cap"""
        p = self.charpos(v)
        if p is not None and (self.T.dots or p[2] == 0):      # of two characters one after the other one is not '.'
            k = (("m", p[0]), "ch")
            self.masked.add(p[0])
            st[k] = {"c": st.get(k, {"c": ALL})["c"] & ~cap or FOUND}

    def scanned(self, i, st):
        """the end of the text was reached by a pointer or an index that went over it character by character"""
        f = self.f
        pos = self.charpos(["v", i.id])
        if pos is None or pos[2] or pos[0] < f.nparams or f.ins[pos[0]].op != "phi":
            return
        q = f.ins[pos[0]]; text = pos[1]
        start = []; left = 0
        for v, pred in q.d["in"]:
            step = False
            if v[0] == "v" and v[1] >= f.nparams:
                g = f.ins[v[1]]
                step = (text is None and g.op == "gep" and g.d["p"] == ["v", q.id] and g.d.get("off") == 1 and not g.d.get("idx")
                        or text is not None and g.op == "bin" and g.d.get("k") == "add" and g.d["a"][0] == ["v", q.id] and g.d["a"][1][:2] == ["i", 1])
            if step:
                e = self.edges.get((pred, q.blk))
                if e is None:
                    return
                left |= e.get((("m", q.id), "ch"), {"c": ALL})["c"]
            else:
                start.append(v)
        if text is None and len(start) == 1 and start[0][0] == "v" and start[0][1] >= f.nparams:
            g = f.ins[start[0][1]]
            if g.op == "gep" and (g.d.get("off") != 0 or g.d.get("idx")) and not any(e[0] == "a" or e[0] == "f" for e in g.d["path"]):
                return                   # not from the beginning
        if len(start) == 1 and ALL & ~left and (text is None or start[0][:2] == ["i", 0]):
            self.drop(start[0] if text is None else text, ALL & ~left, st)

    def allowed(self, s):
        cap = 0
        if ord(self.T.dirs) not in s:
            cap |= PATH
        if not (s & META):
            cap |= SHELL
        return cap

    def spnidx(self, v, st):
        f = self.f
        while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "cast":
            v = f.ins[v[1]].d["a"][0]
        if v[0] == "v" and v[1] >= f.nparams:
            i = f.ins[v[1]]
            if i.op == "call" and i.callee == "strspn":
                s = self.setof(i.args[1])
                if s:
                    self.drop(i.args[0], self.allowed(s), st)

    def spn(self, x, y, pr, truth, st):
        f = self.f
        def callof(v):
            while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "cast":
                v = f.ins[v[1]].d["a"][0]
            if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "call":
                return f.ins[v[1]]
        a, b2 = callof(x), callof(y)
        for p, q, pp in ((a, b2, pr), (b2, a, {"ult": "ugt", "ugt": "ult", "uge": "ule", "ule": "uge"}.get(pr, pr))):
            if p is None or q is None or q.callee != "strlen":
                continue
            if p.callee in ("strspn", "strcspn"):
                full = (pp == "eq" and truth) or (pp == "ne" and not truth) or (pp in ("ult", "slt") and not truth) or (pp in ("uge", "sge") and truth)
                if full:
                    s = self.setof(p.args[1])
                    if s is None:
                        continue
                    if p.callee == "strspn":
                        self.drop(p.args[0], self.allowed(s), st)
                    else:
                        cap = (PATH if ord(self.T.dirs) in s else 0) | (SHELL if HARD <= s else 0)
                        self.drop(p.args[0], cap, st)

    def guard(self, i, res, st):
        """the result of a call is known: what the callee then found out about its arguments"""
        key = (("r", i.id), None)
        poss = st.get(key)
        if not poss:
            return
        left = {k: 1 for k in poss if self.matches(k[1], res)}
        st[key] = left
        acc = None
        for tk, r in left:
            s = self.T.sum.get(tk)
            d = s.guards.get(r, NONE) if s is not None else NONE
            acc = dict(d) if acc is None else {k: acc[k] & c for k, c in d.items() if k in acc}
        for k, cap in (acc or {}).items():
            if cap:
                if k[0] == -1:
                    self.samerights(st)
                elif k[1] is None:
                    if k[0] < len(i.args):
                        self.drop(i.args[k[0]], cap, st)
                elif k[0] < len(i.args):
                    for b, fld, d in self.roots(i.args[k[0]]):
                        if fld is None:
                            self.dropcell((b, k[1]), cap, st)

    def matches(self, r, res):
        """may a return of class r give the result res"""
        if res is None:
            return True
        if r == "?":
            return True
        if r == "nn":
            return not (res == ("=", 0))
        return r == res[1] if res[0] == "=" else r != res[1]

    # ---------------------------------------------------------------- the summary
    def finish(self):
        f = self.f; S = self.S
        allret = NONE; ex = None
        for blk in f.blocks:
            t = blk[-1]
            if t.op != "ret":
                continue
            b = t.blk
            if b not in self.instate:
                continue
            st = dict(self.instate[b]); self.block(b, st)
            v = t.d.get("v")
            if v is not None:
                allret = ju(allret, self.label(v, st))
                if v[0] in ("v", "g", "ce") and f.ret == "p":
                    S.retroots = tuple(sorted({(r[0], r[1]) for r in self.roots(v) if r[0][0] in ("g", "p")} | set(S.retroots), key=str))
            ex = st if ex is None else self.join(ex, st)
            for r, e in self.classes(v, b, st, 0):
                d = {}
                for cell, L in e.items():
                    if cell[0][0] == "p":
                        gone = ALL
                        for c in L.values():
                            gone &= ~c
                        if gone:
                            d[(cell[0][1], cell[1])] = gone
                if UID in e and not e[UID]["c"] & ALL:
                    d[(-1, "uid")] = 1
                old = S.guards.get(r)
                S.guards[r] = d if old is None else {k: old[k] & c for k, c in d.items() if k in old}
        S.ret = allret
        if ex:
            for (b, fld), L in ex.items():
                if fld == "ref" or b[0] not in ("p", "g"):
                    continue
                keep = {k: c for k, c in L.items() if k[0] == "R" and k[1][0] == "g"}
                L = self.read((b, fld), ex)
                if keep:
                    L = ju(L, keep)
                if b[0] == "p":
                    own = self.default((b, fld))
                    if self.f.params[b[1]][1] == "p" and L != own:
                        (s, c), = own.items()
                        if L.keys() <= {s}:      # only found to be harmless: not a write
                            if self.wrote(b, fld):
                                S.writes[(b[1], fld)] = L
                            continue
                        L2 = dict(L)
                        if s in L2:
                            L2[s] = ALL
                            if fld is None and self.overwrites(b):
                                del L2[s]
                                if s in S.ret and self.returns(b[1]):
                                    S.ret = {k: c for k, c in S.ret.items() if k != s}
                        S.writes[(b[1], fld)] = L2
                elif b[0] == "g":
                    own = self.default((b, fld))
                    if L != own:
                        S.gwrites[(b[1], fld)] = L

    def returns(self, k):
        """what is returned is the parameter itself"""
        for blk in self.f.blocks:
            if blk[-1].op == "ret" and blk[-1].d.get("v") != ["v", k]:
                return False
        return True

    def overwrites(self, b):
        """text is built in place from the first character on and terminated"""
        f = self.f; term = False; n = 0
        for i in f.all():
            if i.op == "call":
                if i.callee and i.callee.startswith("llvm.dbg"):
                    continue
                if any(any(r[0] == b for r in self.roots(a)) for a in i.args if a[0] == "v"):
                    return False
            if i.op == "load" and any(r[0] == b for r in self.roots(i.d["p"])):
                return False
            if i.op == "store" and any(r[0] == b for r in self.roots(i.d["p"])):
                if len(self.roots(i.d["p"])) != 1 or not self.from_start(i.d["p"], set()):
                    return False
                n += 1
                if i.d["v"][0] == "i" and i.d["v"][1] == 0:
                    term = True
        return term and n > 1

    def from_start(self, v, seen):
        """the address is the parameter advanced one by one from its beginning"""
        f = self.f
        if v[0] == "i":
            return v[1] == 0
        if v[0] != "v":
            return False
        if v[1] in seen or v[1] < f.nparams:
            return v[1] in seen or f.params[v[1]][1] == "p"
        seen = seen | {v[1]}
        i = f.ins[v[1]]
        if i.op == "phi":
            return all(self.from_start(x, seen) for x, _ in i.d["in"])
        if i.op == "cast":
            return self.from_start(i.d["a"][0], seen)
        if i.op == "bin" and i.d.get("k") == "add" and i.d["a"][1][0] == "i" and i.d["a"][1][1] == 1:
            return self.from_start(i.d["a"][0], seen)
        if i.op == "gep":
            if i.d.get("idx"):
                return len(i.d["idx"]) == 1 and i.d.get("off") == 0 and i.d["idx"][0][1] == 1 and self.from_start(i.d["idx"][0][0], seen) and self.from_start(i.d["p"], seen)
            return i.d.get("off") in (0, 1) and self.from_start(i.d["p"], seen)
        return False

    def wrote(self, b, fld):
        """a store or a copying call that may replace the text behind this parameter"""
        for i in self.f.all():
            if i.op == "store" and any(r[0] == b and r[1] == fld for r in self.roots(i.d["p"])):
                return True
            if i.op == "call":
                n = i.callee
                if n in STRONG_COPY or n in ("sprintf", "snprintf", "vsnprintf", "fgets", "fread"):
                    if any(r[0] == b and r[1] == fld for r in self.roots(i.args[0])):
                        return True
                for t in self.T.cg.targets(self.f, i):
                    s = self.T.sum.get(t.key)
                    if s is not None:
                        for (k, f2) in s.writes:
                            if k < len(i.args) and any(r[0] == b and (r[1] if r[1] is not None else f2) == fld for r in self.roots(i.args[k])):
                                return True
        return False

    def classes(self, v, b, st, depth):
        """(class of the returned value, state) pairs"""
        if v is None:
            return [("?", st)]
        if v[0] == "i":
            n = v[1]
            return [(n, st)]
        if v[0] == "n":
            return [(0, st)]
        if v[0] == "g":
            return [("nn", st)]
        if v[0] == "v" and v[1] >= self.f.nparams:
            i = self.f.ins[v[1]]
            if i.op == "phi" and i.blk == b and depth < 4:
                out = []
                for x, p in i.d["in"]:
                    e = self.edges.get((p, b))
                    if e is None:
                        continue
                    if x[0] == "v" and x[1] >= self.f.nparams and self.f.ins[x[1]].op == "phi" and self.f.ins[x[1]].blk == p and len(self.f.succs(p)) == 1:
                        out += self.classes(x, p, e, depth + 1)
                    else:
                        out += self.classes(x, p, e, depth + 1)
                return out
            if i.op == "cast":
                return self.classes(i.d["a"][0], b, st, depth + 1)
            if i.op == "icmp" or i.ty == "i1":
                out = []
                for tr in (True, False):
                    e = dict(st); self.refine(v, tr, e, b, 0)
                    out.append((1 if tr else 0, e))
                return out
            if i.op == "gep" or i.op == "alloca":
                return [("nn", st)]
            if i.op == "load" or i.op == "call":
                out = []
                for z in (True, False):
                    e = dict(st); self.zero(v, z, e, b, 0)
                    out.append((0 if z else "nn", e))
                return out
        return [("?", st)]
