"""Call graph, mod sets, no-return functions, return-value ranges."""
from collections import defaultdict

LO, HI = -(1 << 70), 1 << 70
TOP = (LO, HI, False, None)
NONNULL = (1, HI, True, None)
ZERO = (0, 0, False, None)
EXITS = {"exit", "_exit", "abort", "_Exit", "__assert_fail"}


def const(n):
    return (n, n, n != 0, None)


def join(a, b):
    if a == b:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2], a[3] if a[3] == b[3] else None)


# external functions that write through (some of) their pointer arguments
EXT_WRITES = {
    "fgets": (0,), "fread": (0,), "read": (1,), "sprintf": (0,), "snprintf": (0,), "vsprintf": (0,), "vsnprintf": (0,),
    "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "memcpy": (0,), "memmove": (0,), "memset": (0,),
    "stat": (1,), "fstat": (1,), "lstat": (1,), "time": (0,), "gettimeofday": (0,), "pipe": (0,), "wait": (0,),
    "waitpid": (1,), "iconv": (1, 2, 3, 4), "strtol": (1,), "strtoul": (1,), "getcwd": (0,), "qsort": (0,),
    "strtok_r": (2,), "strtok": (0,), "regcomp": (0,), "sigaction": (2,), "ftime": (0,), "uname": (0,),
    "gethostname": (0,), "getdomainname": (0,), "utime": (), "strftime": (0,),
    "strlcpy": (0,), "llvm.memcpy.p0.p0.i64": (0,), "llvm.memset.p0.i64": (0,), "llvm.memmove.p0.p0.i64": (0,),
    "llvm.va_start": (0,), "llvm.va_end": (), "llvm.va_start.p0": (0,),
}
EXT_PURE = set("""strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strpbrk strspn strcspn memcmp
atoi atol isspace toupper tolower fopen fclose fflush ferror feof fputs fputc putc fprintf printf puts fseek ftell
rewind open close creat unlink remove rename mkdir rmdir chmod chown chdir access umask getpid getuid geteuid malloc
calloc realloc free exit abort system popen pclose opendir readdir closedir kill sleep isatty fileno fdopen freopen
strdup getenv setuid setgid execv fork dup dup2 ungetc getc fgetc getchar fcntl write link symlink perror strerror
localtime gmtime mktime ctime syslog openlog closelog vfprintf __errno_location __ctype_b_loc __ctype_tolower_loc
__ctype_toupper_loc toascii utime signal alarm iconv_open iconv_close regexec regfree regerror rand srand random
setlinebuf setbuf setvbuf fwrite lseek truncate ftruncate getpwnam getpwuid endpwent abs labs putchar fputs""".split())


# results of external functions: constants, "pos" (any positive value, an error), "nn" (non-null), "?"
EXT_RET = {"ferror": (0, "pos"), "fclose": (0, -1), "fflush": (0, -1), "unlink": (0, -1), "rename": (0, -1), "mkdir": (0, -1),
           "remove": (0, -1), "rmdir": (0, -1), "stat": (0, -1), "fstat": (0, -1), "lstat": (0, -1), "chmod": (0, -1), "fseek": (0, -1), "utime": (0, -1),
           "truncate": (0, -1), "close": (0, -1), "closedir": (0, -1), "access": (0, -1), "kill": (0, -1), "chdir": (0, -1)}


class CG:
    def __init__(self, prog):
        self.prog = prog
        self.callees = {}          # fkey -> set(fkey)
        self.extcalls = {}         # fkey -> set(names)
        self.callers = defaultdict(list)   # fkey -> [(F, ins)]
        self.addr_taken = []
        self.fn = {}
        self._indirect = {}
        for f in prog.funcs():
            self.fn[f.key] = f
        taken = set()

        def note(unit, name):
            g = prog.func(unit, name)
            if g is not None:
                taken.add(g.key)

        def walk(unit, v):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == "f" and isinstance(v[1], str):
                    note(unit, v[1])
                else:
                    for x in v:
                        walk(unit, x)
            elif isinstance(v, dict):
                for x in v.values():
                    walk(unit, x)
        for u in prog.units:
            for g in u.globals.values():
                if g.init is not None:
                    walk(u.name, g.init)
        for f in prog.funcs():
            for i in f.all():
                if i.op == "call":
                    for a in i.args:
                        if a[0] == "f":
                            note(f.unit, a[1])
                elif i.op == "store" and i.d["v"][0] == "f":
                    note(f.unit, i.d["v"][1])
                elif i.op in ("phi", "select", "ret"):
                    walk(f.unit, i.d.get("in") or i.d.get("a") or i.d.get("v"))
        self.addr_taken = [self.fn[k] for k in sorted(taken)]
        for f in prog.funcs():
            cs, es = set(), set()
            for i in f.calls():
                ts = self.targets(f, i)
                for t in ts:
                    cs.add(t.key)
                    self.callers[t.key].append((f, i))
                if not ts and i.callee:
                    es.add(i.callee)
            self.callees[f.key] = cs
            self.extcalls[f.key] = es
        self._mods()
        self._noret()
        self._rets()

    def targets(self, f, i):
        """function definitions a call may reach (empty: external)"""
        n = i.callee
        if n is not None:
            g = self.prog.func(f.unit, n)
            return [g] if g is not None else []
        sig = (i.ty, tuple(i.d["ats"]), "nfix" in i.d)
        if sig not in self._indirect:
            self._indirect[sig] = [g for g in self.addr_taken
                                   if (len(g.params) == len(i.args) and not g.vararg or g.vararg and "nfix" in i.d and len(g.params) <= len(i.args)) and g.ret == i.ty and
                                   tuple(p[1] for p in g.params) == sig[1][:len(g.params)]]
        return self._indirect[sig]

    def reaching(self, seeds, opaque=frozenset()):
        """keys of functions from which a function in seeds (keys) or an external name in seeds is reachable,
        not through the functions in opaque"""
        out = set()
        work = []
        for k in self.fn:
            if k not in opaque and (k in seeds or (self.extcalls[k] & seeds)):
                out.add(k); work.append(k)
        while work:
            k = work.pop()
            for f, _ in self.callers[k]:
                if f.key not in out and f.key not in opaque:
                    out.add(f.key); work.append(f.key)
        return out

    def closure(self, k):
        seen = {k}; work = [k]
        while work:
            x = work.pop()
            for c in self.callees.get(x, ()):
                if c not in seen:
                    seen.add(c); work.append(c)
        return seen

    def private(self):
        """scalar globals of one unit whose address is only used to load and store them directly"""
        if hasattr(self, "_private"):
            return self._private
        esc = set()

        def walk(unit, v):
            if not isinstance(v, list):
                return
            if len(v) == 2 and v[0] == "g" and isinstance(v[1], str):
                g = self.prog.glob(unit, v[1])
                esc.add(g.key if g else v[1]); return
            for x in v:
                if isinstance(x, list):
                    walk(unit, x)
        for f in self.prog.funcs():
            for i in f.all():
                for k, v in i.d.items():
                    if k == "p" and i.op in ("load", "store") and v and v[0] == "g":
                        continue
                    walk(f.unit, v)
        def winit(unit, v):
            if isinstance(v, dict):
                for x in v.values():
                    winit(unit, x)
            elif isinstance(v, list):
                walk(unit, v)
                for x in v:
                    if isinstance(x, (dict, list)):
                        winit(unit, x)
        for u in self.prog.units:
            for g in u.globals.values():
                winit(u.name, g.init)
        self._private = {g.key for u in self.prog.units for g in u.globals.values()
                         if not g.decl and g.internal and g.key not in esc}
        # the same of globals with external linkage: all units of the program are seen
        self.private_any = self._private | {g.key for u in self.prog.units for g in u.globals.values() if not g.decl and g.key not in esc}
        return self._private

    def _mods(self):
        """per function: globals, (struct,field) pairs and parameter indexes written, transitively"""
        self.mod_g = {}; self.mod_f = {}; self.mod_p = {}; self.ref_g = {}
        p = self.prog
        for f in p.funcs():
            mg, mf, mp, rg = set(), set(), set(), set()
            for i in f.all():
                if i.op == "store":
                    b, sf = root(f, i.d["p"])
                    if b[0] == "g":
                        g = p.glob(f.unit, b[1])
                        mg.add(g.key if g else b[1])
                    elif b[0] == "p":
                        mp.add(b[1])
                    if sf:
                        mf.add(sf)
                    elif b[0] == "x":
                        mf.add(("*", i.d.get("vt")))
                elif i.op == "load":
                    b, sf = root(f, i.d["p"])
                    if b[0] == "g":
                        g = p.glob(f.unit, b[1])
                        rg.add(g.key if g else b[1])
                elif i.op == "call" and not self.targets(f, i):
                    n = i.callee
                    w = EXT_WRITES.get(n)
                    if w is None:
                        w = () if n in EXT_PURE or n is None else tuple(range(len(i.args)))
                    for k in w:
                        if k < len(i.args):
                            b, sf = root(f, i.args[k])
                            if b[0] == "g":
                                g = p.glob(f.unit, b[1])
                                mg.add(g.key if g else b[1])
                            elif b[0] == "p":
                                mp.add(b[1])
                            if sf:
                                mf.add(sf)
                            elif n and n.startswith("llvm.mem") or n in ("memset", "memcpy"):
                                mf.add(("*", "mem"))
            self.mod_g[f.key] = mg; self.mod_f[f.key] = mf; self.mod_p[f.key] = mp; self.ref_g[f.key] = rg
        ch = True
        while ch:
            ch = False
            for f in p.funcs():
                k = f.key
                a, b, c, d = len(self.mod_g[k]), len(self.mod_f[k]), len(self.mod_p[k]), len(self.ref_g[k])
                for i in f.calls():
                    for t in self.targets(f, i):
                        if t.key == k:
                            continue
                        self.mod_g[k] |= self.mod_g[t.key]; self.mod_f[k] |= self.mod_f[t.key]
                        self.ref_g[k] |= self.ref_g[t.key]
                        for j in self.mod_p[t.key]:
                            if j < len(i.args):
                                bb, sf = root(f, i.args[j])
                                if bb[0] == "p":
                                    self.mod_p[k].add(bb[1])
                                elif bb[0] == "g":
                                    g = p.glob(f.unit, bb[1])
                                    self.mod_g[k].add(g.key if g else bb[1])
                                if sf:
                                    self.mod_f[k].add(sf)
                if (a, b, c, d) != (len(self.mod_g[k]), len(self.mod_f[k]), len(self.mod_p[k]), len(self.ref_g[k])):
                    ch = True

    def _noret(self):
        """functions that cannot return"""
        self.noreturn = set()
        ch = True
        while ch:
            ch = False
            for f in self.prog.funcs():
                if f.key in self.noreturn or not f.blocks:
                    continue
                seen = {0}; work = [0]; returns = False
                while work and not returns:
                    b = work.pop()
                    stop = False
                    for i in f.blocks[b]:
                        if i.op == "call" and self.is_exit(f, i):
                            stop = True; break
                        if i.op == "ret":
                            returns = True
                    if stop:
                        continue
                    for s in f.succs(b):
                        if s not in seen:
                            seen.add(s); work.append(s)
                if not returns:
                    self.noreturn.add(f.key); ch = True

    def is_exit(self, f, i):
        n = i.callee
        if n in EXITS or i.d.get("nr"):
            return True
        ts = self.targets(f, i)
        return bool(ts) and all(t.key in self.noreturn for t in ts)

    def _rets(self):
        """return value ranges: disjoint constants plus a flag for 'anything else'"""
        self.retset = {}
        p = self.prog
        deps = {}
        for f in p.funcs():
            self.retset[f.key] = set()
        ch = True; rounds = 0
        while ch and rounds < 50:
            ch = False; rounds += 1
            for f in p.funcs():
                if f.ret == "v":
                    continue
                s = set()
                for bl in f.blocks:
                    t = bl[-1]
                    if t.op == "ret" and "v" in t.d:
                        s |= self.vals(f, t.d["v"], set())
                if not s <= self.retset[f.key]:
                    self.retset[f.key] |= s; ch = True

    def vals(self, f, v, seen):
        """set of constants / '?' / 'nn' a value may take (flow-insensitive through phis and calls)"""
        k = v[0]
        if k == "i":
            return {v[1]}
        if k == "n":
            return {0}
        if k in ("g", "ce", "f"):
            return {"nn"}
        if k == "u":
            return set()
        if k != "v":
            return {"?"}
        if v[1] in seen:
            return set()
        seen.add(v[1])
        i = f.ins.get(v[1])
        if i is None:
            return {"?"}
        if i.op == "phi":
            s = set()
            for x, _ in i.d["in"]:
                s |= self.vals(f, x, seen)
            return s
        if i.op == "select":
            return self.vals(f, i.d["a"][1], seen) | self.vals(f, i.d["a"][2], seen)
        if i.op == "alloca":
            return {"nn"}
        if i.op == "gep":
            return {"nn"} if i.d["off"] == 0 and not i.d["idx"] and root(f, v)[0][0] in ("g", "a") else {"?"}
        if i.op == "icmp":
            return {0, 1}
        if i.op == "cast":
            if i.d["k"] in ("zext", "sext", "trunc"):
                s = self.vals(f, i.d["a"][0], seen)
                if i.d["k"] == "zext" and i.d["ot"] == "i1":
                    return {1 if x in (1, -1) else x for x in s}
                return s
            return {"?"}
        if i.op == "bin" and i.d["k"] == "sub" and i.d["a"][0][0] == "i" and i.d["a"][0][1] == 0:
            return {(-x if isinstance(x, int) else "?") for x in self.vals(f, i.d["a"][1], seen)}
        if i.op == "call":
            ts = self.targets(f, i)
            if ts:
                s = set()
                for t in ts:
                    s |= self.retset[t.key]
                return s
            return set(EXT_RET.get(i.callee, ("?",)))
        return {"?"}

    def retval(self, fkey):
        s = self.retset.get(fkey)
        if not s:
            return TOP
        if "?" in s:
            return TOP
        lo, hi, nz = HI, LO, True
        for x in s:
            if x == "nn" or x == "pos":
                lo = min(lo, 1); hi = HI
            else:
                lo = min(lo, x); hi = max(hi, x)
                if x == 0:
                    nz = False
        return (lo, hi, nz, None)


def root(f, v):
    """(base, (struct,field)|None): base = ('g',name) | ('a',id) | ('p',param) | ('x',ssa) | ('?',)"""
    sf = None
    for _ in range(40):
        k = v[0]
        if k == "g":
            return ("g", v[1]), sf
        if k == "ce":
            if sf is None:
                sf = last_field(v[3])
            v = v[1]; continue
        if k != "v":
            return ("?",), sf
        if v[1] < f.nparams:
            return ("p", v[1]), sf
        i = f.ins[v[1]]
        if i.op == "alloca":
            return ("a", i.id), sf
        if i.op == "gep":
            if sf is None:
                sf = last_field(i.d["path"])
            v = i.d["p"]; continue
        if i.op == "cast":
            v = i.d["a"][0]; continue
        return ("x", i.id), sf
    return ("?",), sf


def last_field(path):
    for e in reversed(path):
        if e[0] == "f":
            return (e[1], e[2])
    return None
