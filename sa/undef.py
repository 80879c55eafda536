"""May a value be used before it is set?  Path-sensitive exploration of one object at a time.

The units are compiled with -ftrivial-auto-var-init=pattern, so that the point where a local
variable comes into being without a value is an instruction (annotated auto-init), and scalars
promoted to SSA carry the pattern constant where they have none.  For every such object, every
record got from malloc() and, for summaries, every pointer parameter, the paths from its creation
are explored with the set of bytes not yet written, the facts the branches taken imply (including
the result of calls whose effect on the object depends on it) and the values flags have on the path.
"""
import sys
sys.setrecursionlimit(20000)
CAP = 2048
FULL = (1 << CAP) - 1
PAT = {8: -86, 16: -21846, 32: -1431655766, 64: -6148914691236517206}
MAXSTATES = 20000

ALLOC = {"malloc", "xmalloc", "realloc"}
# argument set by the call: (argument, fact about the result under which it is set)
W = {"strcpy": [(0, None)], "strncpy": [(0, None)], "stpcpy": [(0, None)], "sprintf": [(0, None)], "snprintf": [(0, None)],
     "vsnprintf": [(0, None)], "vsprintf": [(0, None)], "fgets": [(0, ("ne", 0))], "stat": [(1, ("eq", 0))], "lstat": [(1, ("eq", 0))],
     "fstat": [(1, ("eq", 0))], "time": [(0, None)], "gettimeofday": [(0, ("eq", 0))], "localtime_r": [(1, None)], "gmtime_r": [(1, None)],
     "getcwd": [(0, ("ne", 0))], "strftime": [(0, None)], "uname": [(0, None)], "pipe": [(0, ("eq", 0))]}
# arguments read as strings
RS = {"strlen": [0], "strcmp": [0, 1], "strcasecmp": [0, 1], "strncasecmp": [0, 1], "strncmp": [0, 1], "strchr": [0], "strrchr": [0], "strstr": [0, 1],
      "strcpy": [1], "strncpy": [1], "strcat": [0, 1], "strncat": [0, 1], "fputs": [0], "puts": [0], "open": [0], "fopen": [0, 1], "unlink": [0],
      "rename": [0, 1], "link": [0, 1], "stat": [0], "lstat": [0], "atoi": [0], "atol": [0], "strtol": [0], "strtoul": [0], "strdup": [0], "chdir": [0],
      "mkdir": [0], "rmdir": [0], "opendir": [0], "access": [0], "getenv": [0], "system": [0], "popen": [0, 1], "strspn": [0], "strcspn": [0],
      "printf": [0], "fprintf": [1], "sscanf": [0, 1], "strpbrk": [0], "chmod": [0], "mktemp": [0], "utime": [0]}
NEVERFAILS = {"gettimeofday": ("eq", 0), "localtime": ("ne", 0), "gmtime": ("ne", 0)}
NOEFF = {"fclose", "fflush", "fseek", "ftell", "feof", "ferror", "putc", "fputc", "exit", "abort", "close", "time", "clearerr", "fgetc", "getc", "rewind", "localtime", "gmtime",
         "ctime", "free", "llvm.dbg.declare", "llvm.dbg.value", "unlink", "getpid", "sleep", "__errno_location", "strerror", "memcmp", "toupper", "tolower", "isspace",
         "__ctype_b_loc", "llvm.va_start.p0", "llvm.va_end.p0", "llvm.va_start", "llvm.va_end", "perror", "umask", "lseek"} | set(RS) | {"fwrite", "write", "utime"}
PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2}


def is_pat(v):
    return v[0] == "i" and len(v) > 2 and PAT.get(v[2]) == v[1]


class Fn:
    """per-function preparation"""
    def __init__(self, f):
        self.f = f
        cnt = {}
        for i in f.all():
            c = None
            if i.op == "br" and "c" in i.d:
                c = i.d["c"]
            elif i.op == "switch":
                c = i.d["c"]
            if c:
                for k in self.keys(c, set()):
                    cnt[k] = cnt.get(k, 0) + 1
        self.relevant = {k for k, n in cnt.items() if n >= 2}
        self.tested = set(cnt)
        # phis that carry a decision or a pointer
        feeds = set(); todo = []
        for i in f.all():
            if i.op == "br" and "c" in i.d:
                todo.append(i.d["c"])
            elif i.op == "switch":
                todo.append(i.d["c"])
            elif i.op == "ret" and i.d.get("v"):
                todo.append(i.d["v"])
        seen = set()
        while todo:
            v = todo.pop()
            if not isinstance(v, list) or v[0] != "v" or v[1] < f.nparams or v[1] in seen:
                continue
            seen.add(v[1]); i = f.ins[v[1]]
            if i.op == "phi":
                ins = [x for x, _ in i.d["in"]]
                if any(x[0] in ("i", "n") for x in ins) or i.ty == "i1" or any(x[0] == "v" and x[1] >= f.nparams and f.ins[x[1]].op in ("phi", "call") for x in ins):
                    feeds.add(i.id)
                todo += ins
            elif i.op in ("icmp", "cast") or i.op == "bin" and i.d["k"] in ("xor", "and", "or"):
                todo += [x for x in i.d["a"] if isinstance(x, list)]
            elif i.op == "select":
                todo += [x for x in i.d["a"] if isinstance(x, list)]
        self.feeds = feeds
        self.ptrphi = {i.id for i in f.all() if i.op == "phi" and i.ty == "p"}

    def keys(self, v, seen):
        f = self.f; out = []
        if v[0] != "v" or tuple(v) in seen:
            return out
        seen.add(tuple(v))
        if v[1] < f.nparams:
            return [("p", v[1])]
        i = f.ins[v[1]]
        if i.op in ("icmp", "cast") or i.op == "bin" and i.d["k"] in ("xor",):
            for x in i.d["a"]:
                if isinstance(x, list):
                    out += self.keys(x, seen)
        elif i.op == "phi":
            for x, _ in i.d["in"]:
                out += self.keys(x, seen)
            out.append(("v", i.id))
        elif i.op == "load":
            k = ("L",) + akey(f, i.d["p"])
            out.append(k if k[1] is not None else ("v", i.id))
        else:
            out.append(("v", i.id))
        return out


def akey(f, v):
    """name of an address: root and offset, or None when it varies"""
    off = []
    while True:
        if v[0] == "g":
            return ("g", v[1]), tuple(off)
        if v[0] == "ce":
            return ("g", v[1][1] if len(v[1]) > 1 else "?"), tuple(off + [v[2]])
        if v[0] != "v":
            return None, ()
        if v[1] < f.nparams:
            return ("p", v[1]), tuple(off)
        i = f.ins[v[1]]
        if i.op == "gep" and not i.d["idx"]:
            off.append(i.d["off"]); v = i.d["p"]
        elif i.op == "cast":
            v = i.d["a"][0]
        elif i.op == "load":
            off.append("*"); v = i.d["p"]
        elif i.op == "alloca":
            return ("v", i.id), tuple(off)
        elif i.op in ("phi", "call"):
            return ("v", i.id), tuple(off)
        else:
            return None, ()


class Undef:
    def __init__(self, P, cg):
        self.P = P; self.cg = cg; self.prep = {}; self.sum = {}; self.fresh = {}
        self.stack = set(); self.reports = []; self.undecided = 0; self.objects = 0; self.states = 0
        self.reads_cache = {}

    def fn(self, f):
        if f.key not in self.prep:
            self.prep[f.key] = Fn(f)
        return self.prep[f.key]

    # ---- summaries
    def summary(self, f, k, consts=()):
        """[(fact about the result, bytes still unset)], [(bytes read while unset, where)]"""
        key = (f.key, k, consts)
        if key in self.sum:
            return self.sum[key]
        if (f.key, k) in [x[:2] for x in self.stack] or len(self.stack) > 40:
            return [(None, 0)], []
        self.stack.add(key)
        E = Explore(self, f, ("p", k), CAP)
        E.run(0, 0, FULL, consts)
        self.stack.discard(key)
        outs = sorted({(rf, m & ~E.inexact if rf is None else m) for rf, m in E.outs}, key=repr)
        if E.capped:
            outs = [(None, 0)]
        # a result with and without the bytes: keep both
        r = (outs or [], E.reads if not E.capped else [])
        self.sum[key] = r
        return r

    def freshness(self, f):
        """if f returns a record it has just allocated: (size, bytes unset, fact)"""
        if f.key in self.fresh:
            return self.fresh[f.key]
        self.fresh[f.key] = None
        if f.ret != "p":
            return None
        for i in f.calls():
            sz = self.alloc_size(f, i)
            if sz:
                E = Explore(self, f, ("v", i.id), sz, quiet=True)
                E.run(i.blk, i.idx + 1, (1 << min(sz[0], CAP)) - 1 if sz[1] is None else sz[1])
                m = 0
                for rf, mask, own in E.rets:
                    if own:
                        m |= mask
                if any(own for _, _, own in E.rets) and not E.capped:
                    self.fresh[f.key] = (sz[0], m, E.escaped or sz[2])
                    break
        return self.fresh[f.key]

    def alloc_size(self, f, i):
        """(size, initial mask or None for all) when the call yields a new record"""
        if i.callee in ("malloc", "xmalloc") and i.args and i.args[0][0] == "i":
            return (i.args[0][1], None, False)
        for t in self.cg.targets(f, i):
            r = self.freshness(t)
            if r and r[1]:
                return r
        return None


class Explore:
    def __init__(self, U, f, obj, size, quiet=False):
        self.U = U; self.f = f; self.F = U.fn(f); self.obj = obj
        self.size = size[0] if isinstance(size, tuple) else size
        self.quiet = quiet; self.outs = set(); self.rets = set(); self.reads = []; self.readset = set()
        self.capped = False; self.escaped = False; self.summary_mode = obj[0] == "p"; self.nstates = 0; self.inexact = 0; self.fnargs = {}

    # ---- pointers
    def resolve(self, v, env, depth=0):
        """(offset or None, extent) of a pointer into the object, or None"""
        f = self.f; off = 0; ext = None; var = False
        n = 0
        chain = []
        while True:
            n += 1
            if n > 60:
                return None
            if v[0] != "v":
                return None
            if v[1] < f.nparams:
                if self.obj == ("p", v[1]):
                    break
                return None
            i = f.ins[v[1]]
            if self.obj == ("v", i.id):
                break
            if i.op == "gep":
                chain.append(i); v = i.d["p"]
            elif i.op == "cast":
                v = i.d["a"][0]
            elif i.op == "phi":
                r = env.get(i.id)
                if isinstance(r, tuple) and r and r[0] == "ptr":
                    base = r[1]
                    return self.walk(base, chain)
                return None
            else:
                return None
        return self.walk((0, None, True, 0), chain)

    def walk(self, base, chain):
        """(offset, extent or None, exact): somewhere in [offset, offset + extent) when not exact"""
        off, ext, ex, st = base
        for g in reversed(chain):
            p = g.d["path"]; o2 = g.d["off"] or 0
            fi = [k for k, e in enumerate(p) if e[0] == "f"]
            if fi and ex:
                last = p[fi[-1]]
                inner = sum(x[1] * x[3] for x in p[fi[-1] + 1:] if x[0] == "a" and isinstance(x[3], int))
                if g.d["idx"]:
                    before = any(k < fi[-1] for k, x in enumerate(p) if x[0] in ("a", "p") and isinstance(x[-1], list))
                    off += o2 - inner; ex = False; st = off
                    ext = None if before else last[3]
                else:
                    off += o2; ext = last[3] - inner; st = off - inner
            elif fi:
                pass                     # a member of an element of an array: still somewhere in the array
            elif ex:
                if g.d["idx"]:
                    ex = False
                    off += o2 if o2 > 0 else 0
                    if ext is not None and o2 > 0:
                        ext = max(ext - o2, 1)
                else:
                    off += o2
                    if ext is not None:
                        ext = max(ext - o2, 1)
        return (off, ext, ex, st)

    def region(self, r, n=None):
        """(mask, exact) of the bytes a resolved pointer covers"""
        top = min(self.size, CAP)
        off, ext, ex, st = r
        if not ex:
            return self.bits(off, ext if ext is not None else top - off), False
        if n is None:
            n = ext if ext is not None else top - off
        return self.bits(off, n), True

    def touched(self, mask, r):
        """some earlier element of the character array has been set"""
        if not r[2] or r[0] <= r[3]:
            return False
        b = self.bits(r[3], r[0] - r[3])
        return (mask & b) != b

    def rd(self, env, mask, bits, ins, what, allof=False):
        if self.summary_mode and env.get("G"):
            return
        self.read(mask, bits, ins, what, allof)

    def tag(self, c):
        """the condition tests an integer member of the object"""
        return any(x[0] == "L" and x[1] == self.obj and "*" not in x[2] for x in (c[2:] if c[0] == "I" else (c,)) if isinstance(x, tuple))

    def bits(self, o, n):
        if o < 0:
            return 0
        top = min(self.size, CAP)
        if o >= top:
            o = top - 1; n = 1
        n = max(0, min(n, top - o))
        return ((1 << n) - 1) << o

    # ---- values on the path
    def canon(self, v, env, depth=0):
        f = self.f
        if v[0] == "i":
            return ("i", v[1])
        if v[0] == "n":
            return ("i", 0)
        if v[0] in ("g", "f", "ce"):
            return ("A", repr(v))
        if v[0] != "v":
            return ("?",)
        if v[1] < f.nparams:
            return ("p", v[1])
        i = f.ins[v[1]]
        if depth > 12:
            return ("v", i.id)
        if i.op == "phi":
            r = env.get(i.id)
            if r is not None and r[0] != "ptr":
                return r
            return ("v", i.id)
        if i.op == "cast":
            return self.canon(i.d["a"][0], env, depth + 1)
        if i.op == "icmp":
            a = self.canon(i.d["a"][0], env, depth + 1); b = self.canon(i.d["a"][1], env, depth + 1)
            pr = i.d["pr"]
            if a[0] == "I" and b == ("i", 0) and pr in ("eq", "ne"):
                return a if pr == "ne" else neg(a)
            if a[0] == "i" and b[0] != "i":
                a, b = b, a
                pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
            return norm(("I", pr, a, b))
        if i.op == "bin" and i.d["k"] == "xor" and i.ty == "i1":
            a = self.canon(i.d["a"][0], env, depth + 1)
            if a[0] == "I":
                return neg(a)
            if a[0] == "i":
                return ("i", 1 - a[1])
            return ("v", i.id)
        if i.op == "load":
            k, o = akey(f, i.d["p"])
            if k is not None:
                return ("L", k, o)
            return ("v", i.id)
        if i.op in ("alloca",):
            return ("A", i.id)
        if i.op == "gep":
            c = self.canon(i.d["p"], env, depth + 1)
            if c[0] == "A":
                return ("A", i.id)
        if i.op == "bin" and i.d["k"] == "add" and any(x[0] == "i" and x[1] > 0 for x in i.d["a"]) and any(
                x[0] == "v" and x[1] >= f.nparams and f.ins[x[1]].op == "call" and f.ins[x[1]].callee == "strlen" for x in i.d["a"]):
            return ("A", i.id)
        return ("v", i.id)

    def truth(self, c, facts):
        if c[0] == "i":
            return c[1] != 0
        if c[0] == "A":
            return True
        if c[0] == "I":
            _, pr, a, b = c
            if a[0] == "i" and b[0] == "i":
                return cmpc(pr, a[1], b[1])
            if a == b:
                return pr in ("eq", "sle", "sge", "ule", "uge")
            if a[0] == "A" and b == ("i", 0):
                return pr == "ne"
            if b[0] == "i":
                k = facts.get(a)
                if k:
                    if k[0] == "eq":
                        return cmpc(pr, k[1], b[1])
                    if k[0] == "ne" and k[1] == b[1] and pr in ("eq", "ne"):
                        return pr == "ne"
            t = facts.get(("t", c))
            if t is not None:
                return t
            t = facts.get(("t", neg(c)))
            if t is not None:
                return not t
            return None
        k = facts.get(c)
        if k:
            if k == ("ne", 0):
                return True
            if k[0] == "eq":
                return k[1] != 0
        return None

    def assume(self, c, val, facts):
        """facts after the condition c turned out val; only what matters later is kept"""
        rel = self.F.relevant
        if c[0] == "I":
            _, pr, a, b = c
            p = pr if val else NEG[pr]
            if b[0] == "i" and p == "eq" and (a in rel or a in self.keep):
                facts[a] = ("eq", b[1])
            elif b[0] == "i" and p == "ne" and (a in rel or a in self.keep):
                if a not in facts:
                    facts[a] = ("ne", b[1])
                elif facts[a][0] == "ne" and facts[a][1] != b[1]:
                    facts[("t", c)] = val
            elif a in rel or b in rel or a in self.keep:
                facts[("t", c)] = val
        elif c in rel or c in self.keep:
            facts[c] = ("ne", 0) if val else ("eq", 0)

    # ---- exploration
    def run(self, blk, idx, mask, consts=()):
        f = self.f
        self.keep = {("p", j) for j, c in consts}
        init = [(("p", j), c) for j, c in consts if ("p", j) != self.obj and c[0] in ("eq", "ne")]
        self.fnargs = {j: c[1] for j, c in consts if c[0] == "fn"}
        if self.summary_mode:
            init.append((self.obj, ("ne", 0))); self.keep.add(self.obj)
        start = (blk, idx, frozenset(init), frozenset(), mask)
        todo = [start]; seen = {start}
        while todo:
            st = todo.pop()
            self.nstates += 1
            if self.nstates > MAXSTATES:
                self.capped = True; self.U.undecided += 1
                break
            for nx in self.step(*st):
                if nx not in seen:
                    seen.add(nx); todo.append(nx)
        self.U.states += self.nstates

    def read(self, mask, bits, ins, what, allof=False):
        if not (mask & bits):
            return
        key = (mask & bits, ins.id)
        if key in self.readset:
            return
        self.readset.add(key)
        self.reads.append((bits if allof else mask & bits, ins, what, allof))

    def step(self, blk, idx, facts, env, mask):
        f = self.f; facts = dict(facts); env = dict(env)
        bl = f.blocks[blk]
        k = idx
        while k < len(bl):
            i = bl[k]; k += 1
            if i.op == "phi":
                continue
            if not mask and not self.summary_mode and not self.want_rets:
                return
            if i.op == "load":
                kk = ("v", i.id)
                facts.pop(kk, None)
                r = self.resolve(i.d["p"], env)
                if r:
                    b, exact = self.region(r, i.d["sz"])
                    if exact:
                        if not (i.d["sz"] == 1 and self.touched(mask, r)):
                            self.rd(env, mask, b, i, "is read")
                    elif b and (mask & b) == b:
                        self.read(mask, b, i, "is read")
                        mask &= ~b
                    if exact:
                        mask &= ~b      # reported once
            elif i.op == "store":
                r = self.resolve(i.d["p"], env)
                if r and i.d.get("ai"):
                    if not self.summary_mode or True:
                        b, _ = self.region(r, i.d["sz"]); mask |= b
                elif r:
                    b, exact = self.region(r, i.d["sz"])
                    mask &= ~b
                    if not exact:
                        self.inexact |= b
                kx, ox = akey(f, i.d["p"])
                if kx is not None:
                    facts.pop(("L", kx, ox), None)
                    key = ("L", kx, ox)
                    if key in self.F.relevant:
                        c = self.canon(i.d["v"], env)
                        if c[0] == "i":
                            facts[key] = ("eq", c[1])
                        elif c in facts and facts[c][0] in ("eq", "ne"):
                            facts[key] = facts[c]
                    for q in [q for q in facts if q[0] == "t" and mentions(q[1], key)]:
                        del facts[q]
                rv = self.resolve(i.d["v"], env) if i.d["v"][0] == "v" and i.d.get("vt") == "p" else None
                if rv is not None and self.obj[0] == "v" and f.ins[self.obj[1]].op == "alloca":
                    return            # the address is kept elsewhere: whoever has it may set it
                if rv is not None:
                    self.escaped = True
                    if self.summary_mode:
                        mask = 0
            elif i.op == "call":
                facts.pop(("v", i.id), None)
                if self.obj == ("v", i.id):
                    return             # a new object of its own
                res = self.call(i, facts, env, mask)
                if res is None:
                    return
                if len(res) == 1 and res[0][0] is None:
                    mask = res[0][1]
                else:
                    self.keep.add(("v", i.id))
                    for fact, m in res:
                        fc = dict(facts)
                        if fact is not None:
                            fc[("v", i.id)] = fact
                        yield (blk, k, frozenset(fc.items()), frozenset(env.items()), m)
                    return
                if i.d.get("nr") or i.callee in ("exit", "abort", "_exit"):
                    return
            elif i.op == "ret":
                v = i.d.get("v")
                own = False; rf = None
                if v:
                    r = self.resolve(v, env) if v[0] == "v" else None
                    if r is not None:
                        own = True; rf = ("ne", 0)
                    else:
                        c = self.canon(v, env)
                        if c[0] == "i":
                            rf = ("eq", c[1])
                        elif c[0] == "A":
                            rf = ("ne", 0)
                        elif c[0] == "I":
                            t = self.truth(c, facts)
                            rf = None if t is None else ("eq", 1 if t else 0)
                        else:
                            rf = facts.get(c)
                            if rf is not None and rf[0] not in ("eq", "ne"):
                                rf = None
                self.outs.add((rf, mask)); self.rets.add((rf, mask, own))
                return
            elif i.op == "br":
                s = i.d["s"]
                if "c" not in i.d or len(s) == 1:
                    yield self.enter(blk, s[0], facts, env, mask)
                    return
                c = self.canon(i.d["c"], env)
                t = self.truth(c, facts)
                if self.summary_mode and not env.get("G") and self.tag(c):
                    env["G"] = True
                if t is not False:
                    fc = dict(facts); self.assume(c, True, fc); yield self.enter(blk, s[0], fc, env, mask)
                if t is not True:
                    fc = dict(facts); self.assume(c, False, fc); yield self.enter(blk, s[1], fc, env, mask)
                return
            elif i.op == "switch":
                c = self.canon(i.d["c"], env)
                kn = facts.get(c)
                val = c[1] if c[0] == "i" else kn[1] if kn and kn[0] == "eq" else None
                for cv, b in i.d["cs"]:
                    x = cv[1] if isinstance(cv, list) else cv
                    if val is None or val == x:
                        fc = dict(facts)
                        if c in self.F.relevant:
                            fc[c] = ("eq", x)
                        yield self.enter(blk, b, fc, env, mask)
                if val is None or all(val != (cv[1] if isinstance(cv, list) else cv) for cv, _ in i.d["cs"]):
                    yield self.enter(blk, i.d["d"], facts, env, mask)
                return
            elif i.op == "unreachable":
                return

    want_rets = False

    def enter(self, frm, to, facts, env, mask):
        f = self.f
        new = {}
        for i in f.blocks[to]:
            if i.op != "phi":
                break
            v = next((x for x, b in i.d["in"] if b == frm), None)
            if v is None:
                continue
            facts.pop(("v", i.id), None)
            if i.id in self.F.ptrphi:
                r = self.resolve(v, env)
                if r is not None:
                    old = env.get(i.id)
                    if old and old[0] == "ptr" and old[1] != r:
                        o = old[1]
                        r = (min(o[0], r[0]), o[1] if o[0] <= r[0] else r[1], False, min(o[3], r[3]))
                    new[i.id] = ("ptr", r)
                    continue
            if i.id in self.F.feeds or i.id in self.F.ptrphi:
                c = self.canon(v, env)
                if c[0] in ("i", "I", "A") or c[0] in ("p", "v", "L") and (c in facts or i.ty == "p"):
                    if not (c[0] == "v" and c[1] == i.id):
                        new[i.id] = c
                        continue
            new[i.id] = None
        for a, b in new.items():
            if b is None:
                env.pop(a, None)
            else:
                env[a] = b
        return (to, 0, frozenset(facts.items()), frozenset(env.items()), mask)

    # ---- calls
    def call(self, i, facts, env, mask):
        """[(fact about the result, mask)]"""
        f = self.f; U = self.U
        refs = []
        for k, a in enumerate(i.args):
            if a[0] == "v":
                r = self.resolve(a, env)
                if r is not None:
                    refs.append((k, a, r))
        name = i.callee
        if name in NEVERFAILS and ("v", i.id) not in facts:
            self.keep.add(("v", i.id)); facts[("v", i.id)] = NEVERFAILS[name]
        if not refs:
            return [(None, mask)]
        if name and name.startswith("llvm.mem") or name in ("memcpy", "memmove", "memset"):
            n = i.args[2][1] if i.args[2][0] == "i" else None
            for k, a, r in refs:
                if k == 0:
                    b, exact = self.region(r, n)
                    if i.d.get("ai"):
                        mask |= b
                    else:
                        mask &= ~b
                        if not exact:
                            self.inexact |= b
                elif k == 1 and "memset" not in name:
                    b, exact = self.region(r, n)
                    if b and (mask & b) == b and (n or 0) > 0:
                        self.read(mask, b, i, "is copied", True)
                        mask &= ~b
            return [(None, mask)]
        if name in ("free", "xfree"):
            return None if self.obj[0] == "v" and f.ins[self.obj[1]].op == "call" else [(None, mask)]
        tg = U.cg.targets(f, i)
        if name is None and i.d["f"][0] == "v" and i.d["f"][1] in self.fnargs:
            t = U.cg.fn.get(self.fnargs[i.d["f"][1]])
            tg = [t] if t else tg
        if not tg:
            return self.external(i, name, refs, env, mask)
        outs = None
        for t in tg:
            cur = [(None, mask)]
            cs = []
            for j, a in enumerate(i.args[:t.nparams]):
                if a[0] == "f":
                    tf = U.P.func(f.unit, a[1])
                    if tf is not None:
                        cs.append((j, ("fn", tf.key)))
                    continue
                c = self.canon(a, env)
                if c[0] == "i":
                    cs.append((j, ("eq", c[1])))
                elif c[0] == "A":
                    cs.append((j, ("ne", 0)))
                elif i.d["ats"][j] == "p" and ( c[0] == "p" and c not in facts and c not in self.F.tested):
                    cs.append((j, ("ne", 0)))
                elif c[0] not in ("A", "I") and facts.get(c, ("",))[0] in ("eq", "ne"):
                    cs.append((j, facts[c]))
            consts = tuple(cs)
            for k, a, r in refs:
                if k >= t.nparams:
                    # variable arguments of a printing function
                    b, exact = self.region(r, 1)
                    if exact and not self.integer_arg(i, k) and not self.touched(mask, r):
                        self.read(mask, b, i, "is passed to %s()" % t.name)
                        mask &= ~b
                        cur = [(x, m & ~b) for x, m in cur]
                    continue
                so, sr = U.summary(t, k, consts)
                reg, exact = self.region(r)
                off = r[0]
                if not r[2]:
                    # some place in an array
                    for b, ri, what, al in sr:
                        if reg and (mask & reg) == reg:
                            self.read(mask, reg, i, "is passed to %s(), where it is read (line %d)" % (t.name, ri.line))
                            break
                    if any(m != FULL for _, m in so) or sr:
                        cur = [(x, m & ~reg) for x, m in cur]
                    continue
                for b, ri, what, al in sr:
                    bb = (b << off) & reg
                    if bb & mask == bb if al else bb & mask:
                        self.rd(env, mask, bb, i, "is passed to %s(), where it is read (line %d)" % (t.name, ri.line), al)
                        mask &= ~bb
                        cur = [(x, m & ~bb) for x, m in cur]
                nxt = set()
                for x, m in cur:
                    for rf, um in so:
                        keepbits = (um << off) & reg
                        m2 = (m & ~reg) | (m & keepbits)
                        if x is not None and rf is not None and x != rf:
                            if x[0] == "eq" and rf[0] == "eq" or x == ("eq", 0) and rf == ("ne", 0) or x == ("ne", 0) and rf == ("eq", 0):
                                continue
                        nxt.add((rf if rf is not None else x, m2))
                cur = list(nxt)
                if len(cur) > 12:
                    g = {}
                    for x, m in cur:
                        g[x] = g.get(x, 0) | m
                    cur = list(g.items())
            outs = cur if outs is None else outs + cur
        if not outs:
            return None        # does not return
        masks = {m for _, m in outs}
        if len(masks) == 1:
            return [(None, masks.pop())]
        return list(set(outs))

    def integer_arg(self, i, k):
        return i.d["ats"][k] != "p"

    def external(self, i, name, refs, env, mask):
        if name is None:
            return [(None, 0)] if not self.summary_mode else [(None, 0)]
        for k, a, r in refs:
            isr = k in RS.get(name, ()) or name in PRINTF and k > PRINTF[name] and i.d["ats"][k] == "p" and not self.pointer_printed(i, k, PRINTF[name])
            if isr:
                b, exact = self.region(r, 1)
                if exact and self.touched(mask, r):
                    pass
                elif exact:
                    self.read(mask, b, i, "is given to %s()" % name)
                    mask &= ~b
                elif b and (mask & b) == b:
                    self.read(mask, b, i, "is given to %s()" % name)
                    mask &= ~b
        forks = None
        for k, a, r in refs:
            w = [c for n, c in W.get(name, ()) if n == k]
            reg, _ = self.region(r)
            if w:
                if w[0] is None:
                    mask &= ~reg
                else:
                    forks = (w[0], reg)
            elif name in ("sscanf", "fscanf") and k >= 2:
                if mask & reg:
                    forks = (("scan", k - 1), reg) if forks is None else (("scan", min(k - 1, forks[0][1])), forks[1] | reg)
            elif name not in NOEFF and name not in PRINTF and name not in RS:
                mask &= ~reg
        if forks and mask & forks[1]:
            c, reg = forks
            if c[0] == "scan":
                out = []
                n = max(len(i.args) - 2, 1)
                for q in [-1] + list(range(0, n + 1)):
                    m = mask
                    for k, a, r in refs:
                        if k >= 2 and k - 1 <= q:
                            m &= ~self.region(r)[0]
                    out.append((("eq", q), m))
                return out
            other = ("eq", 0) if c == ("ne", 0) else ("eq", -1)
            if name in NEVERFAILS:
                return [(c, mask & ~reg)]
            return [(c, mask & ~reg), (other, mask)]
        return [(None, mask)]

    def pointer_printed(self, i, k, fa):
        return False


class Scalars(Explore):
    """local variables kept in registers: uses of a value that is unset on the path"""
    def __init__(self, U, f):
        Explore.__init__(self, U, f, ("none", 0), 1)
        self.cand = set(); ch = True
        while ch:
            ch = False
            for i in f.all():
                if i.op == "phi" and i.id not in self.cand and any(is_pat(x) or x[0] == "v" and x[1] in self.cand for x, _ in i.d["in"]):
                    self.cand.add(i.id); ch = True
        src = [b for i in f.all() if i.op == "phi" for x, b in i.d["in"] if is_pat(x)]
        self.need = set(src); todo = list(src)
        while todo:
            for p in f.preds(todo.pop()):
                if p not in self.need:
                    self.need.add(p); todo.append(p)

    def direct(self):
        """instructions using the pattern itself"""
        for i in self.f.all():
            if i.op == "phi" or i.d.get("ai"):
                continue
            for v in operands(i):
                if is_pat(v) and not (i.op == "store" and i.d.get("vt") == "i8") and v[2] != 8:
                    yield i

    def step(self, blk, idx, facts, env, mask):
        f = self.f; e = dict(env)
        un = {k[1] for k in e if isinstance(k, tuple) and k[0] == "U"}
        if not un and blk not in self.need:
            return
        if un:
            for i in f.blocks[blk][idx:]:
                if i.op in ("phi", "cast"):
                    continue
                for v in operands(i):
                    w = v
                    while w[0] == "v" and w[1] >= f.nparams and f.ins[w[1]].op == "cast":
                        w = f.ins[w[1]].d["a"][0]
                    if w[0] == "v" and w[1] in un:
                        self.reads.append((w[1], i, "is used", False)); un.discard(w[1])
                        e.pop(("U", w[1]), None)
        yield from Explore.step(self, blk, idx, facts, frozenset(e.items()), mask)

    def enter(self, frm, to, facts, env, mask):
        new = {}
        for i in self.f.blocks[to]:
            if i.op != "phi":
                break
            v = next((x for x, b in i.d["in"] if b == frm), None)
            if v is not None and i.id in self.cand:
                new[i.id] = is_pat(v) or v[0] == "v" and env.get(("U", v[1])) is True
        st = Explore.enter(self, frm, to, facts, env, mask)
        e = dict(st[3])
        for k, u in new.items():
            if u:
                e[("U", k)] = True; e.pop(k, None)
            else:
                e.pop(("U", k), None)
        return st[:3] + (frozenset(e.items()),) + st[4:]

    def resolve(self, v, env, depth=0):
        return None


def operands(i):
    out = []
    for k in ("p", "v", "c"):
        v = i.d.get(k)
        if isinstance(v, list) and v and isinstance(v[0], str):
            out.append(v)
    for k in ("a",):
        for v in i.d.get(k) or ():
            if isinstance(v, list) and v and isinstance(v[0], str):
                out.append(v)
    for v in i.d.get("idx") or ():
        if isinstance(v, list) and v and isinstance(v[0], list):
            out.append(v[0])
    return out


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def neg(c):
    if c[0] == "I":
        return ("I", NEG[c[1]], c[2], c[3])
    return c


def norm(c):
    return c


def mentions(c, key):
    if c == key:
        return True
    return isinstance(c, tuple) and any(mentions(x, key) for x in c if isinstance(x, tuple))


def cmpc(pr, a, b):
    if pr[0] == "u":
        a &= (1 << 64) - 1; b &= (1 << 64) - 1
        pr = "s" + pr[1:]
    return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pr]
