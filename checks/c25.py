"""C25: no loop runs forever once its input has ended."""
from collections import defaultdict
from sa.cg import CG, root
from sa.ctx import where

TECHNIQUE = "abstract interpretation of every reading loop with every source at its end: a cycle that reads, finds the end and comes round again with nothing else to stop it"
NOTE = ("Values are small constant sets; conditions not decided by them go both ways. A loop that also steps through something finite (a list, a counter, words of a line, configured entries) "
        "is taken to end by it; that the list itself is finite is assumed.")

EOFVAL = {"fgets": (0,), "getc": (-1,), "fgetc": (-1,), "_IO_getc": (-1,), "getchar": (-1,), "fread": (0,), "read": (0, -1), "readdir": (0,), "gets": (0,), "getline": (-1,), "fscanf": (-1,), "scanf": (-1,),
          "getw": (-1,)}
TOP = None
NO = frozenset()
LIMIT = 30000
# steps through something finite: its results differ from call to call and end
STEPS = frozenset(["strtok", "strtok_r", "xstrtok", "strsep", "cf_get_string", "cf_get_line", "getopt", "getopt_long", "wait", "waitpid"])


# loops read by hand: why they end
REVIEWED = {"fetch": "dbz: a short read of the key ends it unless the key is empty, and search() walks the table once"}


class Slow(Exception):
    pass


class Ev:
    """evaluates one function with every read at its end"""
    def __init__(self, prog, err):
        self.err = err; self.cg = CG(prog); self.prog = prog
        self.readers = self.cg.reaching(frozenset(EOFVAL))
        self.sums = {}; self._live = {}
        self.busy = set()

    def summary(self, k):
        """(set of results or TOP, reads on every path?) under the end of all input"""
        if k in self.sums:
            return self.sums[k]
        if k in self.busy:
            return {NO: TOP}
        self.busy.add(k)
        f = self.cg.fn[k]
        try:
            rs = self.walk(f, 0, {}, None)
            res = {}
            for v, r in rs:
                o = res.get(r, frozenset())
                res[r] = TOP if o is TOP or v is TOP or v == "nz" or len(o | v) > 6 else o | v
        except Slow:
            res = {NO: TOP}
        self.busy.discard(k)
        self.sums[k] = res
        return res

    STREAM = {"fgets": 2, "getc": 0, "fgetc": 0, "_IO_getc": 0, "fread": 3, "read": 0, "readdir": 0, "getline": 2, "fscanf": 0, "getw": 0}

    def source(self, f, v, seen=()):
        """where a stream comes from: its parameter, something that outlives the function, or the calls that opened it"""
        if v[0] == "v":
            if v[1] < f.nparams:
                return {("p", v[1])}
            if v[1] in seen:
                return set()
            i = f.ins[v[1]]
            if i.op == "phi":
                return set().union(*[self.source(f, x, tuple(seen) + (v[1],)) for x, _ in i.d["in"]])
            if i.op == "select":
                return set().union(*[self.source(f, x, tuple(seen) + (v[1],)) for x in i.d["a"][1:]])
            if i.op == "cast":
                return self.source(f, i.d["a"][0], tuple(seen) + (v[1],))
            if i.op == "call":
                return {("c", i.blk)}
            if i.op == "load":
                # a variable that is opened here is a source of this function's own
                a = root(f, i.d["p"])
                o = {("c", j.blk) for j in f.all() if j.op == "store" and root(f, j.d["p"]) == a and j.d["v"][0] == "v" and j.d["v"][1] >= f.nparams and f.ins[j.d["v"][1]].op == "call"}
                return o or {("g",)}
        return set()

    def keep(self, f, src, loop):
        """which of them make a read one of this loop's, or of the caller's, own source"""
        if loop is not None:
            return frozenset(x for x in src if x[0] != "c" or x[1] not in loop[1])
        return frozenset(x for x in src if x[0] != "c")

    # -- values
    def val(self, f, env, v):
        k = v[0]
        if k == "i":
            return frozenset([v[1]])
        if k == "n":
            return frozenset([0])
        if k in ("g", "f", "ce"):
            return "nz"
        if k == "v":
            return env.get(v[1], TOP)
        return TOP

    def cell(self, f, v):
        """a local or global scalar"""
        if v[0] == "g":
            return ("g", v[1])
        if v[0] == "v" and v[1] >= f.nparams:
            i = f.ins[v[1]]
            if i.op == "alloca":
                return ("a", i.id)
        return None

    def truth(self, f, env, v, want, out):
        """refine env under v == want; False when impossible"""
        x = self.val(f, env, v)
        if x is not TOP and x != "nz":
            x = {bool(y) for y in x}
            if want not in x:
                return False
        if x == "nz" and not want:
            return False
        if v[0] != "v" or v[1] < f.nparams:
            return True
        i = f.ins[v[1]]
        if i.op == "icmp" and i.d["pr"] in ("eq", "ne"):
            a, b = i.d["a"]
            if a[0] in ("i", "n"):
                a, b = b, a
            if b[0] in ("i", "n") and a[0] == "v":
                c = 0 if b[0] == "n" else b[1]
                eq = (i.d["pr"] == "eq") == want
                old = self.val(f, out, a)
                if eq:
                    if isinstance(old, frozenset) and c not in old:
                        return False
                    out[a[1]] = frozenset([c])
                else:
                    if isinstance(old, frozenset):
                        n = old - {c}
                        if not n:
                            return False
                        out[a[1]] = n
                    elif c == 0:
                        out[a[1]] = "nz"
                # through casts of the same value
                j = f.ins[a[1]] if a[1] >= f.nparams else None
                if j is not None and j.op == "cast" and j.d["k"] in ("zext", "sext") and j.d["a"][0][0] == "v" and eq and c in (0, 1):
                    return self.truth(f, env, j.d["a"][0], bool(c), out) if j.d.get("ot") == "i1" else True
        out[v[1]] = frozenset([1 if want else 0]) if i.ty == "i1" else out.get(v[1], TOP)
        return True

    def step(self, f, i, env, st):
        """one instruction; returns list of (env, read?) or None when control does not go on"""
        op = i.op
        if op == "call":
            n = i.callee
            ts = self.cg.targets(f, i)
            if self.cg.is_exit(f, i):
                return None
            r = TOP; rd = NO; more = {}
            if ts:
                for t in ts:
                    if t.key in self.readers:
                        m = self.summary(t.key)
                    else:
                        q = self.cg.retset.get(t.key, {"?"})
                        m = {NO: frozenset(q) if q and all(isinstance(x, int) for x in q) else TOP}
                    for k, v in m.items():
                        if k:
                            src = set()
                            for x in k:
                                if x[0] == "p":
                                    src |= self.source(f, i.args[x[1]]) if x[1] < len(i.args) else set()
                                else:
                                    src.add(x)
                            k = self.keep(f, src, st)
                        o = more.get(k, frozenset())
                        more[k] = TOP if o is TOP or v is TOP or len(o | v) > 6 else o | v
                if not more:
                    return None
            elif n in EOFVAL:
                r = frozenset(EOFVAL[n]); k = self.STREAM.get(n)
                rd = self.keep(f, self.source(f, i.args[k]) if k is not None and k < len(i.args) else {("g",)}, st)
            elif n == "feof":
                r = frozenset([0]) if self.err else "nz"
            elif n == "ferror":
                r = "nz" if self.err else frozenset([0])
            # memory the call may change
            e = dict(env)
            for k in list(e):
                if isinstance(k, tuple):
                    if k[0] == "g" or any(self.cell(f, a) == k for a in i.args) or k[0] == "a" and ts and False:
                        if k[0] == "g" and not ts:
                            continue
                        del e[k]
            out = []
            for rd, r in (more or {rd: r}).items():
                e2 = dict(e)
                if i.id is not None:
                    if r is TOP:
                        e2.pop(i.id, None)
                    else:
                        e2[i.id] = r
                out.append((e2, rd))
            return out
        e = env
        def put(x):
            e2 = dict(env)
            if x is TOP:
                e2.pop(i.id, None)
            else:
                e2[i.id] = x
            return [(e2, NO)]
        if op == "store":
            c = self.cell(f, i.d["p"])
            if c is not None:
                x = self.val(f, env, i.d["v"]); e2 = dict(env)
                if x is TOP:
                    e2.pop(c, None)
                else:
                    e2[c] = x
                return [(e2, NO)]
            return [(env, NO)]
        if op == "load":
            c = self.cell(f, i.d["p"])
            return put(env.get(c, TOP) if c is not None else TOP)
        if op == "cast":
            x = self.val(f, env, i.d["a"][0])
            if isinstance(x, frozenset) and i.d["k"] in ("trunc", "zext"):
                bits = int(str(i.ty)[1:]) if str(i.ty).startswith("i") and str(i.ty)[1:].isdigit() else 64
                if i.d["k"] == "trunc":
                    x = frozenset(((y + (1 << (bits - 1))) % (1 << bits)) - (1 << (bits - 1)) if bits > 1 else y & 1 for y in x)
                elif any(y < 0 for y in x):
                    x = TOP
            return put(x)
        if op == "icmp":
            a, b = self.val(f, env, i.d["a"][0]), self.val(f, env, i.d["a"][1])
            if isinstance(a, frozenset) and isinstance(b, frozenset) and len(a) * len(b) <= 16:
                return put(frozenset(int(self.cmp(i.d["pr"], x, y)) for x in a for y in b))
            if {a, b} == {"nz", frozenset([0])} and i.d["pr"] in ("eq", "ne"):
                return put(frozenset([int(i.d["pr"] == "ne")]))
            return put(TOP)
        if op == "bin":
            a, b = self.val(f, env, i.d["a"][0]), self.val(f, env, i.d["a"][1])
            k = i.d["k"]
            if isinstance(a, frozenset) and isinstance(b, frozenset) and len(a) * len(b) <= 9 and k in ("add", "sub", "xor", "and", "or", "mul"):
                g = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "xor": lambda x, y: x ^ y, "and": lambda x, y: x & y, "or": lambda x, y: x | y, "mul": lambda x, y: x * y}[k]
                z = frozenset(g(x, y) for x in a for y in b)
                return put(z if k not in ("add", "sub") or all(-8 <= x <= 8 for x in z) else TOP)
            return put(TOP)
        if op == "select":
            c = self.val(f, env, i.d["a"][0])
            xs = [self.val(f, env, x) for x in i.d["a"][1:]]
            if isinstance(c, frozenset) and len(c) == 1:
                return put(xs[0] if 1 in c or -1 in c else xs[1])
            return put(xs[0] | xs[1] if all(isinstance(x, frozenset) for x in xs) else TOP)
        if op == "gep" or op == "alloca":
            return put("nz") if op == "alloca" else put(TOP)
        return [(env, NO)]

    @staticmethod
    def cmp(p, x, y):
        if p[0] == "u":
            M = 1 << 64
            x, y = x % M, y % M
        p = p[1:] if p not in ("eq", "ne") else p
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]

    def live(self, f):
        """SSA values used at or after the start of each block"""
        if f.key in self._live:
            return self._live[f.key]
        n = len(f.blocks); use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; pu = [set() for _ in range(n)]
        def vs(v, out):
            if isinstance(v, list):
                if len(v) >= 2 and v[0] == "v" and isinstance(v[1], int):
                    out.add(v[1])
                else:
                    for x in v:
                        vs(x, out)
        for b, blk in enumerate(f.blocks):
            for i in blk:
                if i.op == "phi":
                    for x, p in i.d["in"]:
                        if x[0] == "v":
                            pu[p].add(x[1])
                else:
                    u = set()
                    for k, v in i.d.items():
                        if isinstance(v, list):
                            vs(v, u)
                    use[b] |= u - de[b]
                if i.id is not None:
                    de[b].add(i.id)
        # a branch learns about what it looks through: keep those values too
        lin = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(pu[b])
                for s in f.succs(b):
                    o |= lin[s]
                x = use[b] | (o - de[b])
                if x != lin[b]:
                    lin[b] = x; ch = True
        ph = [set(x[1] for i in blk if i.op == "phi" for x, _ in i.d["in"] if x[0] == "v") for blk in f.blocks]
        self._live[f.key] = [lin[b] | ph[b] | {i.id for i in f.blocks[b] if i.op == "phi"} for b in range(n)]
        return self._live[f.key]

    def walk2(self, f, head, prev, env, loop):
        return self.walk(f, head, env, loop, prev)

    def walk(self, f, start, env0, loop, prev0=None):
        """from block start; loop None: [(result, read?)] at returns; else states coming back to the head"""
        out = []; n = 0
        todo = [(start, prev0, env0, NO, ())]
        def todo2(f, b, e, r, tr):
            blk = f.blocks[b]
            t = blk[-1]
            if t.op == "ret":
                if loop is None:
                    out.append((self.val(f, e, t.d["v"]) if t.d.get("v") else frozenset([0]), r))
                return
            if t.op == "br" and t.d.get("c"):
                nx = []
                for s, want in ((t.d["s"][0], True), (t.d["s"][1], False)):
                    e2 = dict(e)
                    if self.truth(f, e, t.d["c"], want, e2):
                        nx.append((s, e2))
            elif t.op == "switch":
                x = self.val(f, e, t.d["c"]); nx = []
                cs = t.d["cs"]
                for c, s in cs:
                    if isinstance(x, frozenset) and c not in x or x == "nz" and c == 0:
                        continue
                    e2 = dict(e)
                    if t.d["c"][0] == "v":
                        e2[t.d["c"][1]] = frozenset([c])
                    nx.append((s, e2))
                if not isinstance(x, frozenset) or x - {c for c, _ in cs}:
                    nx.append((t.d["d"], e))
            else:
                nx = [(s, e) for s in f.succs(b)]
            for s, e2 in nx:
                if loop is not None:
                    if s == loop[0]:
                        out.append((b, e2, r, tr + (b,))); continue
                    if s not in loop[1]:
                        continue
                todo.append((s, b, e2, r, tr + (b,) if len(tr) < 60 else tr))

        seen = set()
        while todo:
            b, prev, env, rd, tr = todo.pop()
            n += 1
            if n > LIMIT:
                raise Slow()
            lv = self.live(f)[b]
            env = {k: v for k, v in env.items() if isinstance(k, tuple) or k in lv or k < f.nparams}
            key = (b, prev if any(i.op == "phi" for i in f.blocks[b]) else None, tuple(sorted(((str(k), tuple(sorted(v)) if isinstance(v, frozenset) else v) for k, v in env.items()))), rd)
            if key in seen:
                continue
            seen.add(key)
            blk = f.blocks[b]
            e = dict(env)
            new = {}
            for i in blk:
                if i.op == "phi":
                    x = TOP
                    for y, p in i.d["in"]:
                        if p == prev:
                            x = self.val(f, env, y)
                    if prev is None:
                        x = env.get(i.id, TOP)
                    new[i.id] = x
            for k, x in new.items():
                if x is TOP:
                    e.pop(k, None)
                else:
                    e[k] = x
            cur = [(e, rd)]
            for i in blk[:-1]:
                if i.op == "phi":
                    continue
                nxt = {}
                for e, r in cur:
                    for e2, q in self.step(f, i, e, loop) or ():
                        nxt.setdefault((repr(sorted(map(repr, e2.items()))), r | q) if len(cur) > 1 or i.op == "call" else 0, (e2, r | q))
                cur = list(nxt.values())
                if not cur:
                    break
            for e, r in cur:
                todo2(f, b, e, r, tr)
        return out

def dominators(f):
    from sa.bounds import Fn
    return Fn(f, None, ())


def loops(f, a):
    """natural loops: head -> body blocks"""
    L = defaultdict(set)
    for b in range(len(f.blocks)):
        for s in f.succs(b):
            if a.dominates(s, b):
                body = {s, b}; st = [b]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in f.preds(x):
                        if p not in body:
                            body.add(p); st.append(p)
                L[s] |= body
    return L


def varies(ev, f, head, body, v, seen):
    """does a condition depend on something that steps: a counter, a list, words"""
    if v[0] != "v" or v[1] < f.nparams or v[1] in seen:
        return False
    seen.add(v[1])
    i = f.ins[v[1]]
    if i.blk not in body:
        return False
    if i.op == "phi" and i.blk == head:
        for x, p in i.d["in"]:
            if p in body and x[0] == "v" and moved(ev, f, i.id, x, set()):
                return True
    if i.op == "call":
        return steps(ev, f, i)
    if i.op == "load":
        # a place in memory the loop itself moves on
        a = root(f, i.d["p"])
        for b in body:
            for j in f.blocks[b]:
                if j.op == "store" and root(f, j.d["p"]) == a and j.d["v"][0] == "v" and j.d["v"][1] >= f.nparams:
                    k = f.ins[j.d["v"][1]]
                    if k.op in ("bin", "gep") and any(y[0] == "v" and y[1] >= f.nparams and f.ins[y[1]].op == "load" and root(f, f.ins[y[1]].d["p"]) == a for y in (k.d["a"] if k.op == "bin" else [k.d["p"]])):
                        return True
        return False
    ops = []
    if i.op == "phi":
        ops = [x for x, _ in i.d["in"]]
    elif i.op == "gep":
        ops = [i.d["p"]] + [x[0] for x in i.d["idx"]]
    elif "a" in i.d:
        ops = i.d["a"]
    return any(varies(ev, f, head, body, x, seen) for x in ops)


def steps(ev, f, i):
    if i.callee in STEPS:
        return True
    ts = ev.cg.targets(f, i)
    return bool(ts) and all(t.ret == "p" and t.key not in ev.readers and ev.cg.mod_g.get(t.key) for t in ts)


def moved(ev, f, phi, x, seen):
    """is x the phi moved on: plus something, or loaded from where it points"""
    if x[0] != "v" or x[1] < f.nparams or x[1] in seen:
        return False
    seen.add(x[1])
    i = f.ins[x[1]]
    if i.op == "bin" or i.op == "gep":
        ops = (i.d["a"] if i.op == "bin" else [i.d["p"]])
        return any(y == ["v", phi] or moved(ev, f, phi, y, seen) for y in ops)
    if i.op == "load":
        p = i.d["p"]
        while p[0] == "v" and p[1] >= f.nparams and f.ins[p[1]].op in ("gep", "cast"):
            j = f.ins[p[1]]
            p = j.d["p"] if j.op == "gep" else j.d["a"][0]
        return p == ["v", phi] or moved(ev, f, phi, p, seen)
    if i.op == "cast":
        y = i.d["a"][0]
        return moved(ev, f, phi, y, seen)
    if i.op == "phi":
        return any(moved(ev, f, phi, y, seen) for y, _ in i.d["in"])
    if i.op == "call":
        return steps(ev, f, i)
    return False


def run(ctx):
    ctx.rule("With every read reporting the end of its source, no loop comes round again having read, unless an exit of the loop hangs on something else that steps.")
    r = ctx.repo
    seen = set(); nl = nr = fin = slow = 0
    for pn, err in [(p, e) for p in sorted(r.progs) for e in (False, True)]:
        ev = Ev(r.progs[pn], err)
        for k, f in sorted(ev.cg.fn.items()):
            if (f.unit, f.name, err) in seen:
                continue
            seen.add((f.unit, f.name, err))
            if k not in ev.readers and not any(i.callee in EOFVAL for i in f.calls()):
                continue
            a = dominators(f)
            for head, body in sorted(loops(f, a).items()):
                nl += 1
                rd = [i for b in body for i in f.blocks[b] if i.op == "call" and (i.callee in EOFVAL and not ev.cg.targets(f, i) or any(t.key in ev.readers for t in ev.cg.targets(f, i)))]
                if not rd:
                    continue
                nr += 1
                st = [(None, {}, NO, ())]
                try:
                    for _ in range(3):
                        nx = {}
                        for prev, env, _, _ in st:
                            # values carried round
                            e = dict(env)
                            for x in ev.walk2(f, head, prev, e, (head, body)):
                                if x[2]:
                                    nx.setdefault((x[0], tuple(sorted((str(q), str(w)) for q, w in x[1].items()))), x)
                        st = list(nx.values())[:40]
                        if not st:
                            break
                except Slow:
                    slow += 1; continue
                if not st:
                    continue
                if f.name in REVIEWED:
                    fin += 1; continue
                # anything else that ends it?
                ex = [(b, f.blocks[b][-1]) for b in body if any(s not in body for s in f.succs(b))]
                if any(varies(ev, f, head, body, t.d["c"], set()) for b, t in ex if t.op in ("br", "switch") and t.d.get("c")):
                    fin += 1; continue
                ln = [q for q in (f.blocks[b][-1].line for b in st[0][3]) if q]
                ctx.violation("%s|%s" % (f.name, rd[0].callee or "?"), where(f, rd[0].line), "the loop at line %d goes on after %s has reported %s" % (min(ln or [f.line]), rd[0].callee, "an error" if err else "the end"), ["line %d" % q for q in ln[:20]])
    ctx.count("loops", nl)
    ctx.cov["loops_that_read"] = nr; ctx.cov["loops_ended_by_something_else"] = fin; ctx.cov["loops_too_slow"] = slow
    ctx.floor("reading loops", nr, 40)
