"""C27: allocated memory is given back once and not used afterwards."""
import multiprocessing
from collections import defaultdict
from sa.cg import CG, EXT_PURE
from sa.conds import Conds, peel
from sa.ctx import where
from checks.c20 import Roots

TECHNIQUE = "typestate of allocated memory over LLVM IR: every call that gives memory back, followed along all paths with the pointer, what is derived from it and the place it was read from"
NOTE = ("The analysis follows one function at a time with a summary of which functions give back what a parameter points to on every path. A pointer kept in two records, and memory given back in one function "
        "and reached through a record or a global in another, are not followed; lists and tables given back as a whole are C20's.")
FREE = {"free": 0, "xfree": 0, "realloc": 0, "xrealloc": 0}


class Fn:
    def __init__(self, cg, f):
        self.cg = cg; self.f = f; self.memo = {}

    def key(self, v, d=0):
        """a name for a pointer value: the way it was reached"""
        if v[0] == "g":
            g = self.cg.prog.glob(self.f.unit, v[1])
            return ("G", g.key if g else v[1])
        if v[0] != "v" or d > 12:
            return ("?", str(v))
        n = v[1]
        if n < self.f.nparams:
            return ("P", n)
        if n in self.memo:
            return self.memo[n]
        i = self.f.ins.get(n)
        if i is None:
            k = ("?", n)
        elif i.op == "alloca":
            k = ("A", n)
        elif i.op == "cast":
            k = self.key(i.d["a"][0], d + 1)
        elif i.op == "gep" and not i.d["idx"]:
            k = self.key(i.d["p"], d + 1)
            k = ("+", k, i.d["off"]) if i.d["off"] else k
        elif i.op == "load":
            k = ("*", self.key(i.d["p"], d + 1))
        else:
            k = ("S", n)
        self.memo[n] = k
        return k


def parts(k):
    while True:
        yield k
        if k[0] in ("*", "+"):
            k = k[1]
        else:
            return


def ids(k):
    for x in parts(k):
        if x[0] in ("S", "?"):
            yield x[1]


class C27:
    def __init__(self, cg):
        self.cg = cg
        self.frees = defaultdict(set)
        self.dang = defaultdict(set)       # places left pointing at memory given back when the function returns
        self.fns = {}; self._t = {}; self.memo = {}
        self.c = {}
        ch = True
        while ch:
            ch = False
            for f in cg.fn.values():
                for n, p in enumerate(f.params):
                    if p[1] == "p" and n not in self.frees[f.key] and self.must(f, n):
                        self.frees[f.key].add(n); ch = True
        self.R = Roots(cg); self.R.solve()
        self.owned = {r for f in cg.fn.values() for r in self.R.retroots[f.key] if r[0] == "g"}

    def fn(self, f):
        if f.key not in self.fns:
            self.fns[f.key] = Fn(self.cg, f)
        return self.fns[f.key]

    def conds(self, f):
        if f.key not in self.c:
            self.c[f.key] = Conds(f)
        return self.c[f.key]

    def tested(self, f):
        """(values tested in some branch, values tested in more than one)"""
        if f.key not in self._t:
            n = defaultdict(set)
            for b in f.blocks:
                for s in f.succs(b[-1].blk):
                    at = []
                    self.conds(f).edge(b[-1].blk, s, at)
                    for v, op, c in at:
                        if v[0] == "v" and op in ("eq", "ne") and isinstance(c, int):
                            n[v[1]].add(b[-1].blk)
            one = set(n)
            ch = True
            while ch:                       # what a tested phi is made of
                ch = False
                for i in f.all():
                    if i.op == "phi" and i.id in one:
                        for x, _ in i.d["in"]:
                            if x[0] == "v" and x[1] not in one:
                                one.add(x[1]); ch = True
            self._t[f.key] = one, {k for k in one if len(n[k]) != 1}
        return self._t[f.key]

    def freed_args(self, f, i):
        """arguments whose memory the call gives back"""
        n = i.callee
        if n in FREE:
            return [FREE[n]] if FREE[n] < len(i.args) else []
        ts = self.cg.targets(f, i)
        if not ts:
            return []
        s = None
        for t in ts:
            s = set(self.frees[t.key]) if s is None else s & self.frees[t.key]
        return [x for x in s if x < len(i.args)]

    def must(self, f, n):
        if not f.blocks:
            return False
        F = self.fn(f); seen = set(); work = [0]; some = False
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b); stop = False
            for i in f.blocks[b]:
                if i.op == "call":
                    if self.cg.is_exit(f, i):
                        stop = True; break
                    if any(F.key(i.args[k]) == ("P", n) for k in self.freed_args(f, i)):
                        stop = some = True; break
                if i.op == "ret":
                    return False
            if not stop:
                for s in f.succs(b):
                    at = []
                    self.conds(f).edge(b, s, at)
                    if any(v == ["v", n] and op == "eq" and c == 0 for v, op, c in at):
                        continue
                    work.append(s)
        return some

    def start(self, f, i, k):
        """ids that denote the memory given back by argument k of call i, and the slots it was read from"""
        F = self.fn(f); v = i.args[k]
        if v[0] != "v":
            return set(), set()
        key = F.key(v)
        live = {v[1]}
        ch = True
        while ch:
            ch = False
            for j in f.all():
                if j.id in live or j.id is None:
                    continue
                if j.op == "gep" and j.d["p"][0] == "v" and j.d["p"][1] in live or j.op == "cast" and j.d["a"][0][0] == "v" and j.d["a"][0][1] in live:
                    live.add(j.id); ch = True
        b = v
        while b[0] == "v" and b[1] >= f.nparams and f.ins[b[1]].op == "cast":
            b = f.ins[b[1]].d["a"][0]; live.add(b[1]) if b[0] == "v" else None
        slots = {key} if key[0] == "*" and not any(x[0] == "?" for x in parts(key)) else set()
        if slots and not self.stands(f, v, i, slots):
            slots = set()
        return live, slots

    def stands(self, f, v, i, slots):
        """the place v was read from is not set anew on any path from there to i"""
        while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op in ("cast", "gep"):
            j = f.ins[v[1]]; v = j.d["p"] if j.op == "gep" else j.d["a"][0]
        d = f.ins.get(v[1]) if v[0] == "v" else None
        if d is None:
            return False
        # blocks from which i can be reached without passing the load again
        back = {i.blk}; work = [i.blk]
        while work:
            b = work.pop()
            if b == d.blk and not (b == i.blk and i.idx < d.idx):
                continue
            for p in f.preds(b):
                if p not in back:
                    back.add(p); work.append(p)
        seen = set(); work = [(d.blk, d.idx + 1)]
        while work:
            b, k = work.pop()
            stop = False
            for idx in range(k, len(f.blocks[b])):
                j = f.blocks[b][idx]
                if j is i or j is d:
                    stop = True; break
                if j.op in ("store", "call") and self.killslots(f, j, slots) != slots:
                    return False
            if not stop:
                for s in f.succs(b):
                    if s in back and s not in seen:
                        seen.add(s); work.append((s, 0))
        return True

    def killslots(self, f, i, slots):
        if not slots:
            return slots
        F = self.fn(f); out = set(slots)
        if i.op == "store":
            pk = F.key(i.d["p"])
            for s in slots:
                if any(x[0] == "*" and x[1] == pk for x in parts(s)):
                    out.discard(s)
                elif pk[0] in ("S", "?") and any(x[0] == "*" and x[1][0] not in ("A", "G") for x in parts(s)):
                    out.discard(s)
        elif i.op == "call":
            if i.callee in FREE or (i.callee or "").startswith("llvm."):
                return slots
            ts = self.cg.targets(f, i)
            ak = [F.key(a) for a in i.args if a[0] in ("v", "g")]
            mg = set(); mf = False
            for t in ts:
                mg |= self.cg.mod_g[t.key]; mf = mf or bool(self.cg.mod_f[t.key])
            for s in slots:
                ps = list(parts(s))
                root = ps[-1]
                if any(x in ak for x in ps if x[0] != "*" or x is not s) and (ts or i.callee not in EXT_PURE):
                    out.discard(s)
                elif root[0] == "G" and (root[1] in mg):
                    out.discard(s)
                elif mf and sum(1 for x in ps if x[0] == "*") > (1 if root[0] in ("A", "G") else 0):
                    out.discard(s)
                elif not ts and i.callee not in EXT_PURE and i.callee is None:
                    out.discard(s)
        return out

    def trans(self, f, i, key):
        """a callee's key seen from call i"""
        if key[0] == "P":
            if key[1] >= len(i.args):
                return ("?", 0)
            return self.fn(f).key(i.args[key[1]])
        if key[0] == "*":
            return ("*", self.trans(f, i, key[1]))
        if key[0] == "+":
            k = self.trans(f, i, key[1]); off = key[2]
            if k[0] == "+":
                k, off = k[1], k[2] + off
            return ("+", k, off) if off else k
        return key

    def follow(self, f, i0, k):
        m = (f.key, i0.blk, i0.idx, k)
        if m not in self.memo:
            self.memo[m] = self._follow(f, i0, k)
        return self.memo[m]

    def _follow(self, f, i0, k):
        F = self.fn(f)
        if isinstance(k, tuple):
            key = self.trans(f, i0, k)
            if any(x[0] == "?" for x in parts(key)):
                return []
            live0, slots0 = set(), {key}
        else:
            live0, slots0 = self.start(f, i0, k)
            slots0 = self.killslots(f, i0, slots0)
        live0.discard(i0.id)
        out = []; seen = set()
        once, twice = self.tested(f)
        facts0 = frozenset((v[1], op, c) for v, op, c in self.conds(f).at(i0.blk) if v[0] == "v" and v[1] in once and op in ("eq", "ne") and isinstance(c, int))
        work = [(i0.blk, i0.idx + 1, frozenset(live0), frozenset(slots0), facts0)]
        while work:
            b, k, live, slots, facts = work.pop()
            blk = f.blocks[b]; dead = False
            for idx in range(k, len(blk)):
                i = blk[idx]
                if i.op == "phi":
                    continue
                if i.id is not None and i.id in live and i.op not in ("gep", "cast"):
                    live = live - {i.id}
                if i.id is not None and facts:
                    facts = frozenset(x for x in facts if x[0] != i.id)
                if i.id is not None and slots:
                    slots = frozenset(s for s in slots if i.id not in ids(s))
                if i.op == "call":
                    if (i.callee or "").startswith("llvm."):
                        continue
                    if any(a[0] == "v" and a[1] in live for a in i.args):
                        out.append((i, "given to %s()" % (i.callee or "a function"))); dead = True; break
                    if self.cg.is_exit(f, i):
                        dead = True; break
                    slots = frozenset(self.killslots(f, i, slots))
                elif i.op == "load":
                    if i.d["p"][0] == "v" and i.d["p"][1] in live:
                        out.append((i, "read")); dead = True; break
                    if F.key(["v", i.id]) in slots:
                        live = live | {i.id}
                elif i.op == "store":
                    if i.d["p"][0] == "v" and i.d["p"][1] in live:
                        out.append((i, "written")); dead = True; break
                    v = i.d["v"]
                    slots = frozenset(self.killslots(f, i, slots))
                elif i.op in ("gep", "cast"):
                    o = i.d["p"] if i.op == "gep" else i.d["a"][0]
                    if i.op == "cast" and i.d["k"] not in ("bitcast", "addrspacecast"):
                        continue
                    live = (live | {i.id}) if o[0] == "v" and o[1] in live else live - {i.id}
                elif i.op == "select":
                    if any(x[0] == "v" and x[1] in live for x in i.d["a"][1:]):
                        live = live | {i.id}
                elif i.op == "ret":
                    for x in slots:
                        if list(parts(x))[-1][0] in ("P", "G") and sum(1 for _ in parts(x)) < 8:
                            self.dang[f.key].add(x)
                    if i.d.get("v", ["i"])[0] == "v" and i.d["v"][1] in live:
                        out.append((i, "returned"))
            if dead or not live and not slots:
                continue
            for s in f.succs(b):
                at = []
                self.conds(f).edge(b, s, at)
                # the pointer given back was not NULL
                if any(v[0] == "v" and v[1] in live and op == "eq" and c == 0 for v, op, c in at):
                    continue
                if any((x[0], x[1], x[2]) == (v[1], {"eq": "ne", "ne": "eq"}[op], c) or x[0] == v[1] and x[1] == op == "eq" and x[2] != c
                       for v, op, c in at if v[0] == "v" and op in ("eq", "ne") and isinstance(c, int) for x in facts):
                    continue
                nf = set(facts) | {(v[1], op, c) for v, op, c in at if v[0] == "v" and v[1] in twice and op in ("eq", "ne") and isinstance(c, int)}
                nl = set(live); add = set(); rem = set(); pf = set()
                for i in f.blocks[s]:
                    if i.op != "phi":
                        break
                    inc = [x for x, pb in i.d["in"] if pb == b]
                    (add if any(x[0] == "v" and x[1] in live for x in inc) else rem).add(i.id)
                    if i.id not in once:
                        continue
                    if len(inc) == 1 and inc[0][0] in ("i", "n"):
                        pf.add((i.id, "eq", inc[0][1] if inc[0][0] == "i" else 0))
                    elif len(inc) == 1 and inc[0][0] == "v":
                        pf |= {(i.id, op, c) for n, op, c in nf if n == inc[0][1]}
                nl = frozenset((nl - rem) | add)
                ns = frozenset(x for x in slots if not any(n in rem | add for n in ids(x)))
                nf = frozenset({x for x in nf if x[0] not in rem | add} | pf)
                st = (s, nl, ns, nf)
                if (nl or ns) and st not in seen and len(seen) < 5000:
                    seen.add(st); work.append((s, 0, nl, ns, nf))
        return out

    def run(self):
        n = 0; out = {}; smp = []
        ch = True; rounds = 0
        while ch and rounds < 5:
            rounds += 1
            before = sum(len(x) for x in self.dang.values())
            self.rnd(out := {})
            ch = sum(len(x) for x in self.dang.values()) != before
        self.nd = sum(len(x) for x in self.dang.values())
        for f in self.cg.fn.values():
            for i in list(f.calls()):
                for k in self.freed_args(f, i):
                    n += 1
                    if len(smp) < 3 and i.callee not in FREE:
                        smp.append("%s: %s() gives back its argument %d" % (where(f, i.line), i.callee, k))
                    if i.callee in FREE:
                        a = i.args[k]
                        while a[0] == "v" and a[1] >= f.nparams and f.ins[a[1]].op in ("gep", "cast"):
                            j = f.ins[a[1]]; a = j.d["p"] if j.op == "gep" else j.d["a"][0]
                        bads = set()
                        if a[0] == "g":
                            bads.add("a static buffer")
                        elif a[0] == "v" and a[1] >= f.nparams and f.ins[a[1]].op == "alloca":
                            bads.add("a local variable")
                        elif not f.name.startswith("tmps_"):
                            for r in self.R.of(f, i.args[k]):
                                if r[0] == "l" and (r[1] in ("pool:tmps", "pool:dir") or r[1].startswith("libc:")):
                                    bads.add("storage that is not the caller's (%s)" % r[1])
                                elif r[0] == "g" and r in self.owned:
                                    bads.add("the static buffer of a function (%s)" % r[1])
                        for bad in bads:
                            out[("%s|%s|not allocated" % (f.name, i.callee), where(f, i.line), "%s() is given %s" % (i.callee, bad))] = 1
                    for use, how in self.follow(f, i, k):
                        out[("%s|%s|%s" % (f.name, i.callee, use.callee if use.op == "call" else how), where(f, use.line),
                             "memory given back by %s() (line %d) is %s here" % (i.callee, i.line, how))] = 1
        return n, list(out), smp

    def rnd(self, out):
        """one round over places left pointing at memory a callee gave back"""
        for f in self.cg.fn.values():
            for i in list(f.calls()):
                for k in self.freed_args(f, i):
                    self.follow(f, i, k)
                ts = self.cg.targets(f, i)
                for t in ts:
                    for k in list(self.dang[t.key]):
                        if len(ts) > 1 and not all(k in self.dang[x.key] for x in ts):
                            continue
                        for use, how in self.follow(f, i, k):
                            out[("%s|%s|left %s" % (f.name, i.callee, use.callee if use.op == "call" else how), where(f, use.line),
                                 "memory %s() gave back (line %d) without resetting what points to it is %s here" % (i.callee, i.line, how))] = 1


def one(pn):
    return C27(CG(_repo.progs[pn])).run()


_repo = None


def run(ctx):
    global _repo
    ctx.rule("For every call that gives memory back (free, xfree, realloc, and functions that do so with a parameter on every path): no path leads from it to a read, write, return or second "
             "release through the same pointer, a pointer into it, or the pointer read again from where it was kept, unless that was set anew in between.")
    ctx.rule("What is given back was allocated: not a local variable, a static buffer or a string of the temporary pool.")
    ctx.assumption("a function that is given the record a pointer is kept in may set it anew")
    _repo = ctx.repo
    total = 0
    progs = sorted(_repo.progs, key=lambda p: -len(list(_repo.progs[p].funcs())))
    with multiprocessing.get_context("fork").Pool(8) as pl:
        for n, out, smp in pl.imap_unordered(one, progs, 1):
            total += n
            for v in out:
                ctx.violation(*v)
            for x in smp:
                ctx.sample(x)
    ctx.floor("releases_followed", total, 100)
