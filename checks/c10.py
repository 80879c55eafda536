"""C10: every opened stream, directory and descriptor is released exactly once, by its own kind of close."""
import os, signal
from multiprocessing import Pool
from sa.cg import CG, root, ZERO, TOP, HI, LO
from sa.sim import Sim, St, Client, trace
from sa.ctx import where
from sa import ir

TECHNIQUE = "typestate analysis per acquisition site, interprocedural and path-sensitive, with inferred ownership-transferring functions"
NOTE = ("One site at a time. A stream kept in a global or in a record is not followed for leaks, and dbz.c (a third-party library) is outside the stored-stream rule; a helper that closes its argument, or returns a stream "
        "it has opened, is recognised by analysis, not by name. Paths that end the process are not leaks.")
KIND = {"fopen": "fclose", "fdopen": "fclose", "popen": "pclose", "opendir": "closedir", "open": "close", "creat": "close", "mkstemp": "close", "tmpfile": "fclose"}
CLOSERS = frozenset(KIND.values())
FDS = {"open", "creat", "mkstemp"}
LIVE = (1000, HI, True)
FAIL = {True: (-1, -1, True, None), False: ZERO}
STD = ("stdin", "stdout", "stderr")
# arguments of these are not uses of the stream (they only hand its value on)
HARMLESS = frozenset(["llvm.lifetime.end.p0", "llvm.lifetime.start.p0"])
ITSELF = frozenset(["fglog", "debug"])


def flows(prog, cg):
    """(function, parameter) -> set of "close"/"store" """
    res = {}
    work = True
    local = {}
    for k, f in cg.fn.items():
        acts = {}
        al = {j: {j} for j in range(f.nparams)}
        ch = True
        while ch:
            ch = False
            for i in f.all():
                ops = []
                if i.op == "phi":
                    ops = [v for v, _ in i.d["in"]]
                elif i.op in ("cast", "select"):
                    ops = i.d["a"]
                for v in ops:
                    if v[0] == "v" and v[1] in al:
                        n = al.setdefault(i.id, set())
                        if not al[v[1]] <= n:
                            n |= al[v[1]]; ch = True
        for i in f.all():
            if i.op == "store":
                v = i.d["v"]
                if v[0] == "v" and v[1] in al:
                    for j in al[v[1]]:
                        res.setdefault((k, j), set()).add("store")
            elif i.op == "call":
                for n, v in enumerate(i.args):
                    if v[0] == "v" and v[1] in al:
                        for j in al[v[1]]:
                            ts = cg.targets(f, i)
                            if ts:
                                for t in ts:
                                    local.setdefault((k, j), set()).add((t.key, n))
                            elif i.callee in CLOSERS or i.callee == "fdopen":
                                res.setdefault((k, j), set()).add("close")
    while work:
        work = False
        for a, bs in local.items():
            for b in bs:
                x = res.get(b)
                if x and not x <= res.get(a, set()):
                    res.setdefault(a, set()).update(x); work = True
    return res


class TS(Client):
    events = CLOSERS
    maxenv = 8

    def __init__(self, fkey, iid, kind, tfree):
        self.at = (fkey, iid); self.kind = kind; self.closer = KIND[kind]; self.fd = kind in FDS
        self.bad = {}; self.given = False; self.kept = False; self.closed = 0; self.tfree = tfree


    def load(self, sim, f, i, st, addr):
        p = i.d["p"]
        if p[0] == "g" and p[1] in STD:
            return (500, 500, True, None)
        return None

    def mine(self, v):
        return v[3] == "RES"

    def report(self, f, line, what, st):
        self.bad.setdefault((f.key, line, what), st.tr)

    def call(self, sim, f, i, name, targets, st, args):
        if (f.key, i.id) == self.at:
            out = []
            if st.prop == "open":
                # the value of the earlier round is gone: leaked
                self.report(f, i.line, "is opened again while the one before is still open", st)
            e = dict(st.env)
            for k in [k for k, v in e.items() if isinstance(v, tuple) and len(v) == 4 and v[3] == "RES"]:
                e[k] = e[k][:3] + (None,)
            out.append((St("open", e, (st.tr, i.line, "%s succeeds" % (name or "open"))), LIVE + ("RES",)))
            out.append((St("none", dict(e), st.tr), FAIL[self.fd]))
            return out
        if st.prop in ("none", None):
            return None
        hit = [n for n, a in enumerate(args) if self.mine(a)]
        if not hit or name in HARMLESS:
            return None
        if targets:
            if st.prop == "closed" and not any(("close" in self.tfree.get((t.key, n), ()) or "store" in self.tfree.get((t.key, n), ())) for t in targets for n in hit):
                self.report(f, i.line, "is used after it was closed (%s)" % name, st)
            return None
        if name in CLOSERS or name == "fdopen":
            if name != "fdopen" and name != self.closer:
                self.report(f, i.line, "is released with %s, but was obtained with %s" % (name, self.kind), st)
            if st.prop == "closed":
                self.report(f, i.line, "is closed twice", st)
            self.closed += 1
            n = St("closed", dict(st.env), (st.tr, i.line, "%s" % name))
            if name == "fdopen":
                # the stream owns the descriptor; on failure it still has to be closed
                return [(St("esc", dict(st.env), st.tr), LIVE + (None,)), (st, ZERO)]
            return [(n, TOP)]
        if st.prop == "closed":
            self.report(f, i.line, "is used after it was closed (%s)" % name, st)
        elif name is None:
            return [(St("esc", dict(st.env), st.tr), TOP)]
        return None

    def store(self, sim, f, i, st, addr, val):
        if st.prop == "open" and self.mine(val):
            b = sim.resolve(f, i.d["p"], st.env)[0]
            if b[0] != "A":
                st.prop = "esc"

    def ret(self, sim, f, i, st, val):
        if st.prop == "esc" and self.mine(val) and not self.fd and f.name != "main":
            self.kept = True
        if st.prop == "open":
            if self.mine(val):
                self.given = True
            elif f.name != "main":
                self.report(f, i.line, "is still open when %s returns" % f.name, st)


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow()


def one(job):
    pn, fk, iid, kind, line = job
    prog, cg, fl, rel = CACHE[pn]
    f = cg.fn[fk]
    cl = TS(fk, iid, kind, fl)
    s = Sim(prog, cg, cl)
    s.relevant = rel - {fk}
    signal.signal(signal.SIGALRM, alarm)
    try:
        signal.alarm(100)
        s.run(f, "none", {})
        signal.alarm(0)
    except (Slow, ir.Broken):
        signal.alarm(0)
        return job, None, None, False, False
    return job, {k: trace(v) for k, v in cl.bad.items()}, cl.closed, cl.given, cl.kept


CACHE = {}


def setup(r):
    for pn in sorted(r.progs):
        p = r.progs[pn]
        cg = CG(p)
        fl = flows(p, cg)
        rel = {k for (k, j), v in fl.items() if "close" in v or "store" in v}
        CACHE[pn] = (p, cg, fl, rel - {k for k in rel if cg.fn[k].name in ITSELF})


def closes(cg, fl, f, i):
    """arguments of the call i that it closes"""
    ts = cg.targets(f, i)
    if not ts:
        return [i.args[0]] if i.callee in CLOSERS and i.args else []
    return [a for n, a in enumerate(i.args) if all("close" in fl.get((t.key, n), ()) for t in ts)]


def same(x, y):
    return x == y and x[0][0] != "?" or (x[1] is not None and x[1] == y[1] and x[0][0] in "xp" and y[0][0] in "xp")


def stored(ctx, r, keepers):
    """streams held in a global or a record"""
    n = m = 0
    seen = set()
    for pn in sorted(r.progs):
        p, cg, fl, rel = CACHE[pn]
        for k, f in sorted(cg.fn.items()):
            if (f.unit, f.name) in seen or f.unit == "common/dbz.c":
                continue
            seen.add((f.unit, f.name))
            for i in f.calls():
                for v in closes(cg, fl, f, i):
                    if v[0] != "v" or v[1] < f.nparams:
                        continue
                    d = f.ins[v[1]]
                    if d.op == "call":
                        ts = cg.targets(f, d)
                        if ts and any((t.unit, t.name) in keepers for t in ts):
                            ctx.violation("%s|closes|%s" % (f.name, d.callee), where(f, i.line), "closes the stream %s returned, which %s goes on using" % (d.callee, d.callee))
                        m += bool(ts)
                    if d.op != "load":
                        continue
                    c = root(f, d.d["p"])
                    if c[0][0] == "g" and c[0][1] in STD or c[0][0] in ("?", "a"):
                        continue
                    n += 1
                    # every way to the end resets the cell or drops the record
                    work = [(f_b(f, i), f_n(f, i) + 1)]; done = set(); bad = None
                    while work and bad is None:
                        b, at = work.pop()
                        stop = False
                        for j in f.blocks[b][at:]:
                            if j.op == "store" and same(root(f, j.d["p"]), c):
                                stop = True; break
                            if j.op == "call":
                                ts = cg.targets(f, j)
                                if not ts and j.callee == "free" or ts and any(t.name == "xfree" for t in ts):
                                    if c[0][0] in "xp" and root(f, j.args[0])[0] == c[0]:
                                        stop = True; break
                                if ts and c[0][0] == "g" and all(gkey(p, f, c[0][1]) in cg.mod_g[t.key] for t in ts):
                                    stop = True; break
                                if not ts and j.callee in ("exit", "_exit", "abort"):
                                    stop = True; break
                            if j.op == "ret":
                                bad = j.line; break
                        if stop or bad is not None:
                            continue
                        for x in f.succs(b):
                            if x not in done:
                                done.add(x); work.append((x, 0))
                    if bad is not None:
                        ctx.violation("%s|stale|%s" % (f.name, c[0][1] if c[0][0] == "g" else (c[1] or ("", "?"))[1]), where(f, i.line),
                                      "what is closed here stays stored and would be used again as if it were open")
    ctx.cov["functions_keeping_a_stream_they_return"] = len(keepers)
    ctx.floor("stored_streams_closed", n, 6)


def f_b(f, i):
    for b, bl in enumerate(f.blocks):
        if i in bl:
            return b


def f_n(f, i):
    return f.blocks[f_b(f, i)].index(i)


def gkey(p, f, name):
    g = p.glob(f.unit, name)
    return g.key if g else name


def run(ctx):
    r = ctx.repo
    ctx.rule("For every call that opens a stream, pipe, directory or descriptor, directly or through a function found to hand on one it opened: on every path of the function "
             "containing the call, what was opened is closed with the matching function exactly once, stored, or returned, before the function returns or opens it again; "
             "and it is not used after it was closed.")
    ctx.rule("A stream kept in a global or a record is, once closed, replaced there (or the record freed) before the function returns; and a stream that a function returns but keeps "
             "for itself is not closed by its callers.")
    setup(r)
    wrappers = {}                       # function key name -> kind
    done = {}
    keepers = set()                     # functions returning a stream they keep
    todo = []
    seenf = set()
    for pn in sorted(r.progs):
        p, cg, fl, rel = CACHE[pn]
        for k, f in sorted(cg.fn.items()):
            if (f.unit, f.name) in seenf:
                continue
            seenf.add((f.unit, f.name))
            for i in f.calls():
                if i.callee in KIND and not cg.targets(f, i):
                    todo.append((pn, k, i.id, i.callee, i.line))
    slow = 0; sites = 0; closed = 0
    with Pool(8) as pool:
        while todo:
            new = {}
            for job, bad, cls, given, kept in pool.imap_unordered(one, todo, 1):
                done[job] = 1
                pn, fk, iid, kind, line = job
                f = CACHE[pn][1].fn[fk]
                if bad is None:
                    slow += 1; ctx.sample("too slow: %s:%d" % (f.name, line)); continue
                sites += 1; closed += cls > 0
                for (k, l, what), tr in sorted(bad.items()):
                    g = CACHE[pn][1].fn[k]
                    ctx.violation("%s|%s|%s" % (f.name, kind, what.split(" (")[0]), where(g, l), "what %s opened at %s %s" % (kind, where(f, line), what), tr)
                if kept:
                    keepers.add((f.unit, f.name))
                if given and (f.unit, f.name) not in wrappers:
                    wrappers[(f.unit, f.name)] = kind; new[(f.unit, f.name)] = kind
            todo = []
            if new:
                seenf = set()
                for pn in sorted(r.progs):
                    p, cg, fl, rel = CACHE[pn]
                    for k, f in sorted(cg.fn.items()):
                        if (f.unit, f.name) in seenf:
                            continue
                        seenf.add((f.unit, f.name))
                        for i in f.calls():
                            ts = cg.targets(f, i)
                            for t in ts:
                                if (t.unit, t.name) in new and t.key != k:
                                    todo.append((pn, k, i.id, new[(t.unit, t.name)], i.line)); break
    stored(ctx, r, keepers)
    ctx.cov["functions_handing_on_a_stream"] = len(wrappers)
    ctx.cov["sites_too_slow"] = slow
    ctx.count("sites_closed_by_name", closed)
    ctx.floor("acquisition_sites", sites, 60)
