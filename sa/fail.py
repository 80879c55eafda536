"""Failure propagation: when a leaf operation fails, what must (not) happen.

A leaf is a function name together with the values it returns on failure.
The simulation forks at every leaf call into a succeeding and a failing run
and remembers, in the property state, that something failed."""
from .cg import CG, ZERO, TOP, LO, HI, NONNULL, const
from .sim import Sim, Client, St, trace

POS = (1, HI, True, None)
NEG1 = const(-1)
NONNEG = (0, HI, False, None)
# external leaves: (success, failures)
EXT_LEAF = {
    "fopen": (NONNULL, [ZERO]), "popen": (NONNULL, [ZERO]), "opendir": (NONNULL, [ZERO]), "fdopen": (NONNULL, [ZERO]),
    "fclose": (ZERO, [NEG1]), "fflush": (ZERO, [NEG1]), "ferror": (ZERO, [POS]),
    "fseek": (ZERO, [NEG1]), "rename": (ZERO, [NEG1]), "unlink": (ZERO, [NEG1]), "mkdir": (ZERO, [NEG1]),
    "truncate": (ZERO, [NEG1]), "ftruncate": (ZERO, [NEG1]), "chmod": (ZERO, [NEG1]), "close": (ZERO, [NEG1]),
    "open": (NONNEG, [NEG1]), "creat": (NONNEG, [NEG1]), "stat": (ZERO, [NEG1]), "fstat": (ZERO, [NEG1]),
    "utime": (ZERO, [NEG1]), "link": (ZERO, [NEG1]), "fputs": (NONNEG, [NEG1]), "fork": (NONNEG, [NEG1]),
    "setuid": (ZERO, [NEG1]), "setgid": (ZERO, [NEG1]), "fcntl": (NONNEG, [NEG1]),
}


def leaf_of(cg, name, key=None):
    """(success Val, [failure Vals]) of a function by its possible results, or None"""
    g = cg.fn.get(key or name)
    if g is None:
        return EXT_LEAF.get(name)
    s = cg.retset[g.key]
    if g.ret == "p":
        if 0 in s:
            return NONNULL, [ZERO]
        return None
    if not g.ret.startswith("i") or g.ret == "i1":
        return None
    if -1 in s:
        fails = [const(x) for x in sorted(x for x in s if isinstance(x, int) and x < 0)]
        if "pos" in s:
            fails.append(POS)
        if "?" in s or any(isinstance(x, int) and x > 0 for x in s):
            return NONNEG, fails
        return ZERO, fails
    if "pos" in s and "?" not in s:
        return ZERO, [POS]
    return None


LOGGING = frozenset(["fglog", "debug"])


class FP(Client):
    """forks at leaves; prop = frozenset of failed leaf names (at most one kept)"""
    opaque = LOGGING              # what the log does to itself is not a failure of the operation

    def __init__(self, leaves, exits=False, once=True):
        self.leaves = leaves                 # name or fkey -> (ok, [fails])
        self.events = frozenset(leaves)
        self.exits = exits
        self.rets = []                       # (line, prop, val, trace)
        self.ends = []
        self.sites = set()

    def leafname(self, name, targets):
        if targets:
            for t in targets:
                if t.key in self.leaves:
                    return t.key
            return None
        return name if name in self.leaves else None

    def call(self, sim, f, i, name, targets, st, args):
        ln = self.leafname(name, targets)
        if ln is None:
            return None
        self.sites.add((f.key, i.line))
        ok, fails = self.leaves[ln]
        out = [(st, ok)]
        if not st.prop:
            p = frozenset([(ln, f.unit, i.line)]) if False else frozenset([ln])
            for fv in fails:
                out.append((St(p, dict(st.env), (st.tr, i.line, "%s fails" % ln)), fv))
        else:
            for fv in fails:
                out.append((St(st.prop, dict(st.env), st.tr), fv))
        return out

    def ret(self, sim, f, i, st, val):
        self.rets.append((i.line, st.prop, val, st.tr))

    def exit(self, sim, f, i, st, code):
        self.ends.append((f, i.line, st.prop, code, st.tr))


def run_fp(prog, cg, f, leaves, exits=False):
    cl = FP(leaves, exits)
    s = Sim(prog, cg, cl)
    s.run(f, frozenset())
    return cl, s


READS = {"fgets": (0, ZERO), "fread": (3, ZERO), "fgetc": (0, NEG1), "getc": (0, NEG1), "_IO_getc": (0, NEG1), "getw": (0, NEG1)}
WRITES = {"fprintf": (0, NEG1), "vfprintf": (0, NEG1), "fputs": (1, NEG1), "fputc": (1, NEG1), "putc": (1, NEG1), "_IO_putc": (1, NEG1),
          "fwrite": (3, ZERO), "putw": (1, NEG1)}


def written(prog, f, v):
    """whether v is a stream opened for writing in f"""
    seen = set(); work = [v]; w = False
    while work:
        v = work.pop()
        if v[0] != "v" or v[1] in seen or v[1] < f.nparams:
            continue
        seen.add(v[1]); i = f.ins[v[1]]
        if i.op == "phi":
            work += [x for x, _ in i.d["in"]]
        elif i.op in ("cast", "select"):
            work += i.d["a"]
        elif i.op == "call" and i.callee and i.callee.startswith("fopen") and len(i.args) > 1 and i.args[1][0] == "g":
            g = prog.glob(f.unit, i.args[1][1])
            s = g.string() if g else None
            if not s or s[0] not in "wa":
                return False
            w = True
        elif i.op == "call":
            return False
    return w


class IOFail(Client):
    """a read (or a write) on a stream fails with an error, not at end of file; the stream stays in error"""
    opaque = LOGGING

    def __init__(self, mode):
        self.mode = mode
        self.ops = READS if mode == "read" else WRITES
        self.events = frozenset(self.ops) | frozenset(["ferror", "feof", "fclose", "fflush", "pclose"])
        self.rets = []; self.sites = set()

    def call(self, sim, f, i, name, targets, st, args):
        if targets or name not in self.events:
            return None
        if name in self.ops:
            k, fv = self.ops[name]
            a = i.args[k] if k < len(i.args) else None
            if a is not None and a[0] == "v" and a[1] >= f.nparams and f.ins[a[1]].op == "load":
                p = f.ins[a[1]].d["p"]
                if p[0] == "g" and p[1] in ("stderr", "stdout", "stdin"):
                    return None
            self.sites.add((f.key, i.line))
            if st.prop:
                return [(st, fv)]
            good = NONNULL if name == "fgets" else (0, HI, False, None)
            return [(st, good), (St(frozenset(["read"]), dict(st.env), (st.tr, i.line, "%s error" % self.mode)), fv)]
        if not st.prop and name == "fclose" and self.mode == "write" and written(sim.prog, f, i.args[0]):
            self.sites.add((f.key, i.line))
            return [(st, ZERO), (St(frozenset(["read"]), dict(st.env), (st.tr, i.line, "fclose of the written stream fails")), NEG1)]
        if not st.prop:
            return [(st, (0, 0, False, None) if name in ("ferror", "fclose", "fflush") else TOP)]
        if name == "ferror":
            return [(st, POS)]
        if name == "feof":
            return [(st, ZERO)]
        if name in ("fclose", "fflush"):
            return [(st, NEG1 if self.mode == "write" else ZERO)]
        return None

    def ret(self, sim, f, i, st, val):
        self.rets.append((i.line, st.prop, val, st.tr))


def run_io(prog, cg, f, mode):
    cl = IOFail(mode)
    s = Sim(prog, cg, cl)
    s.run(f, frozenset())
    return cl, s
