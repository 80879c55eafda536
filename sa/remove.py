"""Where input files are removed, and whether a failure can come before."""
from .cg import CG, ZERO, TOP, const, root
from .fail import FP, EXT_LEAF, leaf_of, NEG1, READS, WRITES, POS, NONNULL, HI, LOGGING
from .sim import Sim, St, trace

REMOVE = ("unlink", "remove")
DEST = {"copy_file": 1, "rename": 1, "move": 2}


def base(f, a):
    b, _ = root(f, a)
    if b[0] == "x":
        i = f.ins.get(b[1])
        if i is not None and i.op == "call" and i.callee and i.callee.startswith("str_") and i.args:
            return root(f, i.args[0])[0]
        if i is not None and i.op == "load":
            r, sf = root(f, i.d["p"])
            return ("*",) + tuple(r) + (str(sf),)
    return b


def inputs_removed(prog, f):
    """calls in f that remove a file that f did not itself make"""
    made = set()
    for i in f.calls():
        n = i.callee
        if n == "fopen":
            m = i.args[1]
            g = prog.glob(f.unit, m[1]) if m[0] == "g" else None
            s = g.string() if g else None
            if s and s[0] in "wa":
                made.add(base(f, i.args[0]))
        elif n in DEST and DEST[n] < len(i.args):
            made.add(base(f, i.args[DEST[n]]))
        elif n and n.startswith("lock_lockfile"):
            made.add(base(f, i.args[0]))
    out = []
    for i in f.calls():
        if i.callee in REMOVE and prog.func(f.unit, i.callee) is None:
            if base(f, i.args[0]) not in made:
                out.append(i)
    return out


# what answers the sender or tells the operator is not output produced from the input
ANSWERS = frozenset(["fglog", "debug", "bounce_mail", "bounce_header", "cmd_new", "cmd_new_int", "send_request", "outpkt_netmail", "areafix_do", "areafix_auth_check",
                     "tmps_freeall", "charset_set_in_out", "determine_charsets", "areafix_init", "lock_program", "lock_path", "unlock_program", "unlock_path"])


NEXT = frozenset(["dir_get", "readdir"])        # the next input file: what happened to the one before is history


class RM(FP):
    opaque = ANSWERS | frozenset(["dir_get"])

    def __init__(self, leaves, sites):
        FP.__init__(self, leaves)
        self.want = sites               # {(fkey, instruction id)}
        self.events = self.events | set(REMOVE) | NEXT
        self.hit = {}                   # (fkey, line) -> trace after a failure
        self.late = {}                  # (fkey, line) of an operation -> trace, after a removal
        self.ok = set()

    def call(self, sim, f, i, name, targets, st, args):
        if name in NEXT:
            return [(St(frozenset(), dict(st.env), None), TOP)]
        if "gone" in st.prop:
            ln = self.leafname(name, targets)
            if ln is not None:
                self.late.setdefault((f.key, i.line), st.tr)
            return None
        if not targets and name in REMOVE:
            if (f.key, i.id) in self.want:
                if st.prop:
                    self.hit.setdefault((f.key, i.line), st.tr)
                    return None
                self.ok.add((f.key, i.line))
                return [(St(frozenset(["gone"]), dict(st.env), (st.tr, i.line, "the input is removed")), ZERO),
                        (St(frozenset(), dict(st.env), st.tr), NEG1)]
            if name not in self.leaves:
                return None
        return FP.call(self, sim, f, i, name, targets, st, args)


class RMIO(FP):
    """stream errors"""
    opaque = ANSWERS | frozenset(["dir_get"])

    def __init__(self, mode, sites):
        FP.__init__(self, {})
        self.want = sites; self.mode = mode
        self.ops = READS if mode == "read" else WRITES
        self.events = frozenset(self.ops) | frozenset(["ferror", "feof", "fclose", "fflush"]) | frozenset(REMOVE) | NEXT
        self.hit = {}; self.ok = set(); self.late = {}

    def call(self, sim, f, i, name, targets, st, args):
        from .fail import IOFail
        if name in NEXT:
            return [(St(frozenset(), dict(st.env), None), TOP)]
        if not targets and name in REMOVE:
            if (f.key, i.id) in self.want:
                if st.prop:
                    self.hit.setdefault((f.key, i.line), st.tr)
                else:
                    self.ok.add((f.key, i.line))
            return None
        return IOFail.call(self, sim, f, i, name, targets, st, args)


def run_rm(prog, cg, f, leaf, lf, sites):
    cl = RM({leaf: lf}, sites) if leaf not in ("=read", "=write") else RMIO(leaf[1:], sites)
    s = Sim(prog, cg, cl)
    s.run(f, frozenset())
    return cl


def removal_sites(prog, cg, f, given=False):
    """removals of files the program did not make, in f and the functions of its own unit it calls"""
    out = set()
    for k in cg.closure(f.key):
        g = cg.fn[k]
        if g.unit == f.unit:
            for i in inputs_removed(prog, g):
                if given and base(g, i.args[0])[0] != "p":
                    continue
                out.add((g.key, i.id))
    return out


OUTOPEN = {"outpkt_open": "outpkt_close", "mail_open": "mail_close", "pkt_create": "pkt_close"}


class Dirty(FP):
    """an output opened since the last close is still open when the input is removed"""
    opaque = ANSWERS | frozenset(["dir_get"])

    def __init__(self, op, cl, sites):
        FP.__init__(self, {})
        self.op = op; self.cl = cl; self.want = sites
        self.events = frozenset([op, cl, "mail_file"]) | frozenset(REMOVE) | NEXT
        self.hit = {}; self.ok = set(); self.opened = 0

    def call(self, sim, f, i, name, targets, st, args):
        if name == self.op:
            self.opened += 1
            return [(St(frozenset([i.line]), dict(st.env), (st.tr, i.line, name)), TOP)]
        if name == self.cl:
            return [(St(frozenset(), dict(st.env), st.tr), TOP)]
        if name in NEXT:
            return [(St(st.prop, dict(st.env), st.tr), TOP)]
        if name == "mail_file" and self.op == "mail_open":
            return [(st, NONNULL if st.prop else ZERO)]
        if not targets and name in REMOVE and (f.key, i.id) in self.want:
            if st.prop:
                self.hit.setdefault((f.key, i.line), st.tr)
            else:
                self.ok.add((f.key, i.line))
        return None
