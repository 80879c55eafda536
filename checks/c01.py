"""C01: lock files shared between programs are given back exactly once.

Typestate of every lock, simulated from main() of every program over all
feasible paths: free -> held on a successful lock call, held -> free on the
matching unlock.  Violations: the program ends (return from main, or exit() in
the program's own unit) while a lock is held; an unlock of a lock that is not
held; a lock call on a lock already held.
"""
from sa.cg import CG, ZERO, TOP, const
from sa.sim import Sim, Client, St, trace
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate dataflow over LLVM IR"
NOTE = ("All feasible paths of every program up to the engine's joins are covered; library-internal aborts are excluded (stale-lock recovery). "
        "Trusts clang's IR and the engine.")

ACQ = {"lock_program": "program", "lock_path": "path"}
REL = {"unlock_program": "program", "unlock_path": "path"}


def lockkey(kind, args):
    """the identity of the lock: the string, accessor or kind of path it is named by"""
    if kind == "path":
        return "area list"
    t = args[0][3] if args else None
    if isinstance(t, tuple) and t[0] in ("s", "call"):
        return t[1]
    return "?"


class C(Client):
    events = frozenset(ACQ) | frozenset(REL)
    exits = True

    def __init__(self, ctx, prog):
        self.ctx = ctx; self.prog = prog
        self.acq = set(); self.rel = set(); self.ends = set()

    def v(self, kind, f, i, st, text, lock):
        self.ctx.violation("%s|%s|%s" % (self.prog, kind, lock), where(f, i.line), "%s: %s" % (self.prog, text), trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        if name in ACQ:
            k = lockkey(ACQ[name], args)
            self.acq.add((f.key, i.line, k))
            if k in st.prop:
                self.v("twice", f, i, st, "takes the lock '%s' while it already holds it" % k, k)
            return [(St(st.prop | {k}, dict(st.env), st.tr), ZERO), (st, const(-1))]
        if name in REL:
            k = lockkey(REL[name], args)
            self.rel.add((f.key, i.line, k))
            if k not in st.prop:
                self.v("unheld", f, i, st, "gives back the lock '%s', which it does not hold on this path" % k, k)
            return [(St(st.prop - {k}, dict(st.env), st.tr), TOP)]
        return None

    def exit(self, sim, f, i, st, code):
        self.ends.add((f.key, i.line))
        for k in sorted(st.prop):
            self.v("exit", f, i, st, "the program ends here still holding the lock '%s'" % k, k)

    def ret(self, sim, f, i, st, val):
        self.ends.add((f.key, i.line))
        for k in sorted(st.prop):
            self.v("exit", f, i, st, "the program returns from main still holding the lock '%s'" % k, k)


def run(ctx):
    ctx.rule("Typestate simulation of all lock files from main() of every program: every path to the program's end "
             "releases what it acquired; no release of an unheld lock; no second acquisition.")
    ctx.assumption("Aborts inside the shared library (out of memory, unusable configuration) are not ends of the program; "
                   "the lock they leave is recognised as stale by the next program.")
    nacq = nrel = nprog = nst = nend = 0
    for p, prog in sorted(ctx.repo.progs.items()):
        cg = CG(prog)
        if "main" not in cg.fn:
            raise ir.Broken("no main in " + p)
        cl = C(ctx, p)
        s = Sim(prog, cg, cl)
        if not any(k in cg.reaching(set(ACQ)) for k in ("main",)):
            continue
        s.run(cg.fn["main"], frozenset())
        nprog += 1; nacq += len(cl.acq); nrel += len(cl.rel); nst += s.nstates; nend += len(cl.ends)
        ctx.sample("%s: %d lock and %d unlock sites, %d ends, %d states" % (p, len(cl.acq), len(cl.rel), len(cl.ends), s.nstates))
    ctx.floor("programs_with_locks", nprog, 10)
    ctx.floor("lock_sites_reached", nacq, 12)
    ctx.floor("unlock_sites_reached", nrel, 12)
    ctx.cov["program_ends"] = nend
    ctx.cov["abstract_states"] = nst
