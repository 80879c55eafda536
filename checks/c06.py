"""C06: an input is removed only after everything made from it was written."""
import os, signal
from sa.cg import CG
from sa.fail import leaf_of
from sa.remove import removal_sites, run_rm, REMOVE, OUTOPEN, Dirty
from sa.sim import trace, Sim
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate: no removal of an input file on a path after a failed operation, no operation on it after its removal"
NOTE = ("The pairs of program and operation are in data/c06_rows.txt. One failing operation at a time; answers to the sender and the log are not output of the input. "
        "Archives unpacked by runinc's shell commands are covered only as far as unpack()'s own status goes.")
ROWS = os.path.join(ir.VERIF, "data", "c06_rows.txt")
SAY = {"=read": "reading a stream", "=write": "writing a stream"}


class Slow(Exception):
    pass


def run(ctx):
    r = ctx.repo
    ctx.rule("For every row (function processing an input file, operation): on no path on which the operation fails does the function, or a helper of its own program, go on to remove "
             "a file it did not itself create; rows marked P concern only the file handed to the function; rows marked L: nor is the operation attempted after such a removal. Going on to the next directory entry starts afresh.")
    ctx.assumption("a removal fails or succeeds as a whole; a rename to another name keeps the input")

    def alarm(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, alarm)
    cgs = {}
    rows = [l.split() for l in open(ROWS) if l.strip() and l[0] != "#"]
    ev = slow = 0; sitesn = set(); seen = set()
    for pn, u, fn, leaf, flags in rows:
        p = r.progs.get(pn)
        if p is None:
            raise ir.Broken("no program " + pn)
        if pn not in cgs:
            cgs[pn] = CG(p)
        cg = cgs[pn]
        f = p.func(u, fn) or p.func(None, fn)
        if f is None:
            continue
        ln = leaf.split(":")[-1]
        if leaf[0] == "=":
            lf = 1; key = leaf
        else:
            ks = [k for k in cg.closure(f.key) if cg.fn[k].name == ln]
            key = ks[0] if ks else ln
            lf = leaf_of(cg, key)
            if lf is None or not ks and not any(ln in cg.extcalls[k] for k in cg.closure(f.key) | {f.key}):
                continue
        sites = removal_sites(p, cg, f, given="P" in flags)
        if not sites:
            continue
        sitesn |= sites
        try:
            signal.alarm(60)
            cl = run_rm(p, cg, f, key, lf, sites)
            signal.alarm(0)
        except (Slow, ir.Broken):
            signal.alarm(0)
            slow += 1
            continue
        if not cl.ok and not cl.hit:
            continue
        ev += 1
        say = SAY.get(ln, ln)
        for (fk, l), tr in sorted(cl.hit.items()):
            ctx.violation("%s|%s|%s" % (pn, fn, ln), where(cg.fn[fk], l), "the input is removed although %s failed" % say, trace(tr))
        if "L" in flags:
            for (fk, l), tr in sorted(cl.late.items()):
                ctx.violation("%s|%s|%s|late" % (pn, fn, ln), where(cg.fn[fk], l), "%s comes only after the input was removed" % say, trace(tr))
    done = set(); outs = 0
    for pn, u, fn, leaf, flags in rows:
        p = r.progs[pn]; f = p.func(u, fn) or p.func(None, fn)
        if f is None or (pn, fn) in done:
            continue
        done.add((pn, fn)); cg = cgs[pn]
        cl = cg.closure(f.key) | {f.key}
        for op, close in sorted(OUTOPEN.items()):
            if not any(cg.fn[k].name == op for k in cl):
                continue
            sites = removal_sites(p, cg, f, given="P" in flags)
            d = Dirty(op, close, sites)
            try:
                signal.alarm(60)
                Sim(p, cg, d).run(f, frozenset())
                signal.alarm(0)
            except (Slow, ir.Broken):
                signal.alarm(0); slow += 1; continue
            if d.opened:
                outs += 1
            for (fk, l), tr in sorted(d.hit.items()):
                ctx.violation("%s|%s|%s" % (pn, fn, close), where(cg.fn[fk], l), "the input is removed while output opened with %s has not been closed" % op, trace(tr))
    ctx.count("outputs_followed_to_their_close", outs)
    # a file may be removed by opening it for writing, but not by these programs: only removal calls are considered
    ctx.cov["rows"] = len(rows)
    ctx.cov["rows_too_slow"] = slow
    ctx.count("removal_sites", len(sitesn))
    ctx.floor("obligations", ev, len(rows) * 55 // 100)
