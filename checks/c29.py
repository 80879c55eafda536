"""C29: a program that failed says so in its exit status."""
import os
from sa.cg import CG
from sa.ctx import where
from sa.fail import leaf_of, run_fp
from sa.sim import trace
from sa import ir

TECHNIQUE = "interprocedural path-sensitive failure propagation (every failing operation of every program against the program's exit status) over LLVM IR"
NOTE = ("Decides, for each program and each operation whose failure must make the program fail, that no path from a failed call ends in status 0. Failures of operations the "
        "programs deliberately treat as lesser (an input set aside under a bad name, a warning) are not rows. One failure per run is modelled; later ones may or may not follow.")


def rows():
    for line in open(os.path.join(ir.VERIF, "data", "c29_rows.txt")):
        line = line.split("#")[0].split()
        if line:
            yield line[0], line[1]


def run(ctx):
    ctx.rule("For each program and each operation listed in data/c29_rows.txt: on every feasible path from main() on which a call of the operation fails, every return from main() "
             "and every exit() after it has a non-zero status.")
    ctx.assumption("a failing call returns one of the failure values its definition (or, for libc, its manual) has")
    cgs = {}
    done = sites = ends = 0
    for pn, ln in rows():
        prog = ctx.repo.progs.get(pn)
        if prog is None:
            continue
        if pn not in cgs:
            cgs[pn] = CG(prog)
        cg = cgs[pn]
        f = cg.fn.get("main")
        lf = leaf_of(cg, ln) if ln in cg.fn or ":" not in ln and not any(g.name == ln for g in cg.fn.values()) else None
        if f is None or lf is None:
            ctx.count("rows_skipped"); continue
        cl, s = run_fp(prog, cg, f, {ln: lf}, exits=True)
        if not cl.sites:
            ctx.count("rows_not_reached"); continue
        done += 1; sites += len(cl.sites)
        for g, line, p, v, tr in [(f, l, p, v, t) for l, p, v, t in cl.rets] + cl.ends:
            if not p:
                continue
            ends += 1
            if not (v[2] or v[0] > 0 or v[1] < 0):
                ctx.violation("%s|%s" % (pn, ln), where(g, line), "%s can end with status 0 here although %s failed" % (pn, ln), trace(tr))
    ctx.floor("obligations", done, 40)
    ctx.floor("failing_call_sites", sites, 45)
    ctx.floor("program_ends_after_failure", ends, 45)
