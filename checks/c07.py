"""C07: a failure reported by one layer is recognised by the layer above."""
import os, signal
from sa.cg import CG
from sa.fail import leaf_of, run_fp, run_io
from sa.sim import trace
from sa.ctx import where
from sa import ir

TECHNIQUE = "value-set analysis of status comparisons; interprocedural path-sensitive failure propagation against a table of obligations"
NOTE = ("The table data/c07_rows.txt was mined from the tree with the same analysis and then reviewed by hand; a pair of function and operation "
        "that is not in it carries no obligation. Only the statuses of the program's own operations are considered, and one failure at a time.")
ROWS = os.path.join(ir.VERIF, "data", "c07_rows.txt")


def callsrc(f, v, seen):
    if v[0] != "v" or v[1] < f.nparams or v[1] in seen:
        return []
    seen.add(v[1]); i = f.ins[v[1]]
    if i.op == "call":
        return [i]
    if i.op == "phi":
        return [c for x, _ in i.d["in"] for c in callsrc(f, x, seen)]
    if i.op == "cast":
        return callsrc(f, i.d["a"][0], seen)
    if i.op == "select":
        return callsrc(f, i.d["a"][1], seen) + callsrc(f, i.d["a"][2], seen)
    return []


SW = {"sgt": "slt", "sge": "sle", "slt": "sgt", "sle": "sge"}


def compare(ctx, prog, cg, seen):
    n = 0
    for f in prog.funcs():
        for i in f.all():
            tests = []
            if i.op == "icmp":
                tests.append((i.d["a"][0], i.d["a"][1], i.d["pr"]))
            elif i.op == "switch":
                for c in i.d["cs"]:
                    tests.append((i.d["c"], ["i", c[0]], "case"))
            for a, b, pr in tests:
                if b[0] != "i":
                    continue
                cs = callsrc(f, a, set())
                if not cs or any(c.ty == "p" for c in cs):
                    continue
                d = cg.vals(f, a, set())
                if "?" in d:
                    continue
                n += 1
                if d <= {0}:
                    continue          # an operation that cannot fail
                c = b[1]; bad = None
                isin = c in d or (c > 0 and "pos" in d)
                if pr in ("eq", "ne", "case"):
                    if not isin:
                        bad = "tests for %d, a value it never returns (%s)"
                    elif c == -1 and "pos" in d:
                        bad = "tests for %d only, but it also reports failure with positive values (%s)"
                else:
                    neg = any(isinstance(x, int) and x < 0 for x in d)
                    pos = "pos" in d or any(isinstance(x, int) and x > 0 for x in d)
                    if pr in ("slt", "sle", "sge", "sgt"):
                        # split of the domain must not be trivial, and a sign test must not leave failures on both sides
                        lt = c if pr in ("slt", "sge") else c + 1      # d < lt on one side
                        lower = any(isinstance(x, int) and x < lt for x in d)
                        upper = any(isinstance(x, int) and x >= lt for x in d) or "pos" in d
                        if not lower or not upper:
                            bad = "compares with %d, which separates nothing it returns (%s)"
                        elif -1 in d and "pos" in d and 0 in d and lt == 0:
                            bad = "tests for less than %d only, but it also reports failure with positive values (%s)"
                if bad:
                    k = (f.unit, f.name, i.line)
                    if k in seen:
                        continue
                    seen.add(k)
                    nm = "/".join(sorted({x.callee or "?" for x in cs}))
                    ctx.violation("%s|compares %s" % (f.name, nm), where(f, i.line), "the result of %s: %s" % (nm, bad % (c, ", ".join(map(str, sorted(d, key=str))))))
    return n


def endings(cg, f, src, dst):
    """values the function can return once it has gone from block src to block dst"""
    reach = set(); work = [dst]; edges = {(src, dst)}
    while work:
        b = work.pop()
        if b in reach:
            continue
        reach.add(b)
        for s in f.succs(b):
            edges.add((b, s)); work.append(s)

    def val(v, blk, seen):
        i = f.ins.get(v[1]) if v[0] == "v" and v[1] >= f.nparams else None
        if i is not None and i.op == "phi" and i.id not in seen:
            out = set()
            for x, pb in i.d["in"]:
                if (pb, i.blk) in edges or i.blk not in reach:
                    out |= val(x, pb, seen | {i.id})
            return out
        return cg.vals(f, v, set())
    out = set()
    for b in reach:
        t = f.blocks[b][-1]
        if t.op == "ret":
            if "v" not in t.d:
                return {"?"}
            out |= val(t.d["v"], b, set())
        elif t.op == "unreachable":
            out.add("exit")
    return out


def upside(ctx, prog, cg, seen):
    """(3) tests taken the wrong way round"""
    n = 0
    for f in prog.funcs():
        if f.ret in ("v", "p"):
            continue
        for i in f.all():
            if i.op != "br" or "c" not in i.d:
                continue
            c = i.d["c"]
            t = f.ins.get(c[1]) if c[0] == "v" and c[1] >= f.nparams else None
            if t is None or t.op != "icmp" or t.d["a"][1][0] != "i":
                continue
            a, k, pr = t.d["a"][0], t.d["a"][1][1], t.d["pr"]
            cs = callsrc(f, a, set())
            if not cs or any(x.ty == "p" for x in cs):
                continue
            d = cg.vals(f, a, set())
            if not d <= {0, -1} or len(d) < 2:
                continue
            tr = {"eq": lambda x: x == k, "ne": lambda x: x != k, "slt": lambda x: x < k, "sgt": lambda x: x > k, "sge": lambda x: x >= k, "sle": lambda x: x <= k}.get(pr)
            if tr is None or tr(0) == tr(-1):
                continue
            s = f.succs(i.blk)
            good, bad = (s[0], s[1]) if tr(0) else (s[1], s[0])
            n += 1
            g, b = endings(cg, f, i.blk, good), endings(cg, f, i.blk, bad)
            neg = (lambda x: x == "pos" or isinstance(x, int) and x != 0) if f.name == "main" else lambda x: isinstance(x, int) and x < 0
            if g and all(neg(x) for x in g) and 0 in b:
                key = (f.unit, f.name, i.line)
                if key in seen:
                    continue
                seen.add(key)
                nm = "/".join(sorted({x.callee or "?" for x in cs}))
                ctx.violation("%s|inverted %s" % (f.name, nm), where(f, t.line or i.line),
                              "the test of %s is taken the wrong way round: %s fails after it succeeded and can report success after it failed" % (nm, f.name))
    return n


def lostbits(ctx, prog, seen):
    """(4) a wait status of which the part telling that the command was killed is thrown away"""
    n = 0
    for f in prog.funcs():
        for i in f.calls():
            if i.callee not in ("system", "pclose"):
                continue
            n += 1
            work = [i.id]; done = set(); high = low = False
            while work:
                v = work.pop()
                if v in done:
                    continue
                done.add(v)
                for u in f.all():
                    if not any(x == ["v", v] for x in u.d.get("a", [])) and not (u.op == "phi" and any(x == ["v", v] for x, _ in u.d["in"])):
                        if u.op in ("ret", "store") and u.d.get("v") == ["v", v] or u.op == "switch" and u.d.get("c") == ["v", v]:
                            low = True
                        continue
                    if u.op == "bin" and u.d["k"] in ("lshr", "ashr", "sdiv", "udiv") and u.d["a"][1][0] == "i":
                        k = u.d["a"][1][1]
                        if k >= (7 if "shr" in u.d["k"] else 128):
                            high = True
                        else:
                            work.append(u.id)
                    elif u.op == "bin" and u.d["k"] == "and" and u.d["a"][1][0] == "i":
                        if u.d["a"][1][1] & 0x7f:
                            low = True
                        else:
                            high = True
                    elif u.op == "icmp":
                        b = u.d["a"][1]
                        # a test for the error value -1 says nothing about the command
                        if b[0] == "i" and b[1] == -1 or u.d["pr"] in ("slt", "sge", "sgt", "sle") and b[0] == "i" and b[1] in (0, -1):
                            continue
                        low = True
                    elif u.op in ("phi", "cast", "select"):
                        work.append(u.id)
                    else:
                        low = True
            if high and not low and (f.unit, f.name, i.line) not in seen:
                seen.add((f.unit, f.name, i.line))
                ctx.violation("%s|status of %s" % (f.name, i.callee), where(f, i.line),
                              "of the status of %s() only the exit code is used: a command that was killed counts as one that succeeded" % i.callee)
    return n


def holds(o, v):
    if o == "-1":
        return v[1] < 0
    if o == "!=0":
        return v[2] or v[0] > 0 or v[1] < 0
    return v[0] == v[1] == 0          # "0", "null"


SAY = {"-1": "a negative value", "!=0": "a non-zero value", "0": "0", "null": "NULL"}


class Slow(Exception):
    pass


def run(ctx):
    r = ctx.repo
    ctx.rule("(1) Every comparison or switch of a status returned by one of the tree's own operations with a constant, where the set of values the operation can return is "
             "known, tests for a value in that set, and a test for the failure value -1 does not let another failure value through.")
    ctx.rule("(2) For every row (function, operation) of the table: on every path on which that operation, called directly by the function or its helpers, fails, the function "
             "returns its own failure value.  The operations =read and =write stand for any read or write of a stream, which then stays in error.")
    ctx.rule("(3) Where a status that is 0 or -1 is tested, not every path after the 0 ends in a failure value while a path after the -1 ends in 0.")
    ctx.rule("(4) A status of system() or pclose() is not reduced to the exit code alone: the bits that say the command was killed are tested or kept.")
    ctx.assumption("operations whose only possible result is success may be tested for failure")
    ctx.assumption("failures inside the log functions are not failures of the logged operation")
    seen = set(); n = up = ws = 0
    cgs = {}
    own = {}
    for pn in sorted(r.progs):
        p = r.progs[pn]
        cg = cgs[pn] = CG(p)
        n += compare(ctx, p, cg, seen)
        up += upside(ctx, p, cg, seen)
        ws += lostbits(ctx, p, seen)
        for f in p.funcs():
            own.setdefault(f.name, []).append((f.unit, pn, f))
    ctx.floor("comparisons", n, 4000)
    ctx.floor("two_way_tests", up, 100)
    ctx.cov["command_statuses"] = ws

    def alarm(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, alarm)
    rows = ev = slow = 0
    funcs = set()
    for line in open(ROWS):
        if line.startswith("#"):
            continue
        u, fn, leaf, o = line.split()
        rows += 1
        cand = own.get(fn)
        if not cand:
            continue
        same = [c for c in cand if c[0] == u]
        if same:
            cand = same
        elif len({c[0] for c in cand}) > 1:
            continue
        u2, pn, f = cand[0]
        cg = cgs[pn]
        if f.ret == "v":
            continue
        ln = leaf.split(":")[-1]
        lv = None
        cl = cg.closure(f.key)
        ks = [k for k in cl if cg.fn[k].name == ln and k != f.key]
        if leaf[0] == "=":
            pass
        elif ks:
            lv = {k: leaf_of(cg, k) for k in ks}
        else:
            if not any(ln in cg.extcalls[k] for k in cl | {f.key}):
                continue
            lv = {ln: leaf_of(cg, ln)}
        if lv is not None and any(v is None for v in lv.values()):
            continue
        # only the calls the function makes itself or through helpers of its unit
        try:
            signal.alarm(20)
            c, s = run_fp(r.progs[pn], cg, f, lv) if lv is not None else run_io(r.progs[pn], cg, f, leaf[1:])
            signal.alarm(0)
        except Slow:
            slow += 1
            continue
        except ir.Broken:
            signal.alarm(0)
            slow += 1
            continue
        if not any(p for _, p, _, _ in c.rets) and not c.sites:
            continue
        ev += 1; funcs.add(f.key)
        for ln2, p, v, tr in c.rets:
            if p and not holds(o, v):
                ctx.violation("%s|%s" % (fn, ln), where(f, ln2), "%s fails, but %s can return something other than %s" % ({"=read": "reading", "=write": "writing"}.get(ln, ln), fn, SAY[o]), trace(tr))
    ctx.cov["rows"] = rows
    ctx.cov["rows_too_slow"] = slow
    ctx.cov["functions_with_obligations"] = len(funcs)
    ctx.floor("obligations", ev, rows * 55 // 100)
