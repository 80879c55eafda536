"""C24: no decision or output depends on memory that was never set"""
from sa import ir
from sa.cg import CG
from sa.undef import Undef, Explore, Scalars, is_pat, operands, CAP

TECHNIQUE = "path-sensitive definite-initialisation analysis of every local object and newly allocated record, with summaries of what each callee sets of its pointer arguments under which result"
NOTE = ("Objects are local variables, structures and buffers, the pointees of pointer parameters (as summaries), and records allocated with a constant size until the function that allocates them keeps them. "
        "Each is followed on all paths with the facts the branches imply; reads that depend on a tag member of the same object, element-wise contents of arrays, and objects whose paths exceed the bound are not judged, nor are members of heap objects after they were put into a list.")


def where(f, l):
    return "src/%s:%d (%s)" % (f.unit, l, f.name)


def run(ctx):
    ctx.cflags = ("-ftrivial-auto-var-init=pattern",)
    R = ctx.repo
    done = set(); U = None
    loads = member_loads(R)
    for pn, P in sorted(R.progs.items()):
        cg = CG(P); U = Undef(P, cg)
        for f in P.funcs():
            if f.key in done or f.unit.endswith(("dbz.c", "parsedate.c")):
                continue
            done.add(f.key)
            locals_(ctx, U, f)
            scalars(ctx, U, f)
            records(ctx, U, f, loads)
        ctx.count("path states", U.states); ctx.count("objects left undecided", U.undecided)
    ctx.rule("on no path is a byte of a local object, or a local variable, read, printed, compared, passed by value or returned before a store, a library call or a callee (under the result it gave) has set it")
    ctx.rule("a function given a pointer to an object reads of it only what is set by then: what each function reads first and what it sets under which result is summarised over its own paths")
    ctx.rule("a record from malloc() has every member that is loaded anywhere in the programs set when the function that allocated it (or the caller it was returned to) has stored it away")
    ctx.assumption("library functions set and read their arguments as documented; gettimeofday(), localtime() and gmtime() do not fail; pointer parameters never compared with NULL are not NULL")
    ctx.floor("local objects", ctx.cov.get("local objects", 0), 150)
    ctx.floor("records allocated", ctx.cov.get("records allocated", 0), 10)


def name_of(f, i):
    return i.name or "#%d" % i.id


def locals_(ctx, U, f):
    objs = {}
    for i in f.all():
        if i.d.get("ai"):
            p = i.d["p"] if i.op == "store" else i.args[0]
            if p[0] == "v" and p[1] >= f.nparams and f.ins[p[1]].op == "alloca":
                objs.setdefault(p[1], []).append(i)
    for a, starts in objs.items():
        al = f.ins[a]
        if al.d["sz"] <= 0 or "va_list" in al.d.get("at", ""):
            continue
        ctx.count("local objects")
        E = Explore(U, f, ("v", a), al.d["sz"])
        for s in starts:
            E.run(s.blk, s.idx + 1, (1 << min(al.d['sz'], CAP)) - 1)
        for m, ins, what, _ in E.reads:
            ctx.violation("%s|%s|%s" % (f.name, name_of(f, al), byname(m)), where(f, ins.line), "%s of %s() %s before it is set (bytes %s)" % (name_of(f, al), f.name, what, byname(m)))


def byname(m):
    lo = (m & -m).bit_length() - 1
    return "%d-%d" % (lo, m.bit_length() - 1)


def scalars(ctx, U, f):
    ctx.count("functions with register variables examined")
    E = Scalars(U, f)
    for i in E.direct():
        ctx.violation("%s|line use|%d" % (f.name, i.idx), where(f, i.line), "%s() uses a local variable that has not been set" % f.name)
    if not E.cand:
        return
    ctx.count("functions with variables set on some paths only")
    E.run(0, 0, 1)
    for k, ins, what, _ in E.reads:
        n = name_of(f, f.ins[k])
        ctx.violation("%s|%s" % (f.name, n), where(f, ins.line), "variable %s of %s() is used on a path where it was not set" % (n, f.name))


def member_loads(R):
    out = {}
    for f in R.functions():
        for i in f.all():
            if i.op == "load" and i.d["p"][0] == "v" and i.d["p"][1] >= f.nparams:
                g = f.ins[i.d["p"][1]]
                if g.op == "gep":
                    for e in g.d["path"]:
                        if e[0] == "f":
                            out.setdefault((e[1], e[2]), (f, i))
    return out


def struct_of(U, f, E, size):
    for i in f.all():
        if i.op == "gep" and i.d["st"].startswith("s:") and i.d["path"] and i.d["path"][0][0] == "f":
            if i.d["p"] == ["v", E.obj[1]] or E.resolve(i.d["p"], {}) is not None:
                return i.d["st"][2:]
    # passed on: the callee's view
    for i in f.calls():
        for k, a in enumerate(i.args):
            if a == ["v", E.obj[1]]:
                for t in U.cg.targets(f, i):
                    for g in t.all():
                        if g.op == "gep" and g.d["p"] == ["v", k] and g.d["st"].startswith("s:"):
                            return g.d["st"][2:]
    return None


def records(ctx, U, f, loads):
    for i in f.calls():
        sz = U.alloc_size(f, i)
        if not sz:
            continue
        ctx.count("records allocated")
        E = Explore(U, f, ("v", i.id), sz)
        E.want_rets = True
        E.run(i.blk, i.idx + 1, (1 << min(sz[0], CAP)) - 1 if sz[1] is None else sz[1])
        sn = struct_of(U, f, E, sz[0])
        for m, ins, what, _ in E.reads:
            ctx.violation("%s|record %s|%s" % (f.name, sn or i.id, fields(U, sn, m)), where(f, ins.line), "%s of the %s record allocated in %s() %s before it is set" % (fields(U, sn, m), sn, f.name, what))
        if not (E.escaped or sz[2]) or E.capped:
            continue
        left = 0
        for rf, m, own in E.rets:
            if not own:
                left |= m
        for fld in fields(U, sn, left, True):
            if (sn, fld) in loads:
                g, l = loads[(sn, fld)]
                ctx.violation("%s|record %s|%s" % (f.name, sn, fld), where(f, i.line), "%s() keeps a %s record whose %s it never sets; %s() uses it (line %d)" % (f.name, sn, fld, g.name, l.line))


def fields(U, sn, m, aslist=False):
    out = []
    fs = next((u.structs[sn] for u in U.P.units if sn in u.structs), None) if sn else None
    for n, off, size, ty in fs or ():
        b = ((1 << size) - 1) << off
        if m & b == b or (m & b and not aslist):
            out.append(n)
    return out if aslist else (",".join(out) or byname(m))
