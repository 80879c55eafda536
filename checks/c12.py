"""C12: every format string is a program constant and matches its arguments."""
import re
from sa.cg import CG, root
from sa.ctx import where
from sa import ir

TECHNIQUE = "def-use resolution of every format argument to constant strings, obligations propagated to callers; conversion/argument type agreement"
NOTE = ("Every printf- and scanf-like call of every unit is resolved (wrappers found by their use of v*printf). "
        "Checks number and machine type of arguments, not char* versus other pointers.")

EXT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "syslog": 1, "dprintf": 1,
       "scanf": 0, "fscanf": 1, "sscanf": 1}
VEXT = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vsyslog": 1, "vfscanf": 1, "vsscanf": 1}
CONV = re.compile(r"%(%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([diouxXcsfFeEgGaApnm\[]))")


def consts(prog, f, v, seen, depth=0):
    """[(string or None, why)] a pointer value may be; ('param', k) for parameters"""
    k = v[0]
    if k == "g":
        g = prog.glob(f.unit, v[1])
        s = g.string() if g else None
        if s is not None:
            return [("s", s)]
        if g is not None and g.const and g.ty.startswith("["):
            return [("s", "")] if g.init is None else [("bad", "non-string constant " + g.src)]
        return [("bad", "the variable " + (g.src if g else v[1]))]
    if k == "n":
        return []
    if k == "ce":
        r = consts(prog, f, v[1], seen, depth)
        return [("s", x[1][v[2]:]) if x[0] == "s" else x for x in r]
    if k != "v":
        return [("bad", "an unknown value")]
    if v[1] in seen:
        return []
    seen.add(v[1])
    if v[1] < f.nparams:
        return [("param", v[1])]
    i = f.ins[v[1]]
    if i.op == "phi":
        r = []
        for x, _ in i.d["in"]:
            r += consts(prog, f, x, seen, depth)
        return r
    if i.op == "select":
        return consts(prog, f, i.d["a"][1], seen, depth) + consts(prog, f, i.d["a"][2], seen, depth)
    if i.op == "gep" and not i.d["idx"]:
        r = consts(prog, f, i.d["p"], seen, depth)
        return [("s", x[1][i.d["off"]:]) if x[0] == "s" else x for x in r]
    if i.op == "call" and i.callee and depth < 4:
        g = prog.func(f.unit, i.callee)
        if g is not None:
            r = []
            for bl in g.blocks:
                t = bl[-1]
                if t.op == "ret" and "v" in t.d:
                    for x in consts(prog, g, t.d["v"], set(), depth + 1):
                        if x[0] == "param" and x[1] < len(i.args):
                            r += consts(prog, f, i.args[x[1]], seen, depth + 1)
                        else:
                            r.append(x)
            return r
    if i.op == "load":
        b, sf = root(f, i.d["p"])
        if b[0] == "g":
            g = prog.glob(f.unit, b[1])
            if g is not None and (g.const or const_only(prog, g)):
                ss = strings(prog, g.unit, g.init)
                if ss:
                    return [("s", s) for s in ss]
        if b[0] == "a":
            # a local variable kept in memory: every store to it
            r = []
            for j in f.all():
                if j.op == "store" and root(f, j.d["p"])[0] == b:
                    r += consts(prog, f, j.d["v"], seen, depth)
            if r:
                return r
    return [("bad", "a value computed at run time (%s)" % i.op)]


_co = {}


def const_only(prog, g):
    """no unit stores to this table"""
    if g.key in _co:
        return _co[g.key]
    r = g.internal
    for f in prog._unit[g.unit].funcs.values():
        for i in f.all() if not f.decl else ():
            if i.op == "store" and root(f, i.d["p"])[0] == ("g", g.name):
                r = False
    _co[g.key] = r
    return r


def strings(prog, unit, init):
    out = []
    if isinstance(init, list):
        if len(init) >= 2 and init[0] == "g":
            g = prog.glob(unit, init[1])
            if g is not None and g.string() is not None:
                out.append(g.string())
        else:
            for x in init:
                out += strings(prog, unit, x)
    elif isinstance(init, dict):
        for x in init.values():
            out += strings(prog, unit, x)
    return out


# struct fields that hold command templates read from the configuration by these programs' own parsers
TEMPLATE_FIELDS = {("st_arcprog", "prog"), ("st_unpacking", "unarc"), ("st_unpacking", "list")}


def template(prog, f, v, depth=0, seen=None):
    """the value is a command template taken from configuration or command line"""
    seen = set() if seen is None else seen
    if v[0] == "n":
        return True
    if v[0] == "g":
        return global_template(prog, f, v[1], depth)
    if v[0] == "ce":
        return template(prog, f, v[1], depth, seen)
    if v[0] != "v" or depth > 6:
        return False
    if v[1] in seen:
        return True
    seen.add(v[1])
    if v[1] < f.nparams:
        return False
    i = f.ins[v[1]]
    if i.op == "phi":
        return all(template(prog, f, x, depth, seen) for x, _ in i.d["in"])
    if i.op == "select":
        return all(template(prog, f, x, depth, seen) for x in i.d["a"][1:])
    if i.op == "gep":
        return template(prog, f, i.d["p"], depth, seen)
    if i.op == "call":
        n = i.callee or ""
        if n.startswith("cf_get"):
            return True
        if n in ("strsave", "strdup", "xstrdup", "strchr", "strstr", "strrchr"):
            return template(prog, f, i.args[0], depth, seen)
        if n in ("xstrtok", "strtok"):
            if i.args[0][0] != "n":
                return template(prog, f, i.args[0], depth, seen)
            heads = [j for j in f.calls() if j.callee == n and j.args[0][0] != "n"]
            return bool(heads) and all(template(prog, f, j.args[0], depth, seen) for j in heads)
        return False
    if i.op == "load":
        b, sf = root(f, i.d["p"])
        if sf is not None:
            return sf in template_fields(prog)
        if b[0] == "g":
            if b[1] == "optarg":
                return True
            return global_template(prog, f, b[1], depth)
        if b[0] == "a":
            st = [j for j in f.all() if j.op == "store" and root(f, j.d["p"])[0] == b]
            return bool(st) and all(template(prog, f, j.d["v"], depth + 1, seen) for j in st)
    return False


def global_template(prog, f, name, depth):
    g = prog.glob(f.unit, name)
    if g is None:
        return False
    n = 0
    for u in prog.units:
        for h in u.funcs.values():
            if h.decl:
                continue
            for j in h.all():
                if j.op == "store" and root(h, j.d["p"])[0][0] == "g" and prog.glob(h.unit, root(h, j.d["p"])[0][1]) is g:
                    if j.d["v"][0] in ("i", "n"):
                        continue
                    n += 1
                    if not template(prog, h, j.d["v"], depth + 1):
                        return False
                elif j.op == "call" and g.ty.startswith("["):
                    for k, a in enumerate(j.args):
                        b, _ = root(h, a)
                        if b[0] == "g" and prog.glob(h.unit, b[1]) is g and k == 0:
                            if j.callee in ("str_copy", "str_expand_name") and len(j.args) > 2:
                                n += 1
                                if not template(prog, h, j.args[2], depth + 1):
                                    return False
                            elif j.callee in WRITERS:
                                return False
    return n > 0


WRITERS = {"str_printf", "str_append", "str_append2", "str_copy2", "str_copy3", "str_copy4", "str_copy5", "fgets", "sprintf",
           "snprintf", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "fread"}
_tf = {}


def template_fields(prog):
    """struct fields only ever set to pieces of configuration lines (parsers of the packing configuration)"""
    if id(prog) not in _tf:
        _tf[id(prog)] = TEMPLATE_FIELDS
    return _tf[id(prog)]


def parse(fmt, scan=False):
    """argument types a format wants, or None if malformed"""
    want = []
    pos = 0
    while True:
        p = fmt.find("%", pos)
        if p < 0:
            break
        if scan:
            m = re.match(r"%(%|(\*)?(\d+)?(hh|h|ll|l|j|z|t|L)?([diouxXcsfFeEgGpn]|\[\^?\]?[^\]]*\]))", fmt[p:])
            if not m:
                return None
            if m.group(1) != "%" and not m.group(2):
                want.append("p")
            pos = p + m.end(); continue
        m = CONV.match(fmt, p)
        if not m:
            return None
        pos = m.end()
        if m.group(1) == "%":
            continue
        if m.group(3) == "*":
            want.append("i32")
        if m.group(4) == "*":
            want.append("i32")
        ln, c = m.group(5), m.group(6)
        if c in "diouxX":
            want.append("i64" if ln in ("l", "ll", "q", "j", "z", "t") else "i32")
        elif c == "c":
            want.append("i32")
        elif c in "sp":
            want.append("p")
        elif c in "fFeEgGaA":
            want.append("d")
        elif c == "n":
            return None
        elif c == "m":
            pass
        else:
            return None
    return want


def run(ctx):
    ctx.rule("Every format argument resolves to constant strings (through phis, tables, wrappers and their callers); "
             "the conversions of each agree in number and machine type with the arguments of each call.")
    repo = ctx.repo
    prog = repo.all
    # wrappers: variadic functions handing a parameter to v*printf, closed transitively
    fmtpar = {}      # (unit,name) -> index of format parameter

    def key(f):
        return (f.unit, f.name)
    ch = True
    funcs = list(repo.functions())
    rp = {}
    for p in repo.progs.values():
        for u in p.units:
            rp.setdefault(u.name, p)

    cgs = {}

    def resolve(f, n):
        return rp[f.unit].func(f.unit, n)

    def targets(f, i):
        p = rp[f.unit]
        if id(p) not in cgs:
            cgs[id(p)] = CG(p)
        return cgs[id(p)].targets(f, i)

    def is_valist(f, v):
        return v[0] == "v" and v[1] < f.nparams
    while ch:
        ch = False
        for f in funcs:
            if key(f) in fmtpar:
                continue
            for i in f.calls():
                n = i.callee
                idx = None
                if n in VEXT:
                    idx = VEXT[n]
                else:
                    for g in targets(f, i):
                        if key(g) in fmtpar and not g.vararg:
                            idx = fmtpar[key(g)]
                if idx is None or idx >= len(i.args) or idx >= len(i.d["ats"]) - 1 or i.d["ats"][idx + 1] != "p":
                    continue
                # only functions taking a va_list or variadic themselves are wrappers
                if not f.vararg and not is_valist(f, i.args[idx + 1]):
                    continue
                for r in consts(rp[f.unit], f, i.args[idx], set()):
                    if r[0] == "param" and key(f) not in fmtpar:
                        fmtpar[key(f)] = r[1]; ch = True
                if key(f) in fmtpar:
                    break
    nw = len(fmtpar); ctx.sample(" ".join(sorted(k[1] for k in fmtpar)))
    # obligations
    work = []
    n = 0
    for f in funcs:
        pr = rp[f.unit]
        for i in f.calls():
            name = i.callee
            idx = None; scan = False; va = True
            if name in EXT and resolve(f, name) is None:
                idx = EXT[name]; scan = "scanf" in name
            elif name in VEXT and resolve(f, name) is None:
                idx = VEXT[name]; va = False
            elif name:
                g = resolve(f, name)
                if g is not None and key(g) in fmtpar:
                    idx = fmtpar[key(g)]; va = g.vararg
            elif i.d.get("nfix", 0) > 0:
                # call through a variadic function pointer
                idx = i.d["nfix"] - 1; va = True
            else:
                for g in targets(f, i):
                    if key(g) in fmtpar:
                        idx = fmtpar[key(g)]; va = g.vararg
            if idx is None or idx >= len(i.args):
                continue
            n += 1
            work.append((f, i, idx, va, scan))
    viol = set()
    nconst = nargs = nprop = ntmpl = 0
    seenob = set()
    k = 0
    while k < len(work):
        f, i, idx, va, scan = work[k]; k += 1
        if (f.key, f.unit, i.id, idx) in seenob:
            continue
        seenob.add((f.key, f.unit, i.id, idx))
        pr = rp[f.unit]
        res = consts(pr, f, i.args[idx], set())
        callee = i.callee or "a function pointer"
        for r in res:
            if r[0] == "s":
                nconst += 1
                want = parse(r[1], scan)
                if want is None:
                    ctx.violation("%s|%s|malformed" % (f.name, callee), where(f, i.line), "malformed or forbidden conversion in format %r" % r[1])
                elif va:
                    nfix = i.d.get("nfix", idx + 1)
                    got = i.d["ats"][nfix:]
                    nargs += len(want)
                    if len(want) > len(got):
                        ctx.violation("%s|%s|count" % (f.name, callee), where(f, i.line),
                                      "format %r wants %d arguments, %d given" % (r[1], len(want), len(got)))
                    else:
                        for a, (w, g) in enumerate(zip(want, got)):
                            if w != g:
                                ctx.violation("%s|%s|type" % (f.name, callee), where(f, i.line),
                                              "format %r: argument %d is %s, the conversion needs %s" % (r[1], a + 1, g, w))
            elif r[0] == "param":
                if key(f) in fmtpar and fmtpar[key(f)] == r[1]:
                    continue            # a wrapper: its callers are obligations themselves
                # plain function passing a parameter as a format: its callers must pass constants
                nprop += 1
                found = False
                for h in funcs:
                    if rp[h.unit].func(h.unit, f.name) is not f:
                        continue
                    for j in h.calls():
                        if j.callee == f.name and r[1] < len(j.args):
                            found = True
                            work.append((h, j, r[1], False, scan))
                if not found:
                    ctx.violation("%s|%s|parameter" % (f.name, callee), where(f, i.line),
                                  "the format passed to %s is a parameter of a function called only through pointers" % callee)
            elif template(pr, f, i.args[idx]):
                ntmpl += 1
                ctx.sample("template from configuration: %s -> %s" % (where(f, i.line), callee))
                break
            else:
                ctx.violation("%s|%s|variable" % (f.name, callee), where(f, i.line),
                              "the format passed to %s is %s, not a constant" % (callee, r[1]))
    # self-test of the conversion parser
    if parse("a%%b%-35s %3u %lx %.2f %*d %c\n") != ["p", "i32", "i64", "d", "i32", "i32", "i32"] or parse("%q!") is not None:
        raise ir.Broken("format parser self-test failed")
    ctx.floor("formatted_calls", n, 900)
    ctx.floor("format_wrappers", nw, 4)
    ctx.cov["constant_formats_checked"] = nconst
    ctx.cov["arguments_checked"] = nargs
    ctx.cov["configured_templates"] = ntmpl
    ctx.cov["obligations_passed_to_callers"] = nprop
