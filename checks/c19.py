"""C19: every documented option, keyword and command has a handler."""
import os, re
from sa.cg import CG, root
from sa.ctx import where
from sa import ir

TECHNIQUE = "agreement analysis between tables and handlers over LLVM IR: constant data flow from getopt, the keyword parsers and the configuration lookups to every switch and comparison, compared with the option tables, the usage texts and the sample configuration"
NOTE = ("Whether the handler of an option does what its name says is not judged, only that there is one with an effect and that it agrees with the tables and the usage text. "
        "A keyword parser is a function (or a chain of string comparisons) that yields four or more different constants.")

GETOPT = ("getopt_long", "getopt", "getopt_long_only")
STRCMP = ("strcasecmp", "strcmp", "strncasecmp", "strncmp", "stricmp", "strnicmp", "strieq", "strnieq", "streq", "stricmp_", "wildmatch")
CFGET = ("cf_get_string",)


def sval(P, f, v):
    if v[0] == "ce":
        v = v[1]
    g = P.glob(f.unit, v[1]) if v[0] == "g" else None
    if g is None or not isinstance(g.init, dict) or "str" not in g.init:
        return "" if g is not None and isinstance(g.init, dict) and g.init.get("zero") else None
    return g.init["str"].rstrip("\0")


def num(v):
    return v[1] if v[0] == "i" else None


class Flow:
    """where a value goes: SSA values, parameters, results, fields and globals holding it"""

    def __init__(self, P, cg):
        self.P = P; self.cg = cg
        self.uses = {}            # function key -> {ssa: [ins]}
        self.loads = {}           # place -> [(f, ins)]
        self.stores = {}
        for f in cg.fn.values():
            for i in f.all():
                if i.op in ("load", "store"):
                    p = self.place(f, i.d["p"])
                    (self.loads if i.op == "load" else self.stores).setdefault(p, []).append((f, i))

    def place(self, f, v):
        b, sf = root(f, v)
        if sf:
            return ("f",) + tuple(sf)
        if b[0] == "g":
            return ("g", b[1])
        if b[0] == "a":
            return ("a", f.key, b[1])
        return None

    def usemap(self, f):
        u = self.uses.get(f.key)
        if u is None:
            u = self.uses[f.key] = {}
            for i in f.all():
                d = i.d
                for k in ("a", "c", "v", "p"):
                    x = d.get(k)
                    if not x:
                        continue
                    for v in (x if isinstance(x[0], list) else [x]):
                        if v and v[0] == "v":
                            u.setdefault(v[1], []).append(i)
                if i.op == "phi":
                    for v, _ in d["in"]:
                        if v[0] == "v":
                            u.setdefault(v[1], []).append(i)
        return u

    def close(self, start):
        """(tests, consts, open): tests = [(f, constant, ins, target block)], consts merged in on the way"""
        todo = list(start); seen = set(todo); tests = []; consts = set(); opened = False

        def add(f, v):
            k = (f.key, v)
            if k not in seen:
                seen.add(k); todo.append(k)

        places = set()

        def place(p):
            nonlocal opened
            if p is None or p in places:
                return
            places.add(p)
            for f, i in self.loads.get(p, ()):
                add(f, i.id)
            for f, i in self.stores.get(p, ()):
                if num(i.d["v"]) is not None:
                    consts.add(num(i.d["v"]))
                elif i.d["v"][0] == "v" and (f.key, i.d["v"][1]) not in seen:
                    opened = True

        while todo:
            fk, v = todo.pop()
            f = self.cg.fn[fk]
            for i in self.usemap(f).get(v, ()):
                if i.op in ("cast", "freeze"):
                    add(f, i.id)
                elif i.op in ("phi", "select"):
                    for x in ([a for a, _ in i.d["in"]] if i.op == "phi" else i.d["a"][1:]):
                        if num(x) is not None:
                            consts.add(num(x))
                        elif x[0] == "v" and (fk, x[1]) not in seen and not (f.ins.get(x[1]) is not None and f.ins[x[1]].op == "phi"):
                            opened = True
                    add(f, i.id)
                elif i.op == "store" and i.d["v"] == ["v", v]:
                    place(self.place(f, i.d["p"]))
                elif i.op == "ret":
                    for g, c in self.cg.callers.get(fk, ()):
                        add(g, c.id)
                elif i.op == "switch":
                    for c, b in i.d["cs"]:
                        tests.append((f, c, i, b))
                    tests.append((f, None, i, i.d["d"]))
                elif i.op == "icmp":
                    o = [num(x) for x in i.d["a"] if num(x) is not None]
                    if o and i.d["pr"] in ("eq", "ne"):
                        tests.append((f, o[0], i, self.target(f, i)))
                    elif o:
                        tests.append((f, ("range", i.d["pr"], o[0]), i, None))
                elif i.op == "call":
                    for k, a in enumerate(i.args):
                        if a == ["v", v] and i.callee is not None:
                            for g in self.cg.targets(f, i):
                                g = self.cg.fn.get(g) if isinstance(g, str) else g
                                if g is not None and k < g.nparams:
                                    add(g, k)
        return tests, consts, opened

    def target(self, f, i):
        for u in self.usemap(f).get(i.id, ()):
            if u.op == "br" and "c" in u.d:
                s = f.succs(u.blk)
                return s[0] if i.d["pr"] == "eq" else s[1]
        return None


def region(f, b, stop):
    seen = {b}; todo = [b]
    while todo:
        for s in f.succs(todo.pop()):
            if s not in seen and s != stop:
                seen.add(s); todo.append(s)
    return seen


def usage_text(P, cg, f):
    out = []
    for h in cg.fn.values():
        if h.unit != f.unit:
            continue
        for y in h.calls():
            for a in y.args:
                z = sval(P, h, a)
                if z and "\n" in z and re.search(r"(?m)^\s*(-\w )?\s*--\w", z):
                    out.append(z)
    return "\n".join(out)


def options(ctx, P, cg, fl, prog, f, call):
    opt = sval(P, f, call.args[2])
    if opt is None:
        raise ir.Broken("C19: the option string of %s is not a constant" % prog)
    short = {}
    o = opt.lstrip("+-:"); k = 0
    while k < len(o):
        c = o[k]; a = 0; k += 1
        while k < len(o) and o[k] == ":":
            a += 1; k += 1
        short[c] = a
    longs = []
    if call.callee != "getopt" and call.args[3][0] in ("g", "ce"):
        v = call.args[3]
        g = P.glob(f.unit, (v[1] if v[0] == "ce" else v)[1])
        for e in (g.init or {}).get("agg", ()):
            if isinstance(e, dict) and "agg" in e:
                e = e["agg"]
                n = sval(P, f, e[0])
                if n:
                    longs.append((n, num2(e[1]), e[2], num2(e[3])))
    tests, _, _ = fl.close([(f.key, call.id)])
    hand = {}
    for g, c, i, b in tests:
        if isinstance(c, int):
            hand.setdefault(c, []).append((g, i, b))
    W = where(f, call.line)
    names = {}
    for c in short:
        names.setdefault(ord(c), []).append("-" + c)
    for n, a, flg, v in longs:
        names.setdefault(v, []).append("--" + n)
    ctx.count("options", len(names)); ctx.count("spellings", len(short) + len(longs))
    for v, ns in sorted(names.items()):
        if v == 0:
            continue
        if v not in hand:
            ctx.violation("%s|%s|no handler" % (prog, ns[0]), W, "%s accepts the option %s, but no branch on getopt's result acts on it" % (prog, "/".join(ns)))
    for n, a, flg, v in longs:
        c = chr(v) if 32 < v < 127 else None
        if c in short and (a != 0) != (short[c] != 0):
            ctx.violation("%s|--%s|argument" % (prog, n), W, "%s: --%s %s an argument while -%s %s" % (prog, n, "takes" if a else "does not take", c, "takes one" if short[c] else "does not"))
    # what the handler does
    regs = {}
    for v, hs in hand.items():
        for g, i, b in hs:
            if v in names and b is not None:
                stop = call.blk if g.key == f.key else None
                regs.setdefault((g.key, i.blk if i.op == "switch" else -1), {})[v] = (g, i, b, region(g, b, stop))
    takes = {ord(c): a for c, a in short.items()}
    for n, a, flg, v in longs:
        takes[v] = max(takes.get(v, 0), a)
    for grp in regs.values():
        targets = {x[2] for x in grp.values()}
        if len(targets) < 3:
            continue
        cnt = {}
        for t in targets:
            r = next(x[3] for x in grp.values() if x[2] == t)
            for b in r:
                cnt[b] = cnt.get(b, 0) + 1
        common = {b for b, k in cnt.items() if k * 2 >= len(targets)}
        for v, (g, i, b, r) in sorted(grp.items()):
            own = r - common
            eff = False; reads = False
            for blk in own:
                for x in g.blocks[blk]:
                    if x.op in ("store", "ret", "unreachable"):
                        eff = True
                    if x.op == "call" and not (x.callee or "").startswith("llvm."):
                        eff = True
                        for t in cg.targets(g, x):
                            t = cg.fn.get(t) if isinstance(t, str) else t
                            if t is not None and any(fl.place(t, y.d["p"]) == ("g", "optarg") for y in t.all() if y.op == "load"):
                                reads = True
                    if x.op == "load" and fl.place(g, x.d["p"]) == ("g", "optarg"):
                        reads = True
            src = own or {i.blk}
            for blk in common:
                for x in g.blocks[blk]:
                    if x.op == "phi":
                        for val, p in x.d["in"]:
                            if p in src and (own or b == blk) and not (val[0] == "v" and val[1] in g.ins and g.ins[val[1]].op == "phi" and g.ins[val[1]].blk not in own):
                                eff = eff or bool(own)
            if not own and i.op == "switch" and b != i.d["d"] and sum(1 for c, t in i.d["cs"] if t == b) == 1:
                # nothing but a value on the switch's own edge
                for x in g.blocks[b]:
                    if x.op == "phi":
                        eff = eff or any(p == i.blk and num(val) is not None for val, p in x.d["in"])
            # a handler that is the common code itself: phis select on the switch's edge
            if not eff:
                ctx.violation("%s|%s|no effect" % (prog, names[v][0]), where(g, i.line), "%s: the handler of %s does nothing" % (prog, "/".join(names[v])))
            ctx.count("handlers")
            if reads and not takes.get(v):
                ctx.violation("%s|%s|reads argument" % (prog, names[v][0]), where(g, i.line), "%s: the handler of %s reads the option's argument, but the option takes none" % (prog, "/".join(names[v])))
            if not reads and takes.get(v):
                ctx.violation("%s|%s|ignores argument" % (prog, names[v][0]), where(g, i.line), "%s: %s takes an argument that its handler never reads" % (prog, "/".join(names[v])))
    # the usage text
    ln = {n: v for n, a, flg, v in longs}
    for m in re.finditer(r"(?m)^\s*(?:[Oo]ptions:)?\s*(?:-(\w)\b)?\s*(?:--([\w-]+))?", usage_text(P, cg, f)):
        c, n = m.groups()
        if not c and not n:
            continue
        ctx.count("documented")
        if n and n not in ln:
            ctx.violation("%s|--%s|documented" % (prog, n), W, "%s documents --%s, which it does not know" % (prog, n))
        if c and c not in short:
            ctx.violation("%s|-%s|documented" % (prog, c), W, "%s documents -%s, which it does not know" % (prog, c))
        if c and n in ln and ln[n] != ord(c):
            ctx.violation("%s|--%s|pair" % (prog, n), W, "%s documents -%s and --%s as one option, but --%s is handled as %r" % (prog, c, n, n, chr(ln[n]) if 32 < ln[n] < 127 else ln[n]))


def num2(v):
    if isinstance(v, int):
        return v
    if isinstance(v, dict):
        v = v.get("int", v.get("i", 0))
        return v if isinstance(v, int) else 0
    if isinstance(v, (list, tuple)):
        return v[1] if v and v[0] == "i" else 0
    return 0


def keyword_parsers(P, cg, fl):
    """[(name, function, start nodes, {keyword: constant})]"""
    out = []
    for f in cg.fn.values():
        ks = [i for i in f.calls() if i.callee in STRCMP and any(sval(P, f, a) for a in i.args[:2])]
        if len(ks) < 4:
            continue
        # the value chosen by the branch on each comparison
        best = {}
        kb = {}
        for i in ks:
            word = next(sval(P, f, a) for a in i.args[:2] if sval(P, f, a))
            for b in branches(f, fl, i):
                kb.setdefault(b, []).append(word)
        for b, words in kb.items():
            # follow single successors to a phi
            prev = b; seen = set()
            cur = f.succs(b)
            while len(cur) == 1 and cur[0] not in seen:
                nb = cur[0]; seen.add(nb)
                done = False
                for x in f.blocks[nb]:
                    if x.op == "phi" and x.ty.startswith("i") and x.ty not in ("i1",):
                        for val, p in x.d["in"]:
                            if p == prev and num(val) is not None:
                                for w in words:
                                    best.setdefault((f.key, x.id), {})[w] = num(val)
                prev = nb; cur = f.succs(nb)
                if any(x.op in ("call", "store") for x in f.blocks[nb]):
                    break
        for b, words in kb.items():
            for x in f.blocks[b]:
                if x.op == "store" and num(x.d["v"]) is not None:
                    p = fl.place(f, x.d["p"])
                    for w in words:
                        best.setdefault((f.key, "p", p), {})[w] = num(x.d["v"])
        for k in [k for k in best if k[1] != "p"]:
            # a chain of if / else if: each comparison joins at a phi of its own
            todo = [k[1]]; seen = {k[1]}
            while todo:
                for v, p in f.ins[todo.pop()].d["in"]:
                    if v[0] == "v" and v[1] in f.ins and f.ins[v[1]].op == "phi" and v[1] not in seen:
                        seen.add(v[1]); todo.append(v[1])
            for v in seen:
                for w, c in best.get((f.key, v), {}).items():
                    best[k].setdefault(w, c)
        top = {}
        for k, m in best.items():
            if not any(o is not m and len(o) > len(m) and all(o.get(w) == c for w, c in m.items()) for o in best.values()):
                top[k] = m
        for k, m in top.items():
            if len(set(m.values())) >= 4:
                out.append((f, k, m))
    return out


def branches(f, fl, i):
    """blocks taken when the comparison says "equal\""""
    out = []
    todo = [(i.id, i.callee in ("strieq", "strnieq", "streq", "wildmatch"))]
    seen = set()
    while todo:
        v, pos = todo.pop()
        if (v, pos) in seen:
            continue
        seen.add((v, pos))
        for u in fl.usemap(f).get(v, ()):
            if u.op == "icmp" and any(num(x) == 0 for x in u.d["a"]):
                todo.append((u.id, (u.d["pr"] == "ne") == pos if u.d["pr"] in ("eq", "ne") else pos))
            elif u.op in ("cast",):
                todo.append((u.id, pos))
            elif u.op == "bin" and u.d["k"] == "xor":
                todo.append((u.id, not pos))
            elif u.op == "br" and "c" in u.d:
                s = f.succs(u.blk)
                out.append(s[0] if pos else s[1])
    return out


def run(ctx):
    ctx.rule("every option in a program's option string and long option table is compared for, and the branch taken has an effect")
    ctx.rule("a long option takes an argument exactly when the short one with the same code does; a handler reads the argument exactly when the option takes one")
    ctx.rule("every option in the usage text exists, and options documented together have the same code")
    ctx.rule("of the constants a keyword parser yields at most one is left to the default of the code acting on them, and every constant that code tests for is yielded by some keyword")
    ctx.rule("every configuration keyword of the sample configuration is looked up by some program")
    ctx.assumption("getopt_long() behaves as documented")
    R = ctx.repo
    looked = set(); pars = {}
    for prog, P in sorted(R.progs.items()):
        cg = CG(P); fl = Flow(P, cg)
        for f in list(cg.fn.values()):
            for i in f.calls():
                if i.callee in GETOPT:
                    options(ctx, P, cg, fl, prog, f, i); ctx.count("getopt calls")
                for a in i.args:
                    z = sval(P, f, a)
                    if z:
                        looked.add(z.lower())
        for u in P.units:
            for g in u.globals.values():
                strings(g.init, looked)
        for f, k, m in keyword_parsers(P, cg, fl):
            vals = set(m.values())
            if k[1] == "p":
                start = [(g.key, i.id) for g, i in fl.loads.get(k[2], ())]
            else:
                start = [(k[0], k[1])]
            tests, consts, opened = fl.close(start)
            d = pars.setdefault((f.unit, f.name, tuple(sorted(m.items()))), [f, m, [], set(), False])
            d[2] += tests; d[3] |= consts; d[4] = d[4] or opened
        switches(ctx, P, cg, fl, prog)
    for (u, n, _), (f, m, tests, consts, opened) in sorted(pars.items(), key=lambda x: x[0][:2]):
        vals = set(m.values())
        tested = {c for g, c, i, b in tests if isinstance(c, int)}
        if len(tested & vals) < 2:
            continue
        ctx.count("keywords", len(m)); ctx.count("keyword parsers")
        ctx.sample("%s: %d keywords, %d codes, %d of them tested" % (n, len(m), len(vals), len(tested & vals)))
        left = sorted(v for v in vals if v not in tested and v > 0)
        sw = {}
        for g, c, i, b in tests:
            if i.op == "switch" and isinstance(c, int):
                sw.setdefault((g.key, i.id), set()).add(c)
        most = max((len(x & vals) for x in sw.values()), default=0)
        if len(tested & vals) * 10 >= len(vals) * 7 and len(left) > (0 if most * 10 >= len(vals) * 6 else 1):
            ws = sorted(w for w, c in m.items() if c in left)
            ctx.violation("%s|%s" % (n, ",".join(ws)), where(f, f.line), "the keywords %s are recognised by %s(), but no code acts on them" % (", ".join(ws), n))
        if not opened:
            for g, c, i, b in tests:
                if isinstance(c, int) and c > 0 and c not in vals | consts:
                    ctx.violation("%s|%s|%d" % (n, g.name, c), where(g, i.line), "%s() acts on the code %d, which no keyword of %s() yields" % (g.name, c, n))
    looked |= elsewhere()
    conf = os.path.join(ir.REPO, "configs")
    for n in sorted(os.listdir(conf)) if os.path.isdir(conf) else ():
        if not n.startswith("fidogate.conf") or os.path.exists(os.path.join(conf, n + ".in")):
            continue
        for ln, l in enumerate(open(os.path.join(conf, n), errors="replace"), 1):
            m = re.match(r"#?([A-Z][A-Za-z0-9-]+)(?=\s|$)", l)
            if m:
                ctx.count("sample keywords")
                if m.group(1).lower() not in looked:
                    ctx.violation("config|%s" % m.group(1), "configs/%s:%d" % (n, ln), "the sample configuration documents %s, which no program looks up" % m.group(1))
    ctx.floor("getopt calls", ctx.cov.get("getopt calls", 0), 10)
    ctx.floor("keyword parsers", ctx.cov.get("keyword parsers", 0), 1)


def switches(ctx, P, cg, fl, prog):
    """a variable set from the options or the configuration that can only ever have its initial value"""
    for place, st in fl.stores.items():
        if place is None or place[0] != "g" or not fl.loads.get(place):
            continue
        f0 = st[0][0]
        g = P.glob(f0.unit, place[1])
        if g is None or g.init is None or any(root(f, i.d["p"])[0] != ("g", place[1]) or i.d["p"][0] != "g" for f, i in st):
            continue
        init = g.init if isinstance(g.init, int) else num2(g.init) if isinstance(g.init, (list, tuple)) else 0 if g.init.get("zero") else None
        if init is None or any(num(i.d["v"]) is None for f, i in st):
            continue
        ctx.count("switches")
        if {num(i.d["v"]) for f, i in st} == {init}:
            f, i = st[0]
            ctx.violation("%s|%s|never changes" % (f.unit, place[1]), where(f, i.line), "%s is only ever set to %d, its initial value: what is meant to switch it has no effect" % (place[1], init))


def elsewhere():
    """names used by scripts and by code this configuration leaves out"""
    out = set()
    for d, sub, fs in os.walk(os.path.join(ir.REPO, "scripts")):
        for n in fs:
            try:
                out |= {w.lower() for w in re.findall(r"[A-Za-z][A-Za-z0-9-]+", open(os.path.join(d, n), errors="replace").read())}
            except OSError:
                pass
    for d, sub, fs in os.walk(os.path.join(ir.REPO, "src")):
        for n in fs:
            if n.endswith((".c", ".h")):
                t = re.sub(r"/\*.*?\*/", "", open(os.path.join(d, n), errors="replace").read(), flags=re.S)
                if "#if" in t:
                    for m in re.finditer(r"(?ms)^#\s*if.*?^#\s*endif", t):
                        out |= {w.lower() for w in re.findall(r'"([A-Za-z][A-Za-z0-9-]+)"', m.group(0))}
    return out


def strings(v, out):
    if isinstance(v, dict):
        if "str" in v:
            out.add(v["str"].rstrip("\0").lower())
        for x in v.values():
            strings(x, out)
    elif isinstance(v, list):
        for x in v:
            strings(x, out)
