"""C21: programs installed set-user-id run only fixed programs with vetted arguments."""
import os, re
from sa import ir
from sa.cg import CG
from sa.taint import Taint, SHELL, PATH, ANY
from sa.nettaint import PATHS

TECHNIQUE = "interprocedural taint dataflow over LLVM IR from the caller's arguments and environment, and a forward dataflow over the order in which the argument vector of the started program is filled"
NOTE = ("Which programs are set-user-id is read from the installation rules. Options whose value the started program takes as a file name are those not listed as addresses (-a, -u); their value must begin with a fixed "
        "directory and be free of '..'. ftnnews is not part of the build and not analysed.")

CALLER = "text from the caller"
EXEC = ("execv", "execve", "execvpe", "execvp", "execl", "execlp", "execle", "fexecve", "posix_spawn", "posix_spawnp")
SEARCH = ("execvp", "execlp", "execvpe", "posix_spawnp")
ADDR = ("-a", "-u")
COPIES = {"str_copy": 2, "str_copy2": 2, "str_copy3": 2, "str_copy4": 2, "str_copy5": 2, "str_printf": 2, "snprintf": 2, "sprintf": 1, "strcpy": 1, "strncpy": 1, "memcpy": 1}


def setuid_programs(R):
    out = {}
    rule = re.compile(r"chmod\s+([0-7]*[4-7][0-7]{3}|[ugo]*\+s)\s+\S*/(\w+)")
    for dp, dn, fn in os.walk(os.path.join(ir.REPO, "src")):
        for n in fn:
            if n == "Makefile.am":
                for l, t in enumerate(open(os.path.join(dp, n), errors="replace"), 1):
                    m = rule.search(t)
                    if m:
                        out[m.group(2)] = "%s:%d" % (os.path.relpath(os.path.join(dp, n), ir.REPO), l)
    return out


def const(P, f, v):
    g = P.glob(f.unit, v[1]) if v[0] == "g" else None
    s = g.string() if g is not None else None
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return s.rstrip("\0") if s is not None else None


def base(f, v):
    """what a pointer is based on"""
    while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op in ("gep", "cast"):
        i = f.ins[v[1]]
        v = i.d["p"] if i.op == "gep" else i.d["a"][0]
    if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "phi":          # a cursor into the same vector
        bs = set()
        todo = [v[1]]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for w, _ in f.ins[x].d["in"]:
                w = base_simple(f, w)
                if w[0] == "v" and w[1] >= f.nparams and f.ins[w[1]].op == "phi":
                    todo.append(w[1])
                else:
                    bs.add(tuple(w[:2]))
        if len(bs) == 1:
            return list(bs.pop())
    return v


def base_simple(f, v):
    while v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op in ("gep", "cast"):
        i = f.ins[v[1]]
        v = i.d["p"] if i.op == "gep" else i.d["a"][0]
    return v


class Vector:
    """the order in which the elements of an argument vector are put there"""

    def __init__(self, P, cg, T, D, opts, report):
        self.P = P; self.cg = cg; self.T = T; self.D = D; self.opts = opts; self.report = report; self.n = 0; self.vals = 0

    def run(self, f, vec, ins, param=None, depth=0):
        """vec: base of the vector in f; ins: states on entry; param: (caller, call) when f is a helper; -> states on exit"""
        st = {0: frozenset(ins)}; pend = {0}; out = set(); cnt = 0
        while pend and cnt < 3000:
            cnt += 1
            b = min(pend); pend.discard(b)
            s = st[b]
            for i in f.blocks[b]:
                s = self.step(f, i, s, vec, param, depth)
            if f.blocks[b][-1].op == "ret":
                out |= s
            for t in f.succs(b):
                n = st.get(t, frozenset()) | s
                if n != st.get(t):
                    st[t] = n; pend.add(t)
        return frozenset(out)

    def step(self, f, i, s, vec, param, depth):
        if i.op == "store" and i.d.get("vt") == "p" and list(base(f, i.d["p"]))[:2] == list(vec)[:2]:
            return self.push(f, i, i.d["v"], s, param)
        if i.op == "call" and depth < 3:
            for k, a in enumerate(i.args):
                if a[0] == "v" and list(base(f, a))[:2] == list(vec)[:2]:
                    for t in self.cg.targets(f, i):
                        if k < t.nparams:
                            s = self.run(t, ["v", k], s, (f, i, param), depth + 1)
        return s

    def push(self, f, i, v, s, param):
        chain = [(f, i)]
        lab = None
        while v[0] == "v" and v[1] < f.nparams and param is not None:
            f, i, up = param
            v = i.args[v[1]]; param = up
            chain.append((f, i))
            lab = True
        self.n += 1
        if v[0] == "n":
            return s
        c = const(self.P, f, v)
        if c is not None:
            if c == "--":
                return frozenset("D")
            return frozenset("D" if x == "D" else ("O", c) if c.startswith("-") else "W" for x in s)
        L, d = self.labels(chain[0] if lab is None else chain[-1], v, lab)
        if not any(self.T.callers(k) for k in L):
            return frozenset("D" if x == "D" else "W" for x in s)
        self.vals += 1
        where = "%s:%s:%d" % (f.unit, f.name, i.line)
        for x in s:
            if x == "D":
                continue
            if not isinstance(x, tuple):
                self.report("word", where, "text from the caller is put on the command line where it can be taken for an option (no '--' before it and not the value of an option)")
            elif x[1][1:] not in self.opts:
                self.report("value", where, "text from the caller follows the option %s, which takes no value, and can be taken for an option" % x[1])
            elif x[1] not in ADDR:
                if any(self.T.callers(k) and c & PATH for k, c in d.items()):
                    self.report("dots", where, "the value of %s from the caller may contain '..'" % x[1])
                if not self.prefixed(f, v):
                    self.report("prefix", where, "the value of %s from the caller does not begin with a fixed directory" % x[1])
        return frozenset("D" if x == "D" else "W" for x in s)

    def labels(self, at, v, viaparam):
        f, i = at
        if viaparam is None:
            k = (f.key, i.id)
            return self.T.stored.get(k, {}), self.D.stored.get(k, {})
        # handed to a helper: what the argument held at the call
        return self.T.passed.get((f.key, i.id, tuple(v[:2])), {}), self.D.passed.get((f.key, i.id, tuple(v[:2])), {})

    def prefixed(self, f, v, depth=0):
        """the buffer was begun with the constant "%S/" """
        b = base_simple(f, v)
        if b[0] == "v" and b[1] >= f.nparams and f.ins[b[1]].op != "alloca" or b[0] != "v" or b[1] < f.nparams and depth == 0:
            return False
        ok = None
        for i in f.calls():
            if not i.args or i.callee is None:
                continue
            n = i.callee
            mine = [k for k, a in enumerate(i.args) if a[0] == "v" and list(base_simple(f, a)) == list(b)]
            if mine and n not in COPIES and depth < 3:
                for t in self.cg.targets(f, i):
                    for k in mine:
                        if k < t.nparams and not t.unit.startswith("common/"):
                            r = self.prefixed(t, ["v", k], depth + 1)
                            if r is not None:
                                ok = r if ok is None else ok and r
            if 0 not in mine:
                continue
            if n.startswith("llvm.") or n in ("strcat", "strncat", "str_append", "str_append2", "strlen"):
                continue
            if n not in COPIES:
                continue
            first = COPIES[n]
            c = const(self.P, f, i.args[first]) if first is not None and first < len(i.args) else None
            if c is not None and n in ("str_printf", "snprintf", "sprintf"):
                c = c.replace("%%", "%") if c.startswith("%%") else "" if c.startswith("%") else c
            good = c is not None and (c.startswith("%S/") or c.startswith("/"))
            ok = good if ok is None else ok and good
        return bool(ok) if depth == 0 else ok


def derived(f, v, depth=0):
    """what a number is computed from: parameters and globals"""
    if v[0] == "v" and depth < 6:
        if v[1] < f.nparams:
            return {("p", v[1])}
        i = f.ins[v[1]]
        if i.op == "load":
            return {("g", i.d["p"][1])} if i.d["p"][0] == "g" else set()
        if i.op in ("bin", "cast"):
            out = set()
            for a in i.d["a"]:
                out |= derived(f, a, depth + 1)
            return out
    return set()


def reaches(f, b, target):
    seen = {b}; todo = [b]
    while todo:
        x = todo.pop()
        if x == target:
            return True
        for s in f.succs(x):
            if s not in seen:
                seen.add(s); todo.append(s)
    return False


def counted(f, blk):
    """blk is reached only past a comparison of the number of arguments whose other side does not lead there"""
    cut = set()
    for b, ins in enumerate(f.blocks):
        t = ins[-1]
        if t.op == "br" and t.d.get("c") and len(t.d["s"]) == 2 and t.d["c"][0] == "v" and t.d["c"][1] >= f.nparams:
            c = f.ins[t.d["c"][1]]
            if c.op == "icmp":
                d = derived(f, c.d["a"][0]) | derived(f, c.d["a"][1])
                if ("p", 0) in d and ("g", "optind") in d:
                    for n in (0, 1):
                        if not reaches(f, t.d["s"][1 - n], blk):
                            cut.add((b, t.d["s"][n]))
    seen = {0}; todo = [0]
    while todo:
        x = todo.pop()
        if x == blk:
            return False
        for s in f.succs(x):
            if (x, s) not in cut and s not in seen:
                seen.add(s); todo.append(s)
    return True


def optvalues(P):
    """the options of a program that take a value"""
    for f in P.funcs():
        for i in f.calls():
            if i.callee in ("getopt", "getopt_long") and f.name == "main":
                s = const(P, f, i.args[2])
                if s is not None:
                    return {s[k] for k in range(len(s) - 1) if s[k + 1] == ":" and s[k] != ":"}
    return set()


def started(P, cg, f, v):
    """base names of the program a path names"""
    c = const(P, f, v)
    if c is not None:
        return {c.rsplit("/", 1)[-1]}
    b = base_simple(f, v)
    out = set()
    for g in cg.fn.values():
        for i in g.calls():
            if i.args and list(base_simple(g, i.args[0]))[:2] == list(b)[:2] and (b[0] == "g" or g is f):
                for a in i.args[1:]:
                    c = const(P, g, a)
                    if c and c.strip("/"):
                        out.add(c.rsplit("/", 1)[-1])
    return out


def run(ctx):
    R = ctx.repo
    ctx.rule("in a set-user-id program no text from its caller is (part of) the path of a program it starts or of a file it opens, and none is given to the shell unless it was found free of characters the shell acts on")
    ctx.rule("text from its caller stands on the command line of the started program only as the value of an option that takes one, or after \"--\"; a value that names a file begins with a fixed directory and contains no '..'")
    ctx.rule("a list of arguments that does not fit is refused: the program is started only past a comparison of the number of arguments")
    ctx.rule("no program is looked for along the caller's search path by exec")
    ctx.assumption("the caller has other rights than the program (real and effective user differ); where the code found them equal nothing is demanded")
    ctx.assumption("the configuration installed is the system's own; the commands configured in it are trusted to be named by full path")
    su = setuid_programs(R)
    nprog = nexec = nel = nval = nopen = nsys = 0
    for pn in sorted(su):
        P = R.progs.get(pn)
        if P is None:
            ctx.sample("%s (%s): not part of this build, not analysed" % (pn, su[pn]))
            continue
        nprog += 1
        sinks = {"system": [(0, SHELL, "shell")], "popen": [(0, SHELL, "shell")]}
        for n, l in PATHS.items():
            sinks[n] = [(k, ANY, "file") for k, _, _ in l]
        for n in EXEC:
            sinks[n] = [(1 if n.startswith("posix_spawn") else 0, ANY, "program")]
        T = Taint(P, sinks, lambda f, i: None, args=CALLER)
        F = T.run()
        D = Taint(P, {}, lambda f, i: None, args=CALLER, dots=True)
        D.run()
        cg = T.cg
        fn = {f.key: f for f in P.funcs()}
        for (k, src), _ in sorted(F.items(), key=str):
            f = fn.get(k[2])
            where = "%s:%s:%d" % (f.unit, f.name, k[3]) if f is not None else str(k[2])
            what = {"shell": "is given to the shell by %s() and may contain characters the shell acts on", "file": "is used as the name of a file by %s()", "program": "is used as the path of the program started by %s()"}[k[0]] % k[1]
            ctx.violation("%s|%s|%s" % (pn, k[0], f.name if f is not None else k[2]), where, "%s: %s %s" % (pn, src, what))
        for f in fn.values():
            for i in f.calls():
                if i.callee in PATHS:
                    nopen += 1
                if i.callee in ("system", "popen"):
                    nsys += 1
                if i.callee not in EXEC or cg.targets(f, i):
                    continue
                nexec += 1
                where = "%s:%s:%d" % (f.unit, f.name, i.line)
                ctx.sample("%s: %s %s()" % (pn, where, i.callee))
                if i.callee in SEARCH:
                    ctx.violation("%s|search|%s" % (pn, f.name), where, "%s: %s() looks for the program along the caller's search path" % (pn, i.callee))
                names = started(P, cg, f, i.args[0])
                opts = set()
                for n in names:
                    if n in R.progs:
                        opts |= optvalues(R.progs[n])
                if not i.callee.startswith("execv"):
                    continue
                vecs = [base(f, i.args[1])]
                if vecs[0][0] == "v" and vecs[0][1] >= f.nparams and f.ins[vecs[0][1]].op in ("phi", "select"):
                    x = f.ins[vecs[0][1]]
                    vecs = [base(f, w) for w in ([w for w, _ in x.d["in"]] if x.op == "phi" else x.d["a"][1:])]

                def report(kind, where, msg, pn=pn):
                    ctx.violation("%s|%s|%s" % (pn, kind, where.split(":")[1]), where, "%s: %s" % (pn, msg))

                pushed = 0
                for vec in vecs:
                    V = Vector(P, cg, T, D, opts, report)
                    home = f
                    if vec[0] == "v" and vec[1] < f.nparams:      # the vector belongs to the caller
                        for g, c in cg.callers.get(f.key, ()):
                            g = cg.fn[g] if not hasattr(g, "blocks") else g
                            V.run(g, base(g, c.args[vec[1]]), {"S"}); home = g
                    elif vec[0] == "g":
                        for g in cg.fn.values():
                            V.run(g, vec, {"S"})
                    else:
                        V.run(f, vec, {"S"})
                    nel += V.n; nval += V.vals; pushed += V.vals
                    if V.vals:
                        blk = i.blk if home is f else next((c.blk for g, c in cg.callers.get(f.key, ())), None)
                        if blk is not None and home.name == "main" and not counted(home, blk):
                            ctx.violation("%s|count|%s" % (pn, home.name), where, "%s: the program is started although arguments of the caller may not have fit" % pn)
    ctx.count("set-user-id programs", nprog); ctx.count("exec calls", nexec); ctx.count("elements put into argument vectors", nel)
    ctx.count("of them from the caller", nval); ctx.count("calls naming files", nopen); ctx.count("calls of the shell", nsys)
    ctx.floor("set-user-id programs", nprog, 3)
    ctx.floor("exec calls", nexec, 2)
    ctx.floor("elements put into argument vectors", nel, 6)
    ctx.floor("of them from the caller", nval, 3)
    ctx.floor("calls of the shell", nsys, 1)
