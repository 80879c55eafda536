"""C09: what may be missing is not dereferenced."""
import os, signal
from multiprocessing import Pool
from sa.cg import CG, ZERO, TOP, NONNULL, root
from sa.sim import Sim, St, Client, trace, norm
from sa.ctx import where
from sa import ir

TECHNIQUE = "per-source null-value propagation, path-sensitive and into callees, from every operation that may give no result to every dereference"
NOTE = ("Sources are library calls and the tree's own functions that can return NULL. Values that reach a use through a global set earlier, or through a list, are not followed; "
        "data/c09_sure.txt lists lookups that cannot fail where they are made, with the reason.")
SURE = os.path.join(ir.VERIF, "data", "c09_sure.txt")
EXT = frozenset("fopen fdopen popen opendir readdir strchr strrchr strstr strpbrk strtok strcasestr memchr getenv getpwnam getpwuid getgrnam gethostbyname bsearch index rindex tmpfile fgets".split())
NUL = (0, 0, False, "NUL")
NEED = {"strlen": (0,), "strcmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strncmp": (0, 1), "strcpy": (0, 1), "strcat": (0, 1), "strncpy": (0, 1), "strncat": (0, 1),
        "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strdup": (0,), "atoi": (0,), "atol": (0,), "strtol": (0,), "strtoul": (0,), "strspn": (0, 1), "strcspn": (0, 1),
        "strpbrk": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "memcmp": (0, 1), "sscanf": (0,), "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "vsprintf": (0,),
        "fgets": (0, 2), "fputs": (0, 1), "fprintf": (0, 1), "vfprintf": (0, 1), "fclose": (0,), "fread": (0, 3), "fwrite": (0, 3), "fseek": (0,), "ftell": (0,), "feof": (0,), "ferror": (0,),
        "getc": (0,), "fgetc": (0,), "putc": (1,), "fputc": (1,), "fileno": (0,), "rewind": (0,), "setbuf": (0,), "setvbuf": (0,), "clearerr": (0,), "ungetc": (1,),
        "closedir": (0,), "readdir": (0,), "pclose": (0,), "getenv": (0,), "puts": (0,), "strftime": (0, 2), "asctime": (0,), "mktime": (0,), "regexec": (0, 1), "regcomp": (0, 1), "stpcpy": (0, 1)}
SILENT = frozenset(["fglog", "debug"])


class NV(Client):
    maxenv = 10

    def __init__(self, fkey, iid):
        self.at = (fkey, iid); self.bad = {}; self.seen = 0; self.probe = False

    def deref(self, f, i, st, base, what):
        if base[0] == "V":
            v = st.env.get(base[1])
            if v is not None and v[3] == "NUL" and v[0] == v[1] == 0:
                self.bad.setdefault((f.key, i.line, what), st.tr)

    def load(self, sim, f, i, st, addr):
        self.deref(f, i, st, addr[0], "read")
        return None

    def store(self, sim, f, i, st, addr, val):
        self.deref(f, i, st, addr[0], "written")

    def enter(self, sim, f, i, targets, st, args):
        if self.probe:
            return len(sim.stack) < 5 and targets[0].ret == "p"
        return any(a[3] == "NUL" for a in args)

    def call(self, sim, f, i, name, targets, st, args):
        if (f.key, i.id) == self.at and not sim.stack:
            self.seen += 1
            if targets:
                # can it give NULL with these arguments, provided that the pointers it is given are there?
                can = False
                self.probe = True
                a2 = [norm(a[0], a[1], True, a[3]) or a if i.d["ats"][k] == "p" else a for k, a in enumerate(args)]
                for t in targets:
                    for s2 in sim._enter(f, i, t, st.copy(), a2):
                        v = s2.env.get(i.id, TOP)
                        if v[0] <= 0 <= v[1] and not v[2]:
                            can = True
                self.probe = False
                if not can:
                    return []
            return [(St("null", dict(st.env), (st.tr, i.line, "%s gives NULL" % name)), NUL)]
        if self.probe:
            return None
        if name in SILENT:
            return [(st, TOP)]
        if not targets:
            for k in NEED.get(name, ()):
                if k < len(args) and args[k][3] == "NUL" and args[k][0] == args[k][1] == 0:
                    self.bad.setdefault((f.key, i.line, "passed to %s" % name), st.tr)
            if name is None:
                return None
        return None


class FV(NV):
    """one load of a field that may be NULL is: the list is empty, the optional part is not there"""
    def __init__(self, fkey, iid, grow):
        NV.__init__(self, fkey, iid); self.grow = grow

    def load(self, sim, f, i, st, addr):
        self.deref(f, i, st, addr[0], "read")
        if (f.key, i.id) == self.at and not sim.stack:
            base, off, sf = addr
            if base[0] != "?" and off is not None:
                key = ("C", base, off, i.d["sz"], sf)
                r = st.env.get(key)
                if r is not None and r != TOP or st.prop and (base, off) in st.prop:
                    return None
                st.env[key] = NUL
            self.seen += 1
            st.tr = (st.tr, i.line, "%s is NULL" % (sf[1] if sf else "it"))
            return NUL
        return None

    def call(self, sim, f, i, name, targets, st, args):
        if not sim.stack and targets:
            for t in targets:
                for k in self.grow.get(t.key, ()):
                    base, off, sf = sim.resolve(f, i.args[k], st.env)
                    if base[0] != "?" and off is not None:
                        pr = frozenset(st.prop or ()) | {(base, off + o) for o, s in self.grow[t.key][k]}
                        return [(St(pr, dict(st.env), st.tr), TOP)]
        return NV.call(self, sim, f, i, name, targets, st, args)


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow()


CACHE = {}


def one(job):
    pn, fk, iid, name, line, lit = job
    prog, cg, rel = CACHE[pn]
    f = cg.fn[fk]
    cl = FV(fk, iid, GROW[pn]) if lit is None else NV(fk, iid)
    s = Sim(prog, cg, cl)
    s.relevant = rel
    signal.signal(signal.SIGALRM, alarm)
    try:
        signal.alarm(60)
        s.run(f, "", {})
        signal.alarm(0)
    except (Slow, ir.Broken):
        signal.alarm(0)
        return job, None
    return job, {k: trace(v) for k, v in cl.bad.items()}


def literal(prog, f, i):
    for a in i.args:
        if a[0] == "g":
            g = prog.glob(f.unit, a[1])
            s = g.string() if g else None
            if s is not None:
                return s
        if a[0] == "i" and i.callee in ("strchr", "strrchr", "index", "rindex"):
            return chr(a[1] & 255)
    return ""


FIELDS = {tuple(x.split(".")) for x in (
    "st_lon.first st_textlist.first "
    "st_host.name st_areasbbs.state st_areasbbs.desc st_areasbbs.key st_tick.replaces st_tick.pw st_body.origin st_body.area st_body.tear Message.area st_alias.userdom "
    "st_mimeinfo.encoding st_mimeinfo.type_type st_mimeinfo.type_charset st_mimeinfo.type st_mimeinfo.type_boundary st_mimeinfo.disposition_filename "
    "st_area.origin st_area.distribution st_area.charset st_outpkt.fp").split()}
GROW = {}


def growers(cg):
    """functions after which the list they are given (parameter k) has an element"""
    g = {}
    for k, f in cg.fn.items():
        for i in f.all():
            if i.op == "store" and i.d["v"][0] == "v" and i.d["v"][1] >= f.nparams:
                b, sf = root(f, i.d["p"])
                if b[0] == "p" and sf in FIELDS and sf[1] == "first" and f.ins[i.d["v"][1]].op == "call" and 0 not in cg.vals(f, i.d["v"], set()):
                    q = f.ins[i.d["p"][1]] if i.d["p"][0] == "v" and i.d["p"][1] >= f.nparams else None
                    if q is None or q.op == "gep" and q.d["p"] == ["v", b[1]]:
                        g.setdefault(k, {})[b[1]] = ((q.d["off"] if q is not None else 0, sf),)
    return g


def tested(f, ci, sf):
    """does a comparison of the field with NULL in f keep the call ci from being reached when it is NULL?"""
    ld = {i.id for i in f.all() if i.op == "load" and root(f, i.d["p"])[1] == sf}
    for br in f.all():
        if br.op != "br" or not br.d.get("c") or br.d["c"][0] != "v" or br.d["c"][1] < f.nparams:
            continue
        c = f.ins[br.d["c"][1]]
        if c.op != "icmp" or c.d["pr"] not in ("eq", "ne") or not any(a[0] == "v" and a[1] in ld for a in c.d["a"]) or not any(a[0] == "n" for a in c.d["a"]):
            continue
        s = br.d["s"][0 if c.d["pr"] == "eq" else 1]
        seen = {s, br.blk}; todo = [s]
        while todo:
            for t in f.succs(todo.pop()):
                if t not in seen:
                    seen.add(t); todo.append(t)
        seen.discard(br.blk)
        if ci.blk not in seen:
            return True
    return False


def setup(r):
    for pn in sorted(r.progs):
        p = r.progs[pn]
        cg = CG(p)
        CACHE[pn] = (p, cg, {k for k, f in cg.fn.items() if f.nparams})
        GROW[pn] = growers(cg)


def run(ctx):
    r = ctx.repo
    ctx.rule("For every call of an operation that can return NULL (library lookups and opens; own functions with NULL among their return values for the constants given): on no path "
             "on which it does is that NULL, or an address computed from it, read, written or passed to a library function that needs an object; calls into the tree are followed. "
             "The same for every read of a field that holds the first element of a list or an optional part (FIELDS), unless the path tested it, an element was added before, or all callers test it.")
    setup(r)
    sure = {}
    for l in open(SURE):
        l = l.rstrip("\n")
        if l and l[0] != "#":
            a = l.split("\t")
            sure[(a[0], a[1], a[2])] = a[3]
    todo = []; seen = set(); own = set(); nf = 0
    for pn in sorted(r.progs):
        p, cg, rel = CACHE[pn]
        for k, f in sorted(cg.fn.items()):
            if (f.unit, f.name) in seen:
                continue
            seen.add((f.unit, f.name))
            for i in f.calls():
                if i.ty != "p":
                    continue
                ts = cg.targets(f, i)
                if ts:
                    if not any(0 in cg.retset[t.key] for t in ts):
                        continue
                    own |= {t.name for t in ts}
                elif i.callee not in EXT:
                    continue
                todo.append((pn, k, i.id, i.callee or "?", i.line, literal(p, f, i)))
            for i in f.all():
                if i.op == "load" and i.ty == "p":
                    sf = root(f, i.d["p"])[1]
                    if sf in FIELDS:
                        todo.append((pn, k, i.id, "%s.%s" % sf, i.line, None)); nf += 1
    slow = 0; n = 0; used = 0
    with Pool(8) as pool:
        for job, bad in pool.imap_unordered(one, todo, 4):
            pn, fk, iid, name, line, lit = job
            f = CACHE[pn][1].fn[fk]
            if bad is None:
                slow += 1
                continue
            n += 1
            if not bad:
                continue
            if any((w, name, lit or "") in sure for w in (f.name, "*", "@" + os.path.basename(where(f, 0).split(":")[0]))):
                used += 1
                continue
            if lit is None:
                # the test may be in the callers
                sf = tuple(name.split("."))
                cs = CACHE[pn][1].callers.get(fk, ())
                if cs and all(tested(g, c, sf) for g, c in cs):
                    used += 1
                    continue
            k, tr = sorted(bad.items())[0]
            g = CACHE[pn][1].fn[k[0]]
            ctx.violation("%s|%s|%s" % (f.name, name, lit or ""), where(f, line), ("%s may be NULL here and is %s at %s" % (name, k[2], where(g, k[1])) if lit is None else
                           "%s(%s) may give NULL, which is %s at %s" % (name, repr(lit) if lit else "", k[2], where(g, k[1]))), tr)
    ctx.cov["own_functions_that_may_return_null"] = len(own)
    ctx.cov["sites_too_slow"] = slow
    ctx.count("sites_sure_to_succeed", used)
    ctx.cov["optional_field_reads"] = nf
    ctx.floor("sources", n, 500)
