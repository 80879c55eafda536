"""C08: copies and formatted prints stay within their destination."""
import os, re
from collections import defaultdict
from multiprocessing import Pool
from sa.cg import CG
from sa.ctx import where
from sa import bounds, ir
from sa.bounds import Fn, C, add, sub, scale

TECHNIQUE = "linear bounds: every limit, index and walking pointer against the size of the object it writes into, proved from dominating conditions and loop induction"
NOTE = ("Destinations whose size the program keeps in memory (growing buffers) and pointers with no visible object are counted, not decided; sizes below zero and wrap-around are outside the rule.")

# library writers: destination, limit (argument numbers multiplied), 'cat' = appended to the string there
LIB = {"strncpy": (0, (2,), 0), "snprintf": (0, (1,), 0), "vsnprintf": (0, (1,), 0), "fgets": (0, (1,), 0), "fread": (0, (1, 2), 0), "read": (1, (2,), 0), "memcpy": (0, (2,), 0),
       "memmove": (0, (2,), 0), "memset": (0, (2,), 0), "memccpy": (0, (3,), 0), "strncat": (0, (2,), 1), "strftime": (0, (1,), 0), "getcwd": (0, (1,), 0), "readlink": (1, (2,), 0),
       "gethostname": (0, (1,), 0), "confstr": (1, (2,), 0)}
UNB = frozenset(["strcpy", "strcat", "sprintf", "vsprintf", "gets", "stpcpy", "scanf", "sscanf", "fscanf"])
CACHE = {}


def libname(n):
    if n and n.startswith("llvm.mem"):
        return n.split(".")[1]
    return n


def known(o):
    return o is not None and isinstance(o[2], int)


class Prog:
    def __init__(self, p):
        self.p = p; self.cg = CG(p)
        self.fn = {k: Fn(f, self.cg, ("malloc", "xmalloc", "s_alloc", "calloc")) for k, f in self.cg.fn.items()}
        self.pairs = defaultdict(dict)     # fkey -> {dst param: limit param}
        self.need = {}
        self.infer()
        self._sl = {}
        for a in self.fn.values():
            a.strlike = self.strlike

    def strlike(self, k):
        """a function that returns no more than the length of its string"""
        if k not in self._sl:
            self._sl[k] = False
            a = self.fn[k]; f = a.f
            if f.nparams == 1 and f.params[0][1] == "p":
                l = (0, ((("len", ("p", 0, None), C(0)), 1),))
                rs = [r for r in f.all() if r.op == "ret" and r.d.get("v")]
                a.relate()
                self._sl[k] = bool(rs) and all(a.prove(sub(a.lin(r.d["v"]), l), r.blk) for r in rs)
        return self._sl[k]

    def written(self):
        """parameters a function stores through, directly or by handing them on"""
        w = set(); use = defaultdict(set)
        for k, a in self.fn.items():
            for i in a.f.all():
                if i.op == "store" and i.d["p"][0] == "v":
                    o, _ = a.ptr(i.d["p"])
                    if o is not None and o[0] == "p":
                        w.add((k, o[1]))
                elif i.op == "call":
                    ts = self.cg.targets(a.f, i)
                    n = libname(i.callee)
                    if not ts and (n in LIB or n in UNB) and len(i.args) > LIB.get(n, (0,))[0]:
                        o, _ = a.ptr(i.args[LIB.get(n, (0,))[0]])
                        if o is not None and o[0] == "p":
                            w.add((k, o[1]))
                    for t in ts:
                        for q in range(min(t.nparams, len(i.args))):
                            o, _ = a.ptr(i.args[q]) if i.args[q][0] == "v" else (None, 0)
                            if o is not None and o[0] == "p":
                                use[(t.key, q)].add((k, o[1]))
        todo = list(w)
        while todo:
            for y in use.get(todo.pop(), ()):
                if y not in w:
                    w.add(y); todo.append(y)
        return w

    def infer(self):
        w = self.written()
        for k, a in self.fn.items():
            for i in a.f.calls():
                for t in self.cg.targets(a.f, i):
                    for q in range(min(t.nparams, len(i.args))):
                        if t.params[q][1] != "p" or (t.key, q) not in w:
                            continue
                        o, off = a.ptr(i.args[q])
                        if not known(o) or off[1] or o[2] - off[0] < 4:
                            continue
                        for p in (q + 1,):
                            if 0 <= p < min(t.nparams, len(i.args)) and t.params[p][1] != "p" and i.args[p][0] == "i" and i.args[p][1] == o[2] - off[0]:
                                self.pairs[t.key].setdefault(q, p)

    def hand(self):
        # handed on: f(d, n) calls g(d, n)
        ch = True
        while ch:
            ch = False
            for k, a in self.fn.items():
                for i in a.f.calls():
                    for d, l in self.sinks(a, i):
                        if len(l) != 1:
                            continue
                        o, off = a.ptr(i.args[d]); e = a.lin(i.args[l[0]])
                        if o is not None and o[0] == "p" and not off[1] and len(e[1]) == 1 and e[1][0][0][0] == "p" and e[1][0][1] == 1 and e[0] + off[0] <= 0:
                            if o[1] not in self.pairs[k]:
                                self.pairs[k][o[1]] = e[1][0][0][1]; ch = True

    def sinks(self, a, i):
        ts = self.cg.targets(a.f, i)
        if ts:
            return [(q, (p,)) for t in ts for q, p in self.pairs.get(t.key, {}).items() if q < len(i.args) and p < len(i.args)]
        n = libname(i.callee)
        if n in LIB:
            return [(LIB[n][0], LIB[n][1])]
        return []

    def size(self, a, o):
        """size of an object as a linear form, or None"""
        if o is None:
            return None
        if isinstance(o[2], int):
            return C(o[2]) if o[2] >= 0 else None
        if isinstance(o[2], tuple):
            return o[2]
        if o[0] == "p":
            p = self.pairs.get(a.f.key, {}).get(o[1])
            if p is not None:
                return (0, ((("p", p), 1),))
        return None

    def limit(self, a, i, d, l):
        e = a.lin(i.args[l[0]])
        for k in l[1:]:
            f = a.lin(i.args[k])
            if not f[1]:
                e = scale(e, f[0])
            elif not e[1]:
                e = scale(f, e[0])
            else:
                e = (0, ((("v", i.id), 1),))
        if not self.cg.targets(a.f, i) and libname(i.callee) in LIB and LIB[libname(i.callee)][2]:
            e = add(add(e, C(1)), (0, ((("len",) + a.ptrkey(i.args[d]), 1),)))
        return e

    def writes(self, a):
        """(instruction, object, linear end of the write, what)"""
        f = a.f
        for i in f.all():
            if i.op == "call":
                for d, l in self.sinks(a, i):
                    o, off = a.ptr(i.args[d])
                    yield i, o, add(off, self.limit(a, i, d, l)), i.callee or "?"
                for t in self.cg.targets(f, i):
                    for q, k in self.need.get(t.key, {}).items():
                        if q < len(i.args):
                            o, off = a.ptr(i.args[q])
                            yield i, o, add(off, C(k)), i.callee or "?"
                if not self.cg.targets(f, i) and i.callee in UNB:
                    o, off = a.ptr(i.args[0])
                    e = self.unbounded(a, i)
                    yield i, o, (add(off, e) if e is not None else None), i.callee
            elif i.op == "store" and i.d["p"][0] == "v" and i.d["p"][1] >= f.nparams:
                g = f.ins[i.d["p"][1]]
                if g.op in ("gep", "phi", "call", "select"):
                    o, off = a.ptr(i.d["p"])
                    if o is None or o[0] == "x":
                        continue
                    if off[1] or g.op != "gep" or any(e[0] != "f" for e in g.d["path"]):
                        yield i, o, add(off, C(i.d["sz"])), "store"

    def needs(self):
        """bytes a function writes at a parameter without being told how many there are"""
        ch = True
        while ch:
            ch = False
            for k, a in self.fn.items():
                for i, o, e, w in self.writes(a):
                    if o is not None and o[0] == "p" and o[1] not in self.pairs.get(k, {}) and e is not None and not e[1] and e[0] > 8:
                        m = self.need.setdefault(k, {})
                        if m.get(o[1], 0) < e[0]:
                            m[o[1]] = e[0]; ch = True

    # -- longest string a value can be
    def strmax(self, a, v, depth=0):
        o, off = a.ptr(v)
        if v[0] == "g":
            g = self.p.glob(a.f.unit, v[1])
            s = g.string() if g is not None else None
            if s is not None:
                return C(len(s.encode("latin-1", "replace")))
        if o is not None and isinstance(o[2], int) and not off[1] and o[0] in ("a", "g", "m"):
            return C(o[2] - off[0] - 1)
        if v[0] == "v" and v[1] >= a.f.nparams and depth < 6:
            i = a.f.ins[v[1]]
            if i.op in ("phi", "select"):
                m = 0
                for x in ([y for y, _ in i.d["in"]] if i.op == "phi" else i.d["a"][1:]):
                    e = self.strmax(a, x, depth + 1)
                    if e is None or e[1]:
                        m = None; break
                    m = max(m, e[0])
                if m is not None:
                    return C(m)
            if i.op == "call":
                ts = self.cg.targets(a.f, i)
                m = 0
                for t in ts:
                    b = self.fn[t.key]
                    for r in t.all():
                        if r.op == "ret" and r.d.get("v"):
                            e = self.strmax(b, r.d["v"], depth + 1) if r.d["v"][0] != "v" or r.d["v"][1] >= t.nparams else None
                            if e is None or e[1]:
                                m = None; break
                            m = max(m, e[0])
                    if m is None:
                        break
                if ts and m is not None:
                    return C(m)
        return (0, ((("len",) + a.ptrkey(v), 1),))

    def held(self, a, o, i):
        """the string length an object was left with by the write before i, when all its writers come one after the other"""
        f = a.f; ws = []
        for j in f.all():
            if j.op == "store" and j.d["p"][0] == "v":
                q, _ = a.ptr(j.d["p"])
                if q == o:
                    ws.append(j)
            elif j.op == "call":
                for x in j.args:
                    if x[0] == "v" and a.ptr(x)[0] == o and not (j.callee in ("strlen", "free", "xfree", "llvm.dbg.value") or j.callee in UNB and x is not j.args[0]):
                        ws.append(j); break
        ws = [j for j in ws if j is not i and (j.blk != i.blk and a.reach(j.blk, i.blk) or j.blk == i.blk and j.idx < i.idx)]
        last = None
        for j in ws:
            if not a.dominates(j.blk, i.blk) or a.reach(i.blk, j.blk) and i.blk != j.blk:
                return None
            if last is None or (j.blk == last.blk and j.idx > last.idx) or j.blk != last.blk and a.dominates(last.blk, j.blk):
                last = j
        if last is None or last.op != "call" or a.ptr(last.args[0]) != (o, C(0)):
            return None
        if last.callee == "strcpy":
            return self.slen(a, last.args[1])
        if last.callee == "strcat":
            h = self.held(a, o, last)
            return add(h, self.slen(a, last.args[1])) if h is not None else None
        return None

    def slen(self, a, v):
        o, off = a.ptr(v)
        if o is not None and o[0] == "g":
            return self.strmax(a, v)
        return (0, ((("len",) + a.ptrkey(v), 1),))

    def unbounded(self, a, i, exact=False):
        n = i.callee
        sm = self.slen if exact else self.strmax
        if n == "gets" or n == "vsprintf" or n.endswith("scanf"):
            return None
        if n in ("strcpy", "stpcpy"):
            return add(sm(a, i.args[1]), C(1))
        if n == "strcat":
            o, off = a.ptr(i.args[0])
            l = self.held(a, o, i) if o is not None and not off[1] and off[0] == 0 else None
            return add(add(sm(a, i.args[1]), C(1)), l if l is not None else (0, ((("len",) + a.ptrkey(i.args[0]), 1),)))
        f = i.args[1]
        g = self.p.glob(a.f.unit, f[1]) if f[0] == "g" else None
        s = g.string() if g is not None else None
        if s is None:
            return None
        tot = C(1); k = 2; pos = 0
        for m in re.finditer(r"%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?(.)", s):
            tot = add(tot, C(m.start() - pos)); pos = m.end()
            c = m.group(5)
            if c == "%":
                tot = add(tot, C(1)); continue
            if m.group(2) == "*" or m.group(3) == "*" or k >= len(i.args):
                return None
            w = int(m.group(2) or 0)
            if c == "s":
                if m.group(3):
                    e = C(max(w, int(m.group(3))))
                else:
                    e = sm(a, i.args[k])
                    if not e[1]:
                        e = C(max(w, e[0]))
            elif c == "c":
                e = C(max(w, 1))
            elif c in "diuxXo":
                e = None; x = a.lin(i.args[k])
                if c in "di" and x[1]:
                    a.relate()
                    for nd in (1, 2, 3, 4, 5):
                        if a.prove(sub(x, C(10 ** nd - 1)), i.blk) and a.prove(sub(C(0), x), i.blk):
                            e = C(nd); break
                elif not x[1] and x[0] >= 0:
                    e = C(len(str(x[0])))
                if e is None:
                    e = C(20 if m.group(4) in ("l", "ll", "z", "j", "t") else 11)
                e = C(max(w, int(m.group(3) or 0), e[0]))
            else:
                return None
            tot = add(tot, e); k += 1
        return add(tot, C(len(s) - pos))


def link():
    """what was seen about a library function in one program holds for it in all"""
    allp = {}
    for P in CACHE.values():
        for k, m in P.pairs.items():
            f = P.cg.fn[k]
            for q, p in m.items():
                allp.setdefault((f.unit, f.name), {}).setdefault(q, p)
    for P in CACHE.values():
        for k, f in P.cg.fn.items():
            if (f.unit, f.name) in allp:
                P.pairs[k] = dict(allp[(f.unit, f.name)])
        P.hand()
        P.needs()


def job(x):
    pn, k = x
    P = CACHE[pn]; a = P.fn[k]
    res = []
    for i, o, e, w in P.writes(a):
        sz = P.size(a, o)
        if sz is None:
            if w in UNB:
                res.append((i.line, w, "bad", "%s into a destination of unknown size" % w)); continue
            res.append((i.line, w, "unknown", "")); continue
        if e is None:
            res.append((i.line, w, "bad", "%s with no limit into %s" % (w, name(o)))); continue
        d = sub(e, sz)
        ex = [sub(C(1), sz)] if sz[1] else []
        if o[0] == "p" and sz[1]:
            ex.append(sub(add((0, ((("len", o, C(0)), 1),)), C(1)), sz))
        if i.op == "call" and not P.cg.targets(a.f, i) and i.callee in UNB and P.unbounded(a, i, True) is not None and a.prove(sub(add(a.ptr(i.args[0])[1], P.unbounded(a, i, True)), sz), i.blk):
            res.append((i.line, w, "ok", "")); continue
        ok = a.prove(d, i.blk, extra=ex) or a.relate() and a.prove(d, i.blk, extra=ex) or a.rel and a.prove(d, i.blk, extra=ex)
        res.append((i.line, w, "ok" if ok else "bad", "" if ok else "%s may end at %s of %s (size %s)" % (w, show(e), name(o), show(sz))))
    return x, res


def name(o):
    return {"m": lambda: "%s.%s" % o[1][:2], "g": lambda: o[1], "a": lambda: "a local buffer", "h": lambda: "an allocation", "p": lambda: "parameter %d" % o[1]}[o[0]]()


def show(e):
    return " ".join(["%d" % e[0]] + ["%+d*%s" % (c, s[0] if s[0] == "len" else "%s%s" % (s[0], s[1])) for s, c in e[1]])


def run(ctx):
    r = ctx.repo
    ctx.rule("For every write into an object whose size is known (array, member, parameter with its limit, allocation): offset + limit, or index + element size, is at most that size, "
             "for all values the dominating conditions allow; functions given a buffer and its size are held to it inside and at every call; unlimited writers are given sources whose longest length fits.")
    todo = []; seen = set()
    for pn in sorted(r.progs):
        CACHE[pn] = Prog(r.progs[pn])
        for k, a in sorted(CACHE[pn].fn.items()):
            if (a.f.unit, a.f.name) in seen:
                continue
            seen.add((a.f.unit, a.f.name)); todo.append((pn, k))
    link()
    n = unk = rev = 0
    rows = {tuple(l.split(" -- ")[0].split()) for l in open(os.path.join(ir.VERIF, "data", "c08_rows.txt")) if l.strip() and l[0] != "#"}
    with Pool(8) as pool:
        for (pn, k), res in pool.imap(job, todo, 8):
            f = CACHE[pn].fn[k].f
            for line, w, st, text in res:
                if st == "unknown":
                    unk += 1; continue
                n += 1
                if st == "bad" and ((f.name, w) in rows or ("@" + os.path.basename(f.file), "*") in rows):
                    rev += 1; continue
                if st == "bad":
                    ctx.violation("%s|%s" % (f.name, w), where(f, line), text)
    ctx.cov["functions_with_limit_parameters"] = len({k for P in CACHE.values() for k in P.pairs})
    ctx.cov["writes_undecided_destination"] = unk
    ctx.cov["writes_reviewed_by_hand"] = rev
    ctx.floor("writes", n, 500)
