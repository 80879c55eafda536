"""Linear bounds: SSA values as linear forms, facts from dominating branches, and an inductive prover.

A linear form is (const, ((sym, coef), ...)).  Symbols: ("v", ssa id) / ("p", n) values, ("len", value key) a string length.
prove(f, e, at): e <= 0 holds whenever control is at block `at`.
"""
from sa.cg import root

QUIET = frozenset(["strlen", "xmalloc", "malloc", "s_alloc", "strcmp", "strncmp", "strchr", "strrchr", "strcasecmp", "__ctype_b_loc", "llvm.dbg.value", "toupper", "tolower"])
POS = frozenset(["strlen", "strspn", "strcspn", "fread", "strftime"])


def C(k):
    return (k, ())


def add(a, b, m=1):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + c * m
    return (a[0] + b[0] * m, tuple(sorted(((s, c) for s, c in d.items() if c), key=repr)))


def sub(a, b):
    return add(a, b, -1)


def scale(a, m):
    return (a[0] * m, tuple((s, c * m) for s, c in a[1])) if m else C(0)


class Fn:
    """per-function facts"""
    def __init__(self, f, cg, alloc):
        self.f = f; self.cg = cg; self.alloc = alloc
        self._dom = None; self._facts = {}; self._lin = {}; self._ptr = {}; self.rel = None; self._canon = {}; self._reach = {}; self.mp = {}; self.fuel = 4000; self._esc = {}

    # -- dominators
    def dom(self):
        if self._dom is None:
            f = self.f; n = len(f.blocks)
            order = []; seen = {0}; st = [(0, iter(f.succs(0)))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(f.succs(s)))); break
                else:
                    order.append(b); st.pop()
            order.reverse(); num = {b: k for k, b in enumerate(order)}
            idom = {0: 0}; ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in f.preds(b):
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new; ch = True
            self._dom = idom
        return self._dom

    # -- linear forms
    def key(self, v):
        if v[0] == "v" and v[1] >= self.f.nparams and self.f.ins[v[1]].op == "load":
            return ("v", self.canon(self.f.ins[v[1]]))
        return (v[0], v[1]) if v[0] in ("v", "g", "i") else (repr(v),)

    def width(self, v):
        if v[0] == "v" and v[1] >= self.f.nparams:
            return self.f.ins[v[1]].ty
        return None

    def canon(self, i):
        """the earliest load of the same place with nothing in between that could write to it"""
        if i.id in self._canon:
            return self._canon[i.id]
        self._canon[i.id] = i.id
        k = self.ptrkey(i.d["p"])
        if k[0][0] == "x" or k[0][0] == "q" and False:
            return i.id
        f = self.f; b = i.blk; n = i.idx; best = i.id; hops = 0
        while hops < 12:
            blk = f.blocks[b]; stop = False
            for j in reversed(blk[:n]):
                if j.op == "load" and j.ty == i.ty and self.ptrkey(j.d["p"]) == k:
                    best = self.canon(j); stop = True; break
                if j.op == "store":
                    o, _ = self.ptr(j.d["p"]); o2 = k[0]
                    if o is None or o[0] == "x" or o[0] == o2[0] and o[1] == o2[1] or o[0] == "m" and o2[0] == "m" and o[1][1] == o2[1][1] or {o[0], o2[0]} & {"p"} and o[0] not in ("a",) and o2[0] not in ("a",) and o[0] != "m" and o2[0] != "m":
                        stop = True; break
                if j.op == "call" and (j.callee or "?") not in QUIET:
                    if (j.callee or "").split(".p0")[0] in ("memset", "memcpy", "llvm.memset", "llvm.memcpy", "strcpy", "strcat", "strncpy", "sprintf", "snprintf") and (self.ptr(j.args[0])[0] or "x")[0] in ("h", "a") and self.ptr(j.args[0])[0] != k[0]:
                        continue
                    if k[0][0] == "a" and not self.escapes(k[0]) and not any(x[0] == "v" and (self.ptr(x)[0] or "x")[:2] == k[0][:2] for x in j.args):
                        continue
                    stop = True; break
            if stop:
                break
            pr = f.preds(b)
            if len(pr) != 1:
                break
            b = pr[0]; n = len(f.blocks[b]); hops += 1
        self._canon[i.id] = best
        return best

    def lin(self, v, depth=0):
        k = v[0]
        if k == "i":
            return C(v[1])
        if k == "n":
            return C(0)
        if k != "v":
            return (0, ((("x", repr(v)), 1),))
        if v[1] < self.f.nparams:
            return (0, ((("p", v[1]), 1),))
        if v[1] in self._lin:
            return self._lin[v[1]]
        i = self.f.ins[v[1]]
        r = None
        r = self.ptrdiff(i)
        if r is None and depth < 30:
            if i.op == "cast" and i.d["k"] in ("zext", "sext", "trunc"):
                if not (i.d["k"] in ("zext", "sext") and self.width(i.d["a"][0]) == "i8"):
                    r = self.lin(i.d["a"][0], depth + 1)
            elif i.op == "load":
                c = self.canon(i)
                m = self.mem(self.f.ins[c]) if isinstance(c, int) else None
                r = m if m is not None else (0, ((("v", c), 1),))
            elif i.op == "bin" and i.d["k"] in ("add", "sub"):
                a = self.lin(i.d["a"][0], depth + 1); b = self.lin(i.d["a"][1], depth + 1)
                r = add(a, b, 1 if i.d["k"] == "add" else -1)
                if r[0] > 1 << 40:
                    r = None
            elif i.op == "bin" and i.d["k"] == "mul" and i.d["a"][1][0] == "i":
                r = scale(self.lin(i.d["a"][0], depth + 1), i.d["a"][1][1])
            elif i.op == "bin" and i.d["k"] == "sub" and False:
                pass
            elif i.op == "call" and i.callee == "strlen":
                r = (0, ((("len",) + self.ptrkey(i.args[0]), 1),))
        if r is None:
            r = (0, ((("v", v[1]), 1),))
        self._lin[v[1]] = r
        return r

    def ptrkey(self, v):
        o, off = self.ptr(v)
        return (o, off) if o is not None else (("q",) + self.key(v), C(0))

    def ptrdiff(self, i):
        """ptrtoint a - ptrtoint b, when a and b point into the same object"""
        if i.op == "bin" and i.d["k"] == "sub":
            q = []
            for a in i.d["a"]:
                if a[0] == "v" and a[1] >= self.f.nparams and self.f.ins[a[1]].op == "cast" and self.f.ins[a[1]].d["k"] == "ptrtoint":
                    q.append(self.f.ins[a[1]].d["a"][0])
            if len(q) == 2:
                (o1, f1), (o2, f2) = self.ptr(q[0]), self.ptr(q[1])
                if o1 is not None and o1 == o2:
                    return sub(f1, f2)
        return None

    # -- pointers: (object, linear offset); object = (kind, name, size or None)
    def ptr(self, v, depth=0):
        k = v[0]
        if k == "g":
            g = self.cg.prog.glob(self.f.unit, v[1])
            return (("g", v[1], g.size if g is not None else None), C(0))
        if k == "ce":
            o, off = self.ptr(v[1], depth + 1)
            if o is None:
                return None, C(0)
            return self.step(o, off, v[3], v[2], [])
        if k != "v" or depth > 40:
            return None, C(0)
        if v[1] < self.f.nparams:
            return (("p", v[1], None), C(0))
        if v[1] in self._ptr:
            return self._ptr[v[1]]
        self._ptr[v[1]] = (("x", v[1], None), C(0))
        i = self.f.ins[v[1]]
        r = (("x", v[1], None), C(0))
        if i.op == "alloca":
            r = (("a", i.id, i.d["sz"]), C(0))
        elif i.op == "gep":
            o, off = self.ptr(i.d["p"], depth + 1)
            if o is not None:
                r = self.step(o, off, i.d["path"], i.d["off"], i.d["idx"])
        elif i.op == "cast" and i.d["k"] not in ("inttoptr",):
            r = self.ptr(i.d["a"][0], depth + 1)
        elif i.op == "call" and i.callee in self.alloc and not self.cg.prog.func(self.f.unit, i.callee) or i.op == "call" and i.callee in ("xmalloc", "s_alloc", "malloc"):
            r = (("h", i.id, self.lin(i.args[0])), C(0))
        elif i.op == "call" and i.callee in ("strchr", "strrchr", "strstr", "strpbrk"):
            o, off = self.ptr(i.args[0], depth + 1)
            if o is not None and o[0] != "x":
                r = (o, add(off, (0, ((("v", i.id), 1),))))
        elif i.op == "phi":
            r = self.phiptr(i, depth)
        elif i.op == "load":
            r = (("x", self.canon(i), None), C(0))
        self._ptr[v[1]] = r
        return r

    def phiptr(self, i, depth):
        """a pointer that walks through one object: offset is the phi's own symbol"""
        o = None; offs = []
        seen = {i.id}; todo = [x for x, _ in i.d["in"]]; own = []
        while todo:
            x = todo.pop()
            if x[0] == "v" and x[1] >= self.f.nparams:
                if x[1] in seen:
                    continue
                j = self.f.ins[x[1]]
                if j.op == "phi":
                    seen.add(x[1]); todo += [y for y, _ in j.d["in"]]; continue
                if j.op == "gep" and not any(e[0] == "f" for e in j.d["path"]):
                    seen.add(x[1]); todo.append(j.d["p"]); continue
            own.append(x)
        for x in own:
            a, _ = self.ptr(x, depth + 1)
            if a is None or a[0] == "x" or o is not None and a != o:
                return (("x", i.id, None), C(0))
            o = a
        if o is None:
            return (("x", i.id, None), C(0))
        return (o, (0, ((("off", i.id), 1),)))

    def step(self, o, off, path, coff, idx):
        last = None
        for k, e in enumerate(path):
            if e[0] == "f":
                last = k
        if last is not None:
            e = path[last]
            # a member: bounds are the member's
            rest = path[last + 1:]
            base = C(0)
            for r in rest:
                if r[0] in ("a", "p"):
                    ix = r[-1]
                    base = add(base, scale(self.lin(ix) if isinstance(ix, list) else C(ix), r[1]))
            return (("m", (e[1], e[2], o[:2] if o[0] != "m" else o[1]), e[3]), base)
        r = add(off, C(coff))
        for v, sc in idx:
            r = add(r, scale(self.lin(v), sc))
        return (o, r)

    # -- facts that hold in block b: list of linear forms <= 0
    def facts(self, b):
        if b in self._facts:
            return self._facts[b]
        idom = self.dom(); f = self.f
        out = []
        d = b; hops = 0
        out.extend((self.rel or {}).get(b, ()))
        while d in idom and d != 0 and hops < 400:
            p = idom[d]
            preds = f.preds(d)
            if preds == [p]:
                self.edge(p, d, out)
            elif len(preds) > 1:
                pass
            d = p; hops += 1
            out.extend((self.rel or {}).get(d, ()))
        self._facts[b] = out
        return out

    def edge(self, p, s, out):
        t = self.f.blocks[p][-1]
        if t.op == "br" and t.d.get("c") and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
            self.cond(t.d["c"], t.d["s"][0] == s, out, 0)
        elif t.op == "switch":
            cs = [c for c in t.d["cs"] if c[1] == s]
            z = [c for c in t.d["cs"] if c[0] == 0]
            if z and z[0][1] != s:
                self.walk(t.d["c"], t, out)
            if len(cs) == 1 and t.d["d"] != s:
                x = self.lin(t.d["c"])
                out.append(sub(x, C(cs[0][0]))); out.append(sub(C(cs[0][0]), x))

    def cond(self, v, val, out, depth):
        if v[0] != "v" or v[1] < self.f.nparams or depth > 6:
            return
        i = self.f.ins[v[1]]
        if i.op == "icmp":
            pr = i.d["pr"]
            a, b = i.d["a"]
            if a[0] in ("i", "n") and pr in ("eq", "ne"):
                a, b = b, a
            if i.d.get("ot") == "p":
                (o1, la), (o2, lb) = self.ptr(a), self.ptr(b)
                if o1 is None or o1 != o2:
                    return
            else:
                la, lb = self.lin(a), self.lin(b)
            if not val:
                pr = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[pr]
            q = pr[1:] if pr not in ("eq", "ne") else pr
            if q == "lt":
                out.append(add(sub(la, lb), C(1)))
            elif q == "le":
                out.append(sub(la, lb))
            elif q == "gt":
                out.append(add(sub(lb, la), C(1)))
            elif q == "ge":
                out.append(sub(lb, la))
            elif q == "eq":
                out.append(sub(la, lb)); out.append(sub(lb, la))
            elif q == "ne" and b[0] == "i" and b[1] == 0:
                out.append(("ne0", la))
                self.walk(a, i, out)
        elif i.op == "phi" and i.ty == "i1":
            live = [(x, b) for x, b in i.d["in"] if not (x[0] == "i" and bool(x[1]) != val)]
            if len(live) == 1:
                x, b = live[0]
                if x[0] != "i":
                    self.cond(x, val, out, depth + 1)
                out.extend(self.facts(b))
                # the edge into the phi's block
                self.edge(b, i.blk, out)
        elif i.op == "bin" and i.d["k"] == "xor" and i.d["a"][1][0] == "i":
            self.cond(i.d["a"][0], not val, out, depth + 1)
        elif i.op == "cast" and i.d["k"] in ("zext", "sext", "trunc"):
            self.cond(i.d["a"][0], val, out, depth + 1)

    def walk(self, v, at, out):
        """a byte that is not the terminator, reached one step at a time from the start of a string"""
        while v[0] == "v" and v[1] >= self.f.nparams and self.f.ins[v[1]].op == "cast":
            v = self.f.ins[v[1]].d["a"][0]
        if v[0] != "v" or v[1] < self.f.nparams:
            return
        i = self.f.ins[v[1]]
        if i.op != "load" or i.ty != "i8":
            return
        o, off = self.ptr(i.d["p"])
        if o is None or o[0] == "x" and False:
            return
        if not off[1]:
            out.append(add(C(1), (0, ((("len", o, off), 1),)), -1))
            return
        if len(off[1]) != 1 or off[1][0][1] != 1 or off[1][0][0][0] not in ("off", "v"):
            return
        s = off[1][0][0]
        ph = self.f.ins[s[1]] if s[1] >= self.f.nparams else None
        if ph is None or ph.op != "phi":
            return
        init = None
        for x, p in ph.d["in"]:
            l = self.ptr(x)[1] if s[0] == "off" else self.lin(x)
            if self.dominates(ph.blk, p):
                if l != add((0, ((s, 1),)), C(1)) or not self.dominates(i.blk, p):
                    return
            elif init is None:
                init = l
            elif init != l:
                return
        if init is None:
            return
        # characters looked at before this one were not the terminator either
        st = add(init, C(off[0]))
        if o[0] == "x" and off[0] < 0:
            return
        out.append(add(sub((0, ((s, 1),)), init), add(C(1), (0, ((("len", o, st), 1),)), -1)))

    def mem(self, i):
        """a load at a place where paths meet: the value each path left there"""
        f = self.f
        o, off = self.ptr(i.d["p"])
        if o is None or o[0] not in ("a",) or off[1]:
            return None
        def back(b, n, hops=0):
            for j in reversed(f.blocks[b][:n]):
                if j.op == "store" and self.ptr(j.d["p"]) == (o, off):
                    return self.lin(j.d["v"])
                if j.op == "load" and self.ptr(j.d["p"]) == (o, off) and j is not i:
                    return self.lin(["v", j.id])
                if j.op == "store":
                    q, _ = self.ptr(j.d["p"])
                    if q is None or q[0] == "x" or q == o:
                        return None
                if j.op == "call" and (j.callee or "?") not in QUIET:
                    if any(x[0] == "v" and self.ptr(x)[0] == o for x in j.args) or self.escapes(o):
                        return None
            return "top"
        r = back(i.blk, i.idx)
        if r is None:
            return None
        if r != "top":
            return r
        pr = f.preds(i.blk); vs = []
        if len(pr) < 2:
            return None
        for p in pr:
            b = p; r = "top"; h = 0
            while r == "top" and h < 4:
                r = back(b, len(f.blocks[b]))
                if r == "top":
                    q = f.preds(b)
                    if len(q) != 1:
                        return None
                    b = q[0]; h += 1
            if r is None or r == "top":
                return None
            vs.append((r, p))
        self.mp[i.id] = vs
        return (0, ((("mp", i.id), 1),))

    def escapes(self, o):
        if o not in self._esc:
            e = False
            for j in self.f.all():
                if j.op == "store" and j.d["v"][0] == "v" and j.d["v"][1] >= self.f.nparams and self.ptr(j.d["v"])[0] == o and self.f.ins[j.d["v"][1]].op in ("alloca", "gep", "cast"):
                    e = True
            self._esc[o] = e
        return self._esc[o]

    # -- the prover
    def prove(self, e, b, hyp=(), depth=0, extra=()):
        """e <= 0 in block b"""
        if not e[1]:
            return e[0] <= 0
        if depth == 0:
            self.fuel = 4000
        self.fuel -= 1
        if depth > 11 or self.fuel < 0:
            return False
        for h in hyp:
            d = sub(e, h)
            if not d[1] and d[0] <= 0:
                return True
        fs = [x for x in self.facts(b) if x[0] != "ne0"] + list(extra)
        nz = [x[1] for x in self.facts(b) if x[0] == "ne0"]
        # one fact
        for x in fs:
            d = sub(e, x)
            if not d[1]:
                if d[0] <= 0:
                    return True
        # drop symbols known to be non-negative with a negative coefficient
        drop = [(s, c) for s, c in e[1] if c < 0 and self.nonneg(s)]
        if drop:
            e2 = (e[0], tuple(x for x in e[1] if x not in drop))
            lo = 0
            for s, c in drop:
                lo += c * self.low(s, nz)
            if self.prove((e2[0] + lo, e2[1]), b, hyp, depth + 1, extra):
                return True
            # only some of them
            if len(drop) > 1:
                for s, c in drop:
                    e3 = (e[0] + c * self.low(s, nz), tuple(x for x in e[1] if x != (s, c)))
                    if self.prove(e3, b, hyp, depth + 2, extra):
                        return True
        # use one fact to replace a symbol with positive coefficient
        for s, c in e[1]:
            if c <= 0:
                continue
            for x in fs:
                cx = dict(x[1]).get(s, 0)
                if cx > 0 and c % cx == 0:
                    d = add(e, x, -(c // cx))
                    if len(d[1]) <= len(e[1]) and d != e and self.prove(d, b, hyp, depth + 3, extra):
                        return True
        # symbolic upper bounds of symbols
        for s, c in e[1]:
            if c > 0:
                u = self.upperlin(s)
                if u is not None and self.prove(add((e[0], tuple(x for x in e[1] if x != (s, c))), scale(u, c)), b, hyp, depth + 1, extra):
                    return True
        for x in nz:
            d = sub(e, sub(C(1), x))
            if not d[1] and d[0] <= 0 and self.prove(scale(x, -1), b, hyp, depth + 1, extra):
                return True
        # constant upper bounds of symbols
        for s, c in e[1]:
            if c > 0:
                u = self.upper(s)
                if u is not None:
                    e2 = (e[0] + c * u, tuple(x for x in e[1] if x != (s, c)))
                    if self.prove(e2, b, hyp, depth + 1, extra):
                        return True
        for s, c in e[1]:
            if s[0] == "mp" and e not in hyp:
                rest = (e[0], tuple(x for x in e[1] if x[0] != s))
                ok = True
                for l, p in self.mp[s[1]]:
                    out = []
                    self.edge(p, self.f.ins[s[1]].blk, out)
                    if not self.prove(add(rest, scale(l, c)), p, tuple(hyp) + (e,), depth + 1, [y for y in out if y[0] != "ne0"] + list(extra)):
                        ok = False; break
                if ok:
                    return True
        # the rest of a string
        for s, c in e[1]:
            if s[0] == "len" and c > 0 and isinstance(s[1], tuple) and s[1][0] in ("p", "x") and len(s) > 2 and s[2][1]:
                d = add((e[0], tuple(x for x in e[1] if x != (s, c))), scale(sub((0, ((("len", s[1], C(0)), 1),)), s[2]), c))
                if self.prove(d, b, hyp, depth + 1, extra):
                    return True
        # a string ends inside its object
        for s, c in e[1]:
            if s[0] == "len" and c > 0 and isinstance(s[1], tuple) and s[1][0] in ("a", "g", "m", "h") and len(s) > 2 and s[2][1]:
                sz = s[1][2]
                sz = C(sz) if isinstance(sz, int) else sz
                if sz is not None:
                    d = add((e[0], tuple(x for x in e[1] if x != (s, c))), scale(sub(sub(sz, C(1)), s[2]), c))
                    if self.prove(d, b, hyp, depth + 1, extra):
                        return True
        # induction over the phis of one block
        tried = set()
        for s, c in e[1]:
            if s[0] in ("v", "off") and s[1] >= self.f.nparams and self.f.ins[s[1]].op in ("phi", "select"):
                i = self.f.ins[s[1]]
                if e in hyp:
                    continue
                if i.op == "select":
                    grp = [(s, c)]; ins = [(k, i.blk) for k in (1, 2)]
                else:
                    if i.blk in tried:
                        continue
                    tried.add(i.blk)
                    grp = [(s2, c2) for s2, c2 in e[1] if s2[0] in ("v", "off") and s2[1] >= self.f.nparams and self.f.ins[s2[1]].op == "phi" and self.f.ins[s2[1]].blk == i.blk]
                    ins = [(k, p) for k, (x, p) in enumerate(i.d["in"])]
                rest = (e[0], tuple(x for x in e[1] if x not in grp))
                # the other symbols must not change between the phi and here
                if not all(self.stable(s2, i.blk) for s2, _ in rest[1]):
                    continue
                ok = True
                for k, p in ins:
                    g = rest
                    for s2, c2 in grp:
                        j = self.f.ins[s2[1]]
                        if j.op == "select":
                            x = j.d["a"][k]
                        else:
                            x = [y for y, q in j.d["in"] if q == p]
                            if not x:
                                ok = False; break
                            x = x[0]
                        if s2[0] == "off":
                            o, l = self.ptr(x)
                            if o is None:
                                ok = False; break
                        else:
                            l = self.lin(x)
                        g = add(g, scale(l, c2))
                    if not ok:
                        break
                    out = []
                    if i.op == "phi":
                        self.edge(p, i.blk, out)
                        out = [y for y in out if y[0] != "ne0"]
                    if not self.prove(g, p, tuple(hyp) + (e,), depth + 1, out + [y for y in extra if all(z[0][0] in ("p", "len") for z in y[1])]):
                        ok = False; break
                if ok:
                    return True
        return False

    def reach(self, a, b):
        if a not in self._reach:
            seen = set(); st = list(self.f.succs(a))
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x); st += self.f.succs(x)
            self._reach[a] = seen
        return b in self._reach[a]

    def dominates(self, d, b):
        idom = self.dom()
        while b in idom:
            if b == d:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
        return False

    def relate(self):
        """what two variables of one loop keep: s + t or s - t never above what it was on entry"""
        if self.rel is not None:
            return False
        self.rel = {}
        new = {}
        f = self.f
        for bn, blk in enumerate(f.blocks):
            ph = [i for i in blk if i.op == "phi"]
            back = [p for p in f.preds(bn) if self.dominates(bn, p)]
            if not back or len(ph) < 2 or len(ph) > 14:
                continue
            sy = []
            for i in ph:
                if i.ty == "p":
                    o, l = self.ptr(["v", i.id])
                    if o is None or o[0] == "x" or l != (0, ((("off", i.id), 1),)):
                        # any pointer may keep step: its distance from where it began
                        continue
                    sy.append((i, ("off", i.id)))
                elif i.ty in ("i32", "i64", "i16"):
                    sy.append((i, ("v", i.id)))
            for i, s in sy:
                for j, t in sy:
                    if s == t:
                        continue
                    for m in (1, -1):
                        if m == 1 and repr(s) > repr(t):
                            continue
                        e0 = None
                        for x, p in i.d["in"]:
                            if p in back:
                                continue
                            y = [z for z, q in j.d["in"] if q == p][0]
                            g = add(self.ptr(x)[1] if s[0] == "off" else self.lin(x), self.ptr(y)[1] if t[0] == "off" else self.lin(y), m)
                            if e0 is None:
                                e0 = g
                            elif e0 != g:
                                e0 = False; break
                        if not e0:
                            continue
                        e = sub(add((0, ((s, 1),)), (0, ((t, 1),)), m), e0)
                        if all(z[0] == s or z[0] == t or self.stable(z[0], bn) for z in e[1]) and self.prove(e, bn, (), 0):
                            new.setdefault(bn, []).append(e)
        self.rel = new
        self.headwalk()
        self._facts = {}
        # the same relation where branches inside the loop meet
        for h, es in list(new.items()):
            for e in es:
                st = [z for z in e[1] if z[0][0] in ("v", "off") and z[0][1] >= f.nparams and f.ins[z[0][1]].op == "phi" and f.ins[z[0][1]].blk == h]
                if len(st) != 2:
                    continue
                rest = (e[0], tuple(z for z in e[1] if z not in st))
                for bn, blk in enumerate(f.blocks):
                    ph = [i for i in blk if i.op == "phi"]
                    if bn == h or not 2 <= len(ph) <= 10 or not self.dominates(h, bn):
                        continue
                    c = [[], []]
                    for i in ph:
                        s = ("off", i.id) if i.ty == "p" else ("v", i.id)
                        if i.ty == "p" and self.ptr(["v", i.id])[1] != (0, ((s, 1),)):
                            continue
                        for n in (0, 1):
                            if st[n][0][0] == s[0] and f.ins[st[n][0][1]].ty == i.ty:
                                c[n].append(s)
                    for s in c[0]:
                        for t in c[1]:
                            if s != t:
                                g = add(rest, (0, tuple(sorted([(s, st[0][1]), (t, st[1][1])], key=repr))))
                                if g not in self.rel.get(bn, ()) and self.prove(g, bn):
                                    self.rel.setdefault(bn, []).append(g); self._facts = {}
        return bool(new)

    def stable(self, s, b):
        """is the symbol's value defined outside the loop headed by b (it dominates b)?"""
        if s[0] in ("p", "len", "x", "size"):
            return True
        if s[0] in ("v", "off") and s[1] >= self.f.nparams:
            d = self.f.ins[s[1]].blk
            if d == b:
                return False
            idom = self.dom(); x = b
            while x in idom:
                if x == d:
                    return True
                if idom[x] == x:
                    break
                x = idom[x]
            return False
        return False

    def nonneg(self, s):
        if s[0] in ("len", "size"):
            return True
        if s[0] == "p":
            k = s[1] + 1
            return k < len(self.f.ctys) and any(w in str(self.f.ctys[k]) for w in ("size_t", "unsigned"))
        if s[0] == "off":
            return True
        if s[0] == "v":
            i = self.f.ins[s[1]]
            if i.op == "call" and i.callee in ("strchr", "strrchr", "strstr", "strpbrk") + tuple(POS):
                return True
            if i.op == "bin" and i.d["k"] in ("urem", "lshr", "and") or i.op == "cast" and i.d["k"] == "zext":
                return True
        return False

    def headwalk(self):
        """at the head of a loop stepping through a string: no further than its end"""
        f = self.f
        for i in f.all():
            if i.op not in ("load",) or i.ty != "i8":
                continue
            o, off = self.ptr(i.d["p"])
            if o is None or len(off[1]) != 1 or off[1][0][1] != 1 or off[1][0][0][0] not in ("off", "v"):
                continue
            s = off[1][0][0]
            ph = f.ins[s[1]] if s[1] >= f.nparams else None
            if ph is None or ph.op != "phi":
                continue
            init = None; ok = True; n = 0
            for x, p in ph.d["in"]:
                l = self.ptr(x)[1] if s[0] == "off" else self.lin(x)
                if self.dominates(ph.blk, p):
                    n += 1
                    w = add(sub((0, ((s, 1),)), init if init is not None else C(0)), C(1))
                    fs = []
                    self.edge(p, ph.blk, fs)
                    want = None if init is None else add(w, (0, ((("len", o, add(init, C(off[0]))), 1),)), -1)
                    if want is None or l != add((0, ((s, 1),)), C(1)) or want not in fs + self.facts(p):
                        ok = False; break
                elif init is None:
                    init = l
                elif init != l:
                    ok = False; break
            if ok and n and init is not None:
                self.rel.setdefault(ph.blk, []).append(sub(sub((0, ((s, 1),)), init), (0, ((("len", o, add(init, C(off[0]))), 1),))))

    def low(self, s, nz):
        return 1 if any(x == (0, ((s, 1),)) for x in nz) else 0

    def upperlin(self, s):
        if s[0] == "v":
            i = self.f.ins[s[1]]
            if i.op == "call" and i.callee in ("strchr", "strrchr", "strpbrk"):
                return add((0, ((("len",) + self.ptrkey(i.args[0]), 1),)), C(-1))
            if i.op == "call" and i.callee == "strstr":
                l = (0, ((("len",) + self.ptrkey(i.args[0]), 1),))
                return sub(l, (0, ((("len",) + self.ptrkey(i.args[1]), 1),)))
            if i.op == "call":
                for t in self.cg.targets(self.f, i):
                    if self.strlike is not None and self.strlike(t.key) and i.args:
                        return (0, ((("len",) + self.ptrkey(i.args[0]), 1),))
                    m = [r.d.get("v") for r in t.all() if r.op == "ret"]
                    ks = [k for r in m if r for k in self.consts(t, r, 0)]
                    if ks and None not in ks:
                        return C(max(ks))
            if i.op == "call" and i.callee in ("strspn", "strcspn"):
                return (0, ((("len",) + self.ptrkey(i.args[0]), 1),))
            if i.op == "call" and i.callee == "fread" and i.args[1] == ["i", 1] or i.op == "call" and i.callee == "read":
                return self.lin(i.args[2])
        return None

    strlike = None

    def consts(self, t, v, d):
        if v[0] == "i":
            return [v[1]]
        if v[0] == "v" and v[1] >= t.nparams and d < 5:
            i = t.ins[v[1]]
            if i.op == "phi":
                return [k for x, _ in i.d["in"] for k in self.consts(t, x, d + 1)]
            if i.op == "select":
                return [k for x in i.d["a"][1:] for k in self.consts(t, x, d + 1)]
        return [None]

    def upper(self, s):
        if s[0] == "len":
            o = s[1]
            if isinstance(o, tuple) and o and o[0] in ("a", "g", "m") and isinstance(o[2], int):
                return o[2] - 1
        if s[0] == "v":
            i = self.f.ins[s[1]]
            if i.op == "cast" and self.width(i.d["a"][0]) == "i8":
                return 255 if i.d["k"] == "zext" else 127
            if i.op == "bin" and i.d["k"] in ("urem", "srem") and i.d["a"][1][0] == "i":
                return i.d["a"][1][1] - 1
            if i.op == "bin" and i.d["k"] == "and" and i.d["a"][1][0] == "i" and i.d["a"][1][1] >= 0:
                return i.d["a"][1][1]
        return None
