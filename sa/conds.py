"""Conditions that hold in a block: what the branches dominating it decided."""


def dominators(f):
    n = len(f.blocks)
    order, seen = [], {0}
    st = [(0, iter(f.succs(0)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.succs(s)))); break
        else:
            order.append(b); st.pop()
    order.reverse(); num = {b: k for k, b in enumerate(order)}
    idom = {0: 0}; ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in f.preds(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new; ch = True
    return idom


class Conds:
    def __init__(self, f):
        self.f = f; self.idom = dominators(f) if f.blocks else {}
        self.memo = {}

    def dominates(self, a, b):
        while b in self.idom:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]
        return False

    def at(self, b):
        """list of atoms (value, 'eq'|'ne', constant): value is a peeled SSA operand"""
        if b in self.memo:
            return self.memo[b]
        self.memo[b] = []
        out = []
        d = b; hops = 0
        while d in self.idom and d != 0 and hops < 1000:
            p = self.idom[d]
            if self.f.preds(d) == [p]:
                self.edge(p, d, out)
            d = p; hops += 1
        self.memo[b] = out
        return out

    def edge(self, p, s, out, depth=0):
        t = self.f.blocks[p][-1]
        if t.op == "br" and t.d.get("c") and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
            self.cond(t.d["c"], t.d["s"][0] == s, out, depth)
        elif t.op == "switch":
            cs = [c for c in t.d["cs"] if c[1] == s]
            v = peel(self.f, t.d["c"])
            if t.d["d"] == s:
                if not cs:
                    out.extend((v, "ne", c[0]) for c in t.d["cs"])
            elif len(cs) == 1:
                out.append((v, "eq", cs[0][0]))

    def cond(self, v, val, out, depth=0):
        if v[0] != "v" or depth > 8:
            return
        if v[1] < self.f.nparams:
            out.append((v, "ne" if val else "eq", 0)); return
        i = self.f.ins[v[1]]
        if i.op == "icmp":
            pr = i.d["pr"]; a, b = i.d["a"]
            if a[0] in ("i", "n"):
                a, b = b, a
            if b[0] in ("i", "n") and pr in ("eq", "ne"):
                eq = (pr == "eq") == val
                c = 0 if b[0] == "n" else b[1]
                pa = peel(self.f, a)
                if c == 0 and pa[0] == "v" and pa[1] >= self.f.nparams and self.f.ins[pa[1]].op in ("icmp",):
                    self.cond(pa, not eq, out, depth + 1)
                out.append((pa, "eq" if eq else "ne", c))
            else:
                out.append((a, "pr:" + pr if val else "npr:" + pr, b))
        elif i.op == "phi" and i.ty == "i1":
            live = [(x, b) for x, b in i.d["in"] if not (x[0] == "i" and bool(x[1]) != val)]
            if len(live) == 1:
                x, b = live[0]
                if x[0] != "i":
                    self.cond(x, val, out, depth + 1)
                out.extend(self.at(b))
                self.edge(b, i.blk, out, depth + 1)
        elif i.op == "select":
            c, a, b = i.d["a"]
            if val and b[0] == "i" and not b[1]:
                self.cond(c, True, out, depth + 1); self.cond(a, True, out, depth + 1)
            elif not val and a[0] == "i" and a[1]:
                self.cond(c, False, out, depth + 1); self.cond(b, False, out, depth + 1)
        elif i.op == "bin" and i.d["k"] == "xor" and i.d["a"][1][0] == "i":
            self.cond(i.d["a"][0], not val, out, depth + 1)
        elif i.op == "cast" and i.d["k"] == "trunc":
            out.append((peel(self.f, i.d["a"][0]), "ne" if val else "eq", 0))
        elif i.op == "load" or i.op == "call":
            out.append((v, "ne" if val else "eq", 0))


def peel(f, v):
    while v[0] == "v" and v[1] >= f.nparams:
        i = f.ins[v[1]]
        if i.op == "cast" and i.d["k"] in ("zext", "sext", "trunc"):
            v = i.d["a"][0]; continue
        break
    return v


def param_facts(c, b):
    """{(param, 'z'|'nz')} known in block b"""
    s = set()
    for v, op, k in c.at(b):
        if v[0] == "v" and v[1] < c.f.nparams and k == 0 and op in ("eq", "ne"):
            s.add((v[1], "z" if op == "eq" else "nz"))
    return s
