"""Gates: on every path to an action, each of a set of tests was made since the subject was taken up, and came out on the permitting side.

A test is recognised by what its condition is computed from (functions called, globals, record fields, configuration keywords), not by where or how it is written.
"""
from .cg import TOP, HI, LO, root, const
from .sim import Client, Sim, trace
from .conds import Conds, peel
from .ctx import where


class Slice:
    def __init__(self, prog, cg):
        self.prog = prog; self.cg = cg; self.memo = {}; self._c = {}

    def conds(self, f):
        if f.key not in self._c:
            self._c[f.key] = Conds(f)
        return self._c[f.key]

    def strof(self, f, v):
        if v[0] == "g":
            g = self.prog.glob(f.unit, v[1])
            s = getattr(g, "init", None) if g is not None else None
            if isinstance(s, dict) and "str" in s:
                return s["str"].rstrip("\0")
        if v[0] == "ce":
            return self.strof(f, v[1]) if isinstance(v[1], list) else None
        return None

    def ingr(self, f, v, depth=0, seen=None):
        """names a value is computed from"""
        seen = set() if seen is None else seen
        k = v[0]
        if k == "g":
            s = self.strof(f, v)
            return {"s:" + s} if s is not None else {"g:" + v[1].split(".")[-1] if v[1].startswith(".") else "g:" + v[1]}
        if k == "ce":
            return self.ingr(f, v[1], depth, seen) | fields(v[3] if len(v) > 3 else []) if isinstance(v[1], list) else set()
        if k == "i":
            return {"i:%d" % v[1]}
        if k != "v" or depth > 6:
            return set()
        if v[1] < f.nparams:
            return {"p:%d" % v[1]}
        if v[1] in seen:
            return set()
        seen.add(v[1])
        i = f.ins.get(v[1])
        if i is None:
            return set()
        if i.op == "call":
            out = {i.callee} if i.callee else set()
            for a in i.args:
                out |= self.ingr(f, a, depth + 1, seen)
            return out
        if i.op == "load":
            return self.ingr(f, i.d["p"], depth, seen)
        if i.op == "gep":
            return self.ingr(f, i.d["p"], depth, seen) | fields(i.d["path"])
        if i.op == "alloca":
            out = {"a:%s" % (i.name or i.id)}
            for x in f.all():
                if x.op == "store" and x.d["p"] == v:
                    out |= self.ingr(f, x.d["v"], depth + 1, seen)
            return out
        if i.op == "phi":
            out = set()
            for x, _ in i.d["in"]:
                out |= self.ingr(f, x, depth, seen)
            return out
        out = set()
        for a in i.d.get("a", []):
            out |= self.ingr(f, a, depth, seen)
        return out

    def head(self, f, v, depth=0):
        """names a condition value directly is: the function called, the global or field loaded"""
        k = v[0]
        if k != "v" or v[1] < f.nparams or depth > 4:
            return set()
        i = f.ins[v[1]]
        if i.op == "call":
            return {i.callee} if i.callee else set()
        if i.op == "load":
            p = i.d["p"]
            b, sf = root(f, p)
            out = set()
            if sf:
                out.add("." + sf[1])
            elif b[0] == "g":
                out.add("g:" + b[1])
            elif b[0] == "a":
                for x in f.all():
                    if x.op == "store" and x.d["p"] == p:
                        out |= self.head(f, x.d["v"], depth + 1)
            return out
        if i.op == "phi":
            out = set()
            for x, _ in i.d["in"]:
                out |= self.head(f, x, depth + 1)
            return out
        if i.op == "cast":
            return self.head(f, i.d["a"][0], depth)
        if i.op == "bin" and i.d["k"] in ("and",):
            return self.head(f, i.d["a"][0], depth + 1) | self.head(f, i.d["a"][1], depth + 1)
        return set()

    def atoms(self, f, v, val, depth=0):
        """[(F, value, truth)] decided when condition v is val; truth is True/False/None"""
        out = []; raw = []
        self.conds(f).cond(v, val, raw)
        for a, op, k in raw:
            out.append((f, a, op, k))
            if op not in ("eq", "ne"):
                continue
            if depth < 3 and a[0] == "v" and a[1] >= f.nparams and f.ins[a[1]].op == "call":
                i = f.ins[a[1]]
                for t in self.cg.targets(f, i):
                    for b in t.blocks:
                        r = b[-1]
                        if r.op == "ret" and "v" in r.d:
                            for lv in leaves(t, r.d["v"]):
                                if lv[0] == "v" and k == 0:
                                    out += self.atoms1(t, lv, op == "ne", depth + 1)
        return out

    def atoms1(self, t, lv, truth, depth):
        pv = peel(t, lv)
        if pv[0] == "v" and pv[1] >= t.nparams and t.ins[pv[1]].op in ("icmp", "bin", "phi", "select"):
            return self.atoms(t, pv, truth, depth)
        return [(t, pv, "ne" if truth else "eq", 0)]


def leaves(f, v, seen=None):
    seen = set() if seen is None else seen
    v = peel(f, v)
    if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "phi" and f.ins[v[1]].ty != "i1":
        if v[1] in seen:
            return []
        seen.add(v[1])
        out = []
        for x, _ in f.ins[v[1]].d["in"]:
            out += leaves(f, x, seen)
        return out
    return [v]


def fields(path):
    return {"." + e[2] for e in path if e[0] == "f"}


def truth(op, k):
    """the boolean a comparison with k stands for"""
    if k == 0:
        return op == "ne"
    if op == "eq":
        return True
    return False if k == 1 else None


class T:
    """one test: head name, side that permits (True/False), names that must take part, names that must not"""

    def __init__(self, head, side, need=(), neg=None, without=()):
        self.head = head; self.side = side; self.need = set(need); self.neg = neg; self.without = set(without)


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAPP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
IMPL = {"slt": {"slt", "sle"}, "sgt": {"sgt", "sge"}}


class R:
    """a comparison: what is computed from left stands in relation rel to what is computed from right (a set, or a number)"""
    head = "s:"

    def __init__(self, left, rel, right):
        self.left = set(left); self.rel = rel; self.right = right

    def holds(self, sl, f, a, op, b):
        if op in ("eq", "ne"):
            pr = op; b = ["i", b]
        else:
            pr = op[3:] if op.startswith("pr:") else NEGP.get(op[4:], "?")
        for x, y, p in ((a, b, pr), (b, a, SWAPP.get(pr, pr))):
            p = p.replace("u", "s", 1) if p[0] == "u" else p
            if x[0] != "v" or not self.left & sl.ingr(f, x):
                continue
            if isinstance(self.right, int):
                if y[0] not in ("i", "n") or (0 if y[0] == "n" else y[1]) != self.right:
                    k = 0 if y[0] == "n" else y[1] if y[0] == "i" else None
                    # x < k+1 is x <= k
                    if k is None or not (self.rel == "sle" and p == "slt" and k == self.right + 1 or self.rel == "sgt" and p == "sge" and k == self.right + 1):
                        continue
                    return True
            elif y[0] != "v" or not self.right & sl.ingr(f, y):
                continue
            if self.rel == p or self.rel in IMPL.get(p, ()):
                return True
            if p == "eq" and self.rel in ("sle", "sge"):
                return True
        return False


class Gate:
    def __init__(self, name, tests, text):
        self.name = name; self.tests = tests; self.text = text


class GateClient(Client):
    """prop: frozenset of gate names passed (plus marks)"""
    maxenv = 2

    def __init__(self, ctx, prog, cg, gates, sinks, resets=(), refuse=(), extra_events=(), marks=None):
        self.ctx = ctx; self.sl = Slice(prog, cg); self.gates = gates
        self.sinks = sinks            # name -> predicate(f, i, args) or None
        self.resets = set(resets); self.refuse = set(refuse); self.marks = marks or {}
        heads = {t.head for g in gates for t in g.tests if not t.head.startswith(("g:", ".", "s:"))}
        self.checks = heads
        self.events = frozenset(set(sinks) | self.resets | self.refuse | heads | set(extra_events) | set(self.marks))
        self.seen_sinks = set(); self.seen_tests = {g.name: set() for g in gates}; self.cache = {}
        self.rets = []

    def decided(self, sim, f, t, val):
        k = (f.key, t.blk, val)
        if k in self.cache:
            return self.cache[k]
        out = set()
        for g2, v, op, c in self.sl.atoms(f, t.d["c"], val):
            hd = self.sl.head(g2, v)
            for g in self.gates:
                for x in g.tests:
                    if isinstance(x, R):
                        if x.holds(self.sl, g2, v, op, c):
                            self.seen_tests[g.name].add((g2.key, t.line)); out.add(g.name)
                        continue
                    if op not in ("eq", "ne"):
                        continue
                    if x.head.startswith("s:"):
                        ing = self.sl.ingr(g2, v)
                        if x.head not in ing:
                            continue
                    elif x.head not in hd:
                        continue
                    if x.need or x.without:
                        ing = self.sl.ingr(g2, v)
                        if not x.need <= ing or x.without & ing:
                            continue
                    tr = truth(op, c)
                    if x.neg is not None and c == x.neg:
                        good = op == "ne"
                    else:
                        if tr is None:
                            continue
                        good = tr == x.side
                    self.seen_tests[g.name].add((g2.key, t.line))
                    if good:
                        out.add(g.name)
        self.cache[k] = frozenset(out)
        return self.cache[k]

    def branch(self, sim, f, t, val, st):
        d = self.decided(sim, f, t, val)
        return st.prop | d if d else st.prop

    def sink(self, sim, f, i, name, st):
        self.seen_sinks.add((f.key, i.line))
        miss = [g for g in self.gates if g.name not in st.prop]
        for g in miss:
            self.ctx.violation("%s|%s" % (name, g.name), where(f, i.line), "%s() is reached on a path on which %s" % (name, g.text), trace(st.tr))
        if "refused" in st.prop:
            self.ctx.violation("%s|refused" % name, where(f, i.line), "%s() is reached for a message that was refused on this path" % name, trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        out = None
        if name in self.resets:
            st.prop = frozenset()
            out = [(st, sim.cg.retval(targets[0].key) if targets else TOP)]
        if name in self.sinks and (self.sinks[name] is None or self.sinks[name](f, i, args)):
            self.sink(sim, f, i, name, st)
        if name in self.refuse:
            st.prop = st.prop | {"refused"}
        if name in self.marks:
            st.prop = st.prop | {self.marks[name]}
        if out is None and name in self.events:
            out = [(st, sim.cg.retval(targets[0].key) if targets else TOP)]
        return out

    def ret(self, sim, f, i, st, val):
        self.rets.append((f, i.line, st.prop, val, st.tr))


class Scan(GateClient):
    """a search through a list: found only after a match, not found only after no match with any entry"""

    def __init__(self, ctx, prog, cg, f, gates, whole, nexts=(".next", "cf_addr_trav")):
        GateClient.__init__(self, ctx, prog, cg, gates, {})
        self.f = f; self.whole = whole; self.nexts = set(nexts); self.names = frozenset(g.name for g in gates)

    def branch(self, sim, f, t, val, st):
        p = st.prop
        if f is not self.f or t.op != "br":
            return p
        p = p | self.decided(sim, f, t, val)
        if self.decided(sim, f, t, not val) - p or self.names <= p:
            p = p | {"tested"}
        atoms = []
        c = t.d["c"]
        if c[0] == "v" and c[1] >= f.nparams and f.ins[c[1]].op == "icmp":
            self.sl.conds(f).cond(c, val, atoms)
        for v, op, k in atoms:
            if k != 0 or op not in ("eq", "ne") or v[0] != "v":
                continue
            if v[1] < f.nparams:
                p = p | {"tested", "end"} if op == "eq" else p    # nothing to look for
                continue
            i = f.ins[v[1]]
            hd = self.sl.head(f, v)
            if i.op == "phi" and i.ty == "p" and hd & self.nexts:
                if "in" in p and "tested" not in p and self.whole:
                    self.ctx.violation("%s|skip" % f.name, where(f, t.line), "%s() passes over an entry of the list without comparing it" % f.name, trace(st.tr))
                p = p - {"in", "tested"} - self.names | {"in" if op == "ne" else "end"}
            elif op == "eq" and hd == {".next"}:
                p = p | {"tested"}    # the last entry, which is not to be compared
        return p

    def ret(self, sim, f, i, st, val):
        if f is not self.f:
            return
        zero = val[0] == val[1] == 0
        nonzero = val[0] > 0 or val[1] < 0
        self.rets.append((f, i.line, st.prop, val, st.tr))
        if zero and self.names <= st.prop:
            self.ctx.violation("%s|missed" % f.name, where(f, i.line), "%s() answers not found after an entry matched" % f.name, trace(st.tr))
        if zero and "end" not in st.prop and not self.names <= st.prop and self.whole:
            self.ctx.violation("%s|early" % f.name, where(f, i.line), "%s() answers not found before every entry was compared" % f.name, trace(st.tr))
        if nonzero and not self.names <= st.prop:
            self.ctx.violation("%s|found" % f.name, where(f, i.line), "%s() answers found although no entry matched (%s)" % (f.name, ", ".join(sorted(self.names - st.prop))), trace(st.tr))
