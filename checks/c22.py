"""C22: every change to the area list is written back."""
from sa.cg import CG, TOP, NONNULL, ZERO, root
from sa.sim import Sim, Client, trace
from sa.gates import Slice, truth
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate analysis over LLVM IR: from each program's main(), every change to an entry of the area list is followed by noting it and by the rewrite of the list"
NOTE = ("A change is a store to a field of an entry that the list file holds, a change to its node lists, or adding or removing an entry. Entries not yet in the list do not count. "
        "Whether the rewrite itself succeeds is C04 and C29.")

FIELDS = {"dir", "key", "lvl", "zone", "addr", "area", "nodes", "flags", "desc", "passive", "time", "expire_n", "expire_t", "state", "uplinks"}
LISTS = ("lon_add", "lon_remove", "lon_delete", "lon_sort", "lon_join", "lon_add_string", "areasbbs_add_passive")


class W(Client):
    maxenv = 3
    exits = True

    def __init__(self, ctx, prog, cg):
        self.ctx = ctx; self.prog = prog; self.cg = cg
        self.events = frozenset(("areasbbs_add", "areasbbs_remove", "areasbbs_remove1", "areasbbs_chstate", "areasbbs_changed", "areasbbs_not_changed", "areasbbs_rewrite", "areasbbs_init", "areasbbs_new", "areasbbs_free") + LISTS)
        self.opaque = self.events
        self.events = self.events | {"unlink", "remove"}
        self.sl = Slice(prog, cg); self.cache = {}; self.rets = None
        self.norewrite = norewrite(prog, cg)
        self.creators = {f.key for f in cg.fn.values() if any(i.callee == "areasbbs_add" for i in f.calls())}
        self.flags = set()
        m = cg.fn["main"]
        for i in m.all():
            if i.op == "switch":
                for c, b in i.d["cs"]:
                    if c == self.norewrite:
                        self.flags |= {"g:" + x.d["p"][1] for x in m.blocks[b] if x.op == "store" and x.d["p"][0] == "g" and x.d["v"] != ["i", 0]}
        self.sites = {k: set() for k in ("changes", "notes", "rewrites", "exits")}

    def dirty(self, f, i, st, what):
        self.sites["changes"].add((f.key, i.line))
        if ("N",) in st.prop:
            st.prop = st.prop | {("C",)}
        elif not any(x[0] == "D" for x in st.prop):
            st.prop = st.prop | {("D", f.key, i.line, what)}

    def branch(self, sim, f, t, val, st):
        k = (f.key, t.blk, val)
        if k not in self.cache:
            r = None
            if t.op == "br":
                for g, v, op, c in self.sl.atoms(f, t.d["c"], val):
                    if f.name == "main" and op == "eq" and c == self.norewrite and self.norewrite and "getopt_long" in self.sl.head(g, v):
                        r = "norewrite"
                    if self.sl.head(g, v) & self.flags and truth(op, c):
                        r = "norewrite"
                    if "s:AutoCreateCmd" in self.sl.ingr(g, v) and truth(op, c):
                        r = "external"
                    if f.name == "main" and g is f and v[0] == "v" and v[1] in self.status(f) and c == 0 and op in ("eq", "ne"):
                        r = "failed" if op == "ne" else "good"
            self.cache[k] = r
        r = self.cache[k]
        if r == "norewrite":
            return st.prop | {("X",)}
        if r == "failed":
            return st.prop | {("F",)}
        if r == "good":
            return st.prop - {("F",)}
        if r == "external":    # a program of the configuration creates the area in place of this one
            return frozenset(x for x in st.prop if not (x[0] == "D" and x[3] == "entry" and x[1] == f.key))
        return st.prop

    def enter(self, sim, f, i, targets, st, args):
        if any(t.key in self.creators for t in targets):
            st.prop = st.prop | {("A",)}
        return True

    def case(self, sim, f, t, val, st):
        if f.name == "main" and val is not None and val == self.norewrite:
            return st.prop | {("X",)}
        return st.prop

    def status(self, f):
        """the values main() ends with"""
        if self.rets is None:
            self.rets = set(); work = [i.d["v"] for i in f.all() if i.op == "ret" and i.d.get("v")]
            while work:
                v = work.pop()
                if v[0] == "v" and v[1] >= f.nparams and v[1] not in self.rets:
                    self.rets.add(v[1])
                    i = f.ins[v[1]]
                    if i.op == "phi":
                        work += [x for x, _ in i.d["in"]]
        return self.rets

    def new(self, f, v, depth=0):
        """the entry was made in this function and is not in the list yet"""
        b, _ = root(f, v)
        if b[0] == "x":
            x = f.ins.get(b[1])
            if x is not None and x.op == "call" and x.callee == "areasbbs_new":
                return True
            if x is not None and x.op == "phi" and depth < 3:
                return all(self.new(f, y, depth + 1) for y, _ in x.d["in"] if y[0] == "v")
        return False

    def field(self, f, p):
        v = p
        b, sf = root(f, p)
        fl = self.path(f, p)
        for s, n in fl:
            if s == "st_areasbbs" and n in FIELDS:
                return n
        return None

    def path(self, f, v):
        out = []
        for _ in range(20):
            if v[0] == "v" and v[1] >= f.nparams:
                i = f.ins[v[1]]
                if i.op == "gep":
                    out += [tuple(x[1:3]) for x in i.d["path"] if x[0] == "f"]
                    v = i.d["p"]; continue
                if i.op == "cast":
                    v = i.d["a"][0]; continue
            break
        return out

    def store(self, sim, f, i, st, addr, val):
        n = self.field(f, i.d["p"])
        if n and not self.new(f, i.d["p"]) and f.key not in self.opaque and f.unit != "common/areasbbs.c":
            self.dirty(f, i, st, n)

    def call(self, sim, f, i, name, targets, st, args):
        if name not in self.events:
            return None
        rv = sim.cg.retval(targets[0].key) if targets else TOP
        if name in ("unlink", "remove"):
            if ("N",) in st.prop:
                st.prop = st.prop | {("K",)}
            return [(st, TOP)]
        if name in LISTS:
            n = self.field(f, i.args[0]) or self.lonparam(f, i.args[0])
            if n and not self.new(f, i.args[0]):
                self.dirty(f, i, st, n)
            return [(st, rv)]
        if name in ("areasbbs_add", "areasbbs_remove", "areasbbs_remove1"):
            self.dirty(f, i, st, "entry")
            return [(st, rv)]
        if name == "areasbbs_chstate":
            if self.new(f, i.args[0]):
                return [(st, rv)]
            a = st.copy(); self.dirty(f, i, a, "state")
            return [(a, (1, 1, True, None)), (st, ZERO)]
        if name == "areasbbs_changed":
            self.sites["notes"].add((f.key, i.line))
            ch = any(x[0] == "D" for x in st.prop)
            st.prop = frozenset(x for x in st.prop if x[0] != "D") | {("N",)} | ({("C",)} if ch else set())
            return [(st, rv)]
        if name == "areasbbs_not_changed":
            if ("A",) not in st.prop:    # an area created on this very path may be given up again
                self.lost(f, i, st, "forgotten", "the note that it changed is taken back")
            st.prop = st.prop & {("X",)}
            return [(st, rv)]
        if name in ("areasbbs_rewrite", "areasbbs_init", "areasbbs_free"):
            if name == "areasbbs_rewrite":
                self.sites["rewrites"].add((f.key, i.line))
                if ("N",) not in st.prop:
                    self.lost(f, i, st, "unnoted", "the change was not noted, so the list is not rewritten")
            else:
                self.lost(f, i, st, "dropped", "the list is dropped without being rewritten")
            st.prop = st.prop & {("X",)}
            return [(st, rv)]
        return [(st, NONNULL if name == "areasbbs_new" else rv)]

    def lonparam(self, f, v):
        """LON *l = &p->nodes"""
        if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "phi":
            for y, _ in f.ins[v[1]].d["in"]:
                n = self.field(f, y)
                if n:
                    return n
        return None

    def lost(self, f, i, st, key, text):
        if ("X",) in st.prop:
            return
        if ("C",) in st.prop and key != "unnoted":
            self.ctx.violation("%s|%s|noted" % (key, self.prog.name), where(f, i.line), "the area list was changed and the change noted, but here %s" % text, trace(st.tr))
        for x in st.prop:
            if x[0] == "D":
                self.ctx.violation("%s|%s|%s|%s" % (key, self.prog.name, x[1], x[3]), "%s:%d (%s)" % (self.file(x[1]), x[2], x[1].split(":")[-1]),
                                   "the area list's %s is changed here, but at %s %s" % (x[3], where(f, i.line), text), trace(st.tr))

    def file(self, key):
        return "src/" + self.cg.fn[key].unit

    def exit(self, sim, f, i, st, code):
        self.sites["exits"].add((f.key, i.line))
        if code is not None and (code[2] or code[0] > 0 or code[1] < 0 or ("F",) in st.prop) and ("K",) not in st.prop:
            return    # failed before the request was disposed of
        self.lost(f, i, st, "exit", "the program ends without rewriting it")

    def ret(self, sim, f, i, st, val):
        self.exit(sim, f, i, st, val)


def run(ctx):
    ctx.rule("From main(): after every change to an entry of the area list, areasbbs_changed() is called, and areasbbs_rewrite() before the program ends.")
    n = 0
    for name, prog in sorted(ctx.repo.progs.items()):
        cg = CG(prog)
        if "areasbbs_init" not in cg.fn or "main" not in cg.fn or "main" not in cg.reaching({"areasbbs_init"}):
            continue
        cl = W(ctx, prog, cg)
        ev = set(cl.events) - {"lon_add", "lon_remove", "lon_delete", "lon_sort", "lon_join", "lon_add_string", "areasbbs_free"}
        ev -= {"unlink", "remove"}
        rel = cg.reaching(ev) | writers(cg, cl)
        s = Sim(prog, cg, cl)
        s.relevant = {k for k in rel if k not in cl.opaque and cg.fn[k].unit != "common/areasbbs.c"}
        s.run(cg.fn["main"], frozenset(), None)
        ctx.cov["abstract_states_" + name] = s.nstates
        if cl.sites["changes"]:
            n += 1
        for k, v in cl.sites.items():
            ctx.count(k, len(v))
        ctx.sample("%s: changes at %s" % (name, ", ".join("%s:%d" % x for x in sorted(cl.sites["changes"]))))
    ctx.floor("programs_changing_the_list", n, 2)


def norewrite(prog, cg):
    """the option letter that asks for leaving the list as it is"""
    f = cg.fn["main"]
    for i in f.calls():
        if i.callee == "getopt_long":
            for a in i.args:
                g = prog.glob(f.unit, a[1]) if a[0] == "g" else None
                for e in (g.init.get("agg", []) if g is not None and isinstance(g.init, dict) else []):
                    e = e.get("agg") if isinstance(e, dict) else None
                    if e and len(e) == 4 and e[0][0] == "g" and isinstance(e[3], int):
                        n = prog.glob(f.unit, e[0][1])
                        if n is not None and (n.init.get("str") or "").rstrip("\0") == "no-rewrite":
                            return e[3]
    return None


def writers(cg, cl):
    out = set()
    for f in cg.fn.values():
        if f.unit == "common/areasbbs.c":
            continue
        for i in f.all():
            if i.op == "store" and cl.field(f, i.d["p"]) or i.op == "call" and i.callee in LISTS and i.args and cl.field(f, i.args[0]):
                out.add(f.name)
    return (cg.reaching(out) | {k for k in cg.fn if cg.fn[k].name in out}) if out else set()
