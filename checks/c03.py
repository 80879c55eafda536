"""C03: a node's busy flag is held while its outbound changes and always released."""
from sa.cg import CG, ZERO, TOP, const, root
from sa.sim import Sim, Client, St, trace
from sa.ctx import where
from sa import ir
from checks.c02 import failures

TECHNIQUE = "interprocedural path-sensitive typestate dataflow (count of busy flags held, with memory of node comparisons) over LLVM IR"
NOTE = ("Flags are counted, not told apart by node: releasing the flag of one node instead of another's is not seen. Covers every path of every program; "
        "aborts inside the library are excluded as in C01.")

FIND = {"bink_find_out", "bink_find_flo"}
OPENW = {"fopen": 1}


class C(Client):
    """prop = (flags held, an outbound name has been determined, remembered comparisons, busy file by path held)"""
    exits = True
    events = frozenset(["bink_bsy_create", "bink_bsy_delete", "node_eq", "fopen", "unlink", "rename", "lock_lockfile", "lock_lockfile_nfs",
                        "bink_find_out", "bink_find_flo", "bink_attach", "pkt_open_node"])
    opaque = frozenset(["fglog", "debug", "charset_set_in_out", "mime_body_dec", "header_decode", "determine_charsets", "rfcaddr_from_rfc", "tmps_freeall", "lock_program", "lock_path", "unlock_program", "unlock_path", "unlock_lockfile", "bink_bsy_test", "sequencer", "cf_read_config_file",
                        "areasbbs_init", "areasbbs_rewrite", "hosts_init", "passwd_init", "routing_init", "uplinks_init", "charset_init", "alias_init", "areas_init",
                        "acl_init", "ftnacl_init", "spyes_init", "nodelist_read", "mail_close", "mail_open", "hi_init", "hi_init_dbc", "hi_write", "hi_close"])
    maxenv = 2

    def __init__(self, ctx, pn):
        self.ctx = ctx; self.pn = pn
        self.cre = set(); self.dele = set(); self.ends = 0; self.chg = set()

    def v(self, kind, f, i, st, text):
        self.ctx.violation("%s|%s|%s" % (self.pn, kind, f.name), where(f, i.line), "%s: %s" % (self.pn, text), trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        held, tgt, eqs, byp = st.prop

        def to(h=held, t=tgt, e=eqs, b=byp, rv=TOP, what=None):
            return (St((h, t, e, b), dict(st.env), (st.tr, i.line, what) if what else st.tr), rv)
        if name == "bink_bsy_create":
            self.cre.add((f.key, i.line))
            return [to(h=min(held + 1, 3), rv=ZERO, what="busy")] + [to(rv=rv, what="busy fails") for rv in self.fails["bink_bsy_create"]]
        if name == "bink_bsy_delete":
            self.dele.add((f.key, i.line))
            if held == 0:
                self.v("unheld", f, i, st, "removes a busy flag although it created none that still exists on this path")
            h = max(held - 1, 0)
            return [to(h=h, t=tgt if h else None, rv=ZERO), to(h=h, t=tgt and h > 0, rv=const(-1))]
        if name == "node_eq":
            k = []
            for a in i.args:
                b, o, _ = sim.resolve(f, a, st.env)
                k.append((b, o))
            k = (f.key, tuple(sorted(map(str, k))))
            d = dict(eqs)
            if k in d:
                return [to(rv=const(1) if d[k] else ZERO)]
            if len(d) > 1 or not self.pair(f):
                return None
            return [to(e=eqs | {(k, x)}, rv=const(1) if x else ZERO) for x in (0, 1)]
        if name in FIND and targets:
            return [to(t=f.key, rv=(1, 1 << 60, True, None)), to(rv=ZERO)]
        if name == "fopen" and not targets:
            m = args[1][3]
            m = m[1] if isinstance(m, tuple) and m[0] == "s" else "r+"
            if m.startswith("r") and "+" not in m:
                return None
            if tgt == f.key:
                self.chg.add((f.key, i.line))
                if held == 0 and not byp:
                    self.v("change", f, i, st, "changes a node's outbound without that node's busy flag")
            return None
        if name in ("lock_lockfile", "lock_lockfile_nfs") and targets and f.name not in self.opaque:
            b = self.arr(f, i.args[0])
            self.cre.add((f.key, i.line))
            if byp:
                self.v("twice", f, i, st, "creates a second busy file before removing the first")
            return [to(b=b, rv=ZERO, what="busy file")] + [to(rv=rv) for rv in self.fails[name]]
        if name == "unlink" and byp and not targets:
            if self.arr(f, i.args[0]) == byp:
                self.dele.add((f.key, i.line))
                return [to(b=None, rv=ZERO), to(b=None, rv=const(-1))]
            return None
        return None

    units = {"common/flo.c", "common/packet.c", "common/binkley.c"}

    def arr(self, f, a):
        b, _ = root(f, a)
        return "%s:%s" % (f.name, b)

    _p = None

    def pair(self, f):
        """only functions that deal with busy flags and compare nodes need the memory"""
        return any(j.callee in ("bink_bsy_create", "bink_bsy_delete") for j in f.calls())

    def load(self, sim, f, i, st, addr):
        if addr[0] == ("G", "optarg"):
            return (1, 1 << 60, True, None)
        # a file name given on the command line is not the empty string
        if i.ty == "i8" and addr[1] == 0 and addr[0][0] == "V":
            x = addr[0][1]
            if f.name == "pkt_open" and x == 0 or x >= f.nparams and f.ins[x].op == "load" and f.ins[x].d["p"][0] == "g":
                return (1, 127, True, None)
        # a node that has an outbound has a zone
        if (addr[2] == ("st_node", "zone") or addr[0] in self.nodes and addr[1] == 0 and i.ty == "i32") and ("C",) + addr[:2] + (4, addr[2]) not in st.env:
            return (0, 65535, False, None)
        return None

    def keepcell(self, key):
        b = key[1]
        return b[0] == "A" or b[0] == "V" and self.small(b) or b[0] == "G" and (b[1].split(":")[0] in self.units and key[3] in (4, 8) or b[1] in self.flags)

    def entry(self, t, env):
        if t.internal and self.flags and ":" in t.key and t.unit not in self.units:
            return {k: v for k, v in env.items() if type(k) is tuple and k[1][0] == "G" and k[1][1] in self.states}
        return env

    def small(self, b):
        return False

    flags = frozenset()
    nodes = frozenset()

    def split(self, st):
        """what the library remembers about the open packet and flow file is kept apart"""
        return frozenset((k[1][1], k[2], v[0] == v[1] == 0, v[2], v[0] == v[1] == -1) for k, v in st.env.items()
                         if type(k) is tuple and k[0] == "C" and k[1][0] == "G" and k[1][1] in self.states and k[3] in (4, 8) and (v[2] or v[0] == v[1] == 0))

    states = frozenset()

    def end(self, f, i, st):
        self.ends += 1
        if st.prop[0] > 0 or st.prop[3]:
            self.v("leak", f, i, st, "the program ends here and leaves a busy flag it created")

    def exit(self, sim, f, i, st, code):
        self.end(f, i, st)

    def ret(self, sim, f, i, st, val):
        self.end(f, i, st)


def outputs(prog, cg):
    """the program's globals that name an output packet"""
    r = set()
    for f in prog.funcs():
        for i in f.calls():
            if i.callee == "pkt_open" and i.args[0][0] == "v" and i.args[0][1] >= f.nparams:
                x = f.ins[i.args[0][1]]
                if x.op == "load" and x.d["p"][0] == "g":
                    g = prog.glob(f.unit, x.d["p"][1])
                    if g:
                        r.add(g.key)
    return frozenset(r)


def prog_ty(prog, key):
    u, _, n = key.partition(":")
    g = prog.glob(u, n) if n else prog.glob(None, u)
    return g.ty if g else None


def initial(prog, cg, extra=frozenset()):
    """static integers and pointers of the units that handle busy flags, as they are at the start of main"""
    env = {}
    units = {f.unit for f in prog.funcs() if any(i.callee in ("bink_bsy_create", "bink_bsy_delete") for i in f.calls())}
    for u in prog.units:
        for g in u.globals.values():
            if g.decl or g.const or not g.internal or not (u.name in units or g.key in extra):
                continue
            b = ("G", g.key)
            if g.ty == "i32" and isinstance(g.init, int):
                env[("C", b, 0, 4, None)] = const(g.init)
            elif g.ty == "p" and g.init == ["n"]:
                env[("C", b, 0, 8, None)] = ZERO
            elif g.ty.startswith("s:") and isinstance(g.init, dict) and "agg" in g.init:
                st = u.structs.get(g.ty[2:])
                for fl, v in list(zip(st or [], g.init["agg"]))[:1]:
                    if isinstance(v, int) and fl[3] == "i32":
                        env[("C", b, fl[1], fl[2], None if fl[1] == 0 else (g.ty[2:], fl[0]))] = const(v)
    return env


def run(ctx):
    ctx.rule("From main() of every program, over all feasible paths: the number of busy flags created and not yet removed is 0 at every end of the program, a flag is removed only "
             "while one is held, and flow files and outbound packets (names from bink_find_flo and bink_find_out) are opened for writing only while one is held.")
    ctx.assumption("two calls of node_eq on the same two nodes within one function give the same answer")
    n = cre = de = chg = 0
    for pn, prog in sorted(ctx.repo.progs.items()):
        cg = CG(prog)
        if "main" not in cg.fn:
            continue
        u = cg.fn["main"].unit
        if not ("bink_bsy_create" in cg.fn and "main" in cg.reaching({"bink_bsy_create"})) and \
           not any(i.callee in ("lock_lockfile", "lock_lockfile_nfs") for f in prog.funcs() if f.unit == u for i in f.calls()):
            continue
        cl = C(ctx, pn)
        cl.fails = {w: failures(prog, cg, w) for w in ("bink_bsy_create", "lock_lockfile", "lock_lockfile_nfs")}
        s = Sim(prog, cg, cl)
        cl.flags = outputs(prog, cg)
        env = initial(prog, cg, cl.flags)
        # the globals that the functions holding busy flags branch on
        cl.states = frozenset(k[1][1] for k in env)
        cl.nodes = frozenset(k[1] for k in env if k[1][1] not in cl.flags and prog_ty(prog, k[1][1]) == "s:st_node")
        cl.maxenv = 1 if cl.flags else 3
        # only what leads to a busy flag is entered
        want = {"bink_bsy_create", "bink_bsy_delete", "lock_lockfile", "lock_lockfile_nfs", "bink_find_out", "bink_find_flo"}
        op = cl.opaque
        s.relevant = {k for k, g in cg.fn.items() if g.unit in cl.units and (cg.mod_g[k] & cl.states or cg.ref_g[k] & cl.states and not cg.callees[k])} - cl.opaque
        s.relevant |= (cg.reaching(want, op) | cg.reaching(s.exitfns, op) | s.exitfns) - op - {"bink_bsy_create", "bink_bsy_delete"}
        cl.flags = outputs(prog, cg)
        s.run(cg.fn["main"], (0, None, frozenset(), None), env)
        n += 1; cre += len(cl.cre); de += len(cl.dele); chg += len(cl.chg)
        ctx.sample("%s: %d create, %d remove, %d change sites, %d states" % (pn, len(cl.cre), len(cl.dele), len(cl.chg), s.nstates))
    ctx.floor("programs_using_busy_flags", n, 5)
    ctx.floor("create_sites_reached", cre, 6)
    ctx.floor("remove_sites_reached", de, 15)
    ctx.floor("outbound_change_sites_reached", chg, 4)
