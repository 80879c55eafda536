"""C13: areafix changes or reveals nothing before the sender is authorised."""
from sa.cg import CG, ZERO, TOP, HI, LO, NONNULL, const, root, EXT_WRITES
from sa.sim import Sim, Client, St, trace
from sa.fail import POS
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate dataflow with a ghost authorisation state"
NOTE = ("Message path: from areafix_do with unknown leftovers of earlier requests. Autocreation: callers of cmd_new_int in ftntoss and ftntick. "
        "Level, key and subscription limits per area are not part of this rule.")

CHANGE = {"lon_add": "a subscription is added", "lon_remove": "a subscription is removed", "areasbbs_add": "an area is created",
          "areasbbs_remove1": "an area is deleted", "areasbbs_changed": "the area list is marked changed",
          "areasbbs_chstate": "an area's state is changed", "run_system": "a command is run", "mkdir": "a directory is created",
          "unlink": "a file is removed", "rename": "a file is renamed"}
PRIV = {"areasbbs_add": "new", "areasbbs_remove1": "del"}
KEYS = {ord("$"): "new", ord("&"): "new", ord("~"): "del"}
SKIP = {"send_request", "fglog", "debug", "zonegate_init", "areasbbs_init", "uplinks_init", "hosts_init", "passwd_init", "areafix_init",
        "outpkt_netmail", "outpkt_close", "sequencer", "send_request"}


class C(Client):
    events = frozenset(list(CHANGE) + ["areafix_auth_check", "areafix_auth_cmd", "stricmp", "strcasecmp", "strcmp", "strchr", "fopen", "passwd_lookup"]) | frozenset(SKIP)
    maxenv = 2

    only = None

    def __init__(self, ctx, start, accept, skip_keys, mode):
        # mode "pw": the ghost is whether the password matched; "new"/"del": whether the key letter was seen
        self.ctx = ctx; self.start = start; self.accept = accept; self.mode = mode
        self.sinks = set(); self.reveal = set(); self.auths = set(); self.skip = skip_keys

    def bad(self, f, i, st, what, kind):
        self.ctx.violation("%s|%s|%s" % (self.start, f.name, kind), where(f, i.line), "%s: %s, but the sender is not authorised on this path" % (self.start, what), trace(st.tr))

    def keepcell(self, key):
        return key[1][0] == "G" and key[1][1] in self.keep_globals

    def call(self, sim, f, i, name, targets, st, args):
        ok = st.prop
        pw = self.mode == "pw"
        if name is None and i.d.get("nfix"):
            return [(st, TOP)]
        for k, a in enumerate(args):
            # the requesting system's address changes: what was granted was granted to another system
            if pw and a[3] == "reqnode":
                w = set().union(*(sim.cg.mod_p[t.key] for t in targets)) if targets else set(EXT_WRITES.get(name, ()))
                if k in w and not any(t.key in sim.relevant for t in targets):
                    st.prop = ok = False
        if name in SKIP or (targets and any(t.key in self.skip for t in targets)):
            r = sim.cg.retval(targets[0].key) if targets else TOP
            return [(st, r)]
        if name == "areafix_auth_cmd":
            if "op" not in self.accept:
                self.bad(f, i, st, "operator rights are taken while serving a request", "op")
            return None
        if name == "passwd_lookup":
            # a new attempt: whatever was granted before no longer counts
            r = [(St(False, dict(st.env), st.tr), (1, HI, True, "pwd"))]
            r.append((St(False, dict(st.env), (st.tr, i.line, "no password entry")), ZERO))
            return r
        if name in ("stricmp", "strcasecmp", "strcmp"):
            if pw and any(a[3] == "cfgpw" for a in args[:2]):
                self.auths.add((f.key, i.line))
                other = [k for k in (0, 1) if args[k][3] != "cfgpw"]
                good = bool(other) and i.args[other[0]][0] != "g"
                return [(St(good, dict(st.env), (st.tr, i.line, "right password")), ZERO),
                        (St(False, dict(st.env), (st.tr, i.line, "wrong password")), (LO, HI, True, None))]
            return None
        if name == "strchr":
            c = args[1]
            if c[0] == c[1] and KEYS.get(c[0]) == self.mode and args[0][3] == "cfgkey":
                self.auths.add((f.key, i.line))
                return [(St(True, dict(st.env), st.tr), NONNULL), (st, ZERO)]
            return None
        if name == "fopen":
            m = args[1][3]
            mode = m[1] if isinstance(m, tuple) and m[0] == "s" else "?"
            if mode[:1] in ("w", "a") and pw and self.only is None:
                self.sinks.add((f.key, i.line))
                if not ok:
                    self.bad(f, i, st, "a file is written", "file")
            return [(st, TOP)]
        if name in CHANGE:
            if pw and (self.only is None or name in self.only):
                self.sinks.add((f.key, i.line))
                if not ok:
                    self.bad(f, i, st, CHANGE[name], name)
            elif PRIV.get(name) == self.mode and (self.mode != "del" or any(g.name == "cmd_delete" for g, _ in sim.stack) or f.name == "cmd_delete"):
                self.sinks.add((f.key, i.line))
                if not ok:
                    self.bad(f, i, st, CHANGE[name] + " although the node's key does not grant it", name + "|priv")
            r = sim.cg.retval(targets[0].key) if targets else TOP
            return [(st, r)]
        return None

    def store(self, sim, f, i, st, addr, val):
        if self.mode == "pw" and addr[0][0] == "V" and st.env.get(addr[0][1], TOP)[3] == "reqnode":
            st.prop = False

    def load(self, sim, f, i, st, addr):
        if i.ty != "p":
            return None
        base, off, sf = addr
        if sf is not None and sf[1] == "passwd" and "passwd" in sf[0].lower():
            return (LO, HI, False, "cfgpw")
        if base[0] == "G" and "key" in base[1]:
            return (LO, HI, False, "cfgkey")
        return None

    def block(self, sim, f, b, st):
        # output through the reply function that shows area data
        for i in f.blocks[b]:
            if i.op == "call" and i.callee is None and i.d.get("nfix"):
                if any(self.area_data(f, a) for a in i.args):
                    self.reveal.add((f.key, i.line))
                    if not st.prop and self.mode == "pw" and self.only is None:
                        self.bad(f, i, st, "areas are listed", "reveal")

    def area_data(self, f, v):
        if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "load":
            sf = root(f, f.ins[v[1]].d["p"])[1]
            return sf is not None and sf[0] == "st_areasbbs" and sf[1] in ("area", "desc", "dir")
        return False


def flags(prog, cg, cand):
    """those of the globals that only ever hold stored constants: the authorisation flags"""
    bad = set(); good = set()
    for f in prog.funcs():
        for i in f.all():
            if i.op == "store":
                b, _ = root(f, i.d["p"])
                if b[0] != "g":
                    continue
                g = prog.glob(f.unit, b[1])
                k = g.key if g else b[1]
                v = i.d["v"]
                if v[0] == "i":
                    good.add(k)
                elif v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "load" and root(f, f.ins[v[1]].d["p"])[0] == b:
                    pass          # saved and restored
                else:
                    bad.add(k)
    return {k for k in cand if k in good and k not in bad}


def setters(prog, fl):
    out = set()
    for f in prog.funcs():
        for i in f.all():
            if i.op == "store":
                b, _ = root(f, i.d["p"])
                g = prog.glob(f.unit, b[1]) if b[0] == "g" else None
                if g is not None and g.key in fl:
                    out.add(f.key)
    return out


def relevant(cg):
    """functions the simulation enters: those reaching a change, a password or key test, or output of area data"""
    seeds = set()
    for k, f in cg.fn.items():
        loaded = set()
        for i in f.all():
            if i.op == "load" and i.ty == "p":
                b, sf = root(f, i.d["p"])
                if sf and sf[1] == "passwd" and "passwd" in sf[0].lower() or b[0] == "g" and "key" in b[1]:
                    loaded.add(i.id)
                if sf and sf[0] == "st_areasbbs" and sf[1] in ("area", "desc", "dir"):
                    seeds.add(k)
        for i in f.calls():
            if any(a[0] == "v" and a[1] in loaded for a in i.args):
                if i.callee in CMPS:
                    seeds.add(k)
                for t in cg.targets(f, i):
                    seeds |= {x for x in cg.closure(t.key) if cg.extcalls[x] & CMPS}
    ev = set(CHANGE) | {"areafix_auth_check", "areafix_auth_cmd", "fopen", "passwd_lookup"}
    return (cg.reaching(ev) | cg.reaching(seeds) | seeds) - LOGGERS - {k for k in cg.fn if k.startswith("log.c:")}


CMPS = {"strcasecmp", "strcmp", "strchr"}
LOGGERS = {"fglog", "debug"}


def run(ctx):
    ctx.rule("From every entry serving a request, with unknown leftovers of earlier requests, each change of the area list, each command run, file written or area shown "
             "is reached only after the given password was compared equal to the configured one; creating needs $ or &, deleting needs ~ in the node's key.")
    nst = ns = nr = na = nauto = 0
    rows = []
    for p in ("ftnaf", "ftnafpkt"):
        rows.append((p, "areafix_do", ("pw", "new", "del"), None))
    for p, modes in (("ftntick", ("pw", "new")), ("ftntoss", ("new",))):
        rows.append((p, None, modes, {"areasbbs_add"}))
    for p, start, modes, only in rows:
        prog = ctx.repo.progs.get(p)
        if prog is None:
            raise ir.Broken("program %s is gone" % p)
        cg = CG(prog)
        if start is not None:
            if start not in cg.fn:
                raise ir.Broken("%s is gone from %s" % (start, p))
            starts = [cg.fn[start]]
        else:
            # automatic creation: the functions of the program itself from which an area can be created
            mu = cg.fn["main"].unit
            starts = sorted({f for f, _ in cg.callers["cmd_new_int"] if f.unit == mu}, key=lambda f: f.key)
            if not starts:
                raise ir.Broken("C13: %s no longer creates areas automatically" % p)
        fl = flags(prog, cg, cg.mod_g["areafix_auth_check"] | cg.mod_g.get("areafix_auth_cmd", set()))
        rel = relevant(cg) | setters(prog, fl)
        for st in starts:
            for mode in modes:
                cl = C(ctx, p, ("pw",), set(), mode)
                cl.keep_globals = fl; cl.only = only
                s = Sim(prog, cg, cl)
                s.relevant = rel
                s.run(st, False, {0: (1, HI, True, "reqnode")} if start else None)
                nst += s.nstates
                if only is None:
                    ns += len(cl.sinks); nr += len(cl.reveal)
                else:
                    nauto += len(cl.sinks)
                na += len(cl.auths)
                ctx.sample("%s from %s, %s: %d changes, %d disclosures, %d tests, %d states" % (p, st.name, mode, len(cl.sinks), len(cl.reveal), len(cl.auths), s.nstates))
                if not cl.auths and mode == "pw":
                    raise ir.Broken("C13: no password comparison seen in " + p)
    ctx.floor("changes_reached", ns, 20)
    ctx.floor("disclosures_reached", nr, 2)
    ctx.floor("automatic_creations_reached", nauto, 1)
    ctx.cov["password_and_key_tests"] = na
    ctx.cov["abstract_states"] = nst
