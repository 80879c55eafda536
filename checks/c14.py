"""C14: echomail is distributed only after passing every acceptance check."""
from sa.cg import CG, root
from sa.sim import Sim, trace
from sa.gates import GateClient, Gate, T, Slice, Scan, leaves
from sa.conds import Conds
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive must-pass dataflow over LLVM IR: tests recognised by what their condition is computed from, required on every path to the distributing writes"
NOTE = ("The start is do_echomail() of ftntoss. Which tests the configuration may switch off is part of the rule (DupeCheck, CheckPath, insecure tossing, n and t options). "
        "What a test function answers is taken as given, except the duplicate history, whose stored and tested keys are compared.")

GATES = [
    Gate("area", [T("areasbbs_lookup", True)], "the area was not found in the area list"),
    Gate("password", [T("passwd_lookup", False), T("stricmp", False, {"passwd_lookup"}), T("strcasecmp", False, {"passwd_lookup"})], "the packet password was not found right"),
    Gate("duplicate", [T("g:dupe_check", False), T("hi_test", False)], "it was not found to be new"),
    Gate("recorded", [T("g:dupe_check", False), T("hi_write", False), T("hi_write", True, neg=-1),
                      T("lon_search", False, {".nodes", ".node_from"})], "it was not recorded in the duplicate history"),
    Gate("own address", [T("g:n_flag", True), T("node_eq", True, {"cf_addr", ".node_to"}), T("is_local_addr", True, {".node_to"})], "it was not found to be addressed to this system"),
    Gate("linked", [T("g:t_flag", True), T("node_eq", True, {"cf_addr", ".node_from"}), T("lon_search", True, {".nodes", ".node_from"})], "its sender was not found linked to the area"),
    Gate("read only", [T("ftnacl_isreadonly", False), T("lon_is_uplink", True)], "its sender was not checked against read-only access"),
    Gate("path", [T("g:check_path", False), T("do_check_path", False), T("do_check_path", False, neg=-1)], "its path was not checked"),
    Gate("waiting area", [T("lon_is_uplink", True), T("areasbbs_isstate", False, {"i:87"})], "an area without an uplink was not refused"),
]
WRITERS = ("msg_put_msgbody", "pkt_put_msg_hdr")


class C(GateClient):
    def sink(self, sim, f, i, name, st):
        if "bad" in st.prop:
            return
        st.prop = st.prop | {"sent"}
        GateClient.sink(self, sim, f, i, name, st)

    def call(self, sim, f, i, name, targets, st, args):
        if name == "outpkt_open":
            # the system's own heap of bad messages is no other system
            a = args[2]
            st.prop = (st.prop | {"bad", "log"}) if a[0] == a[1] == ord("b") else (st.prop - {"bad"})
            return [(st, TOPP)]
        if name in ("do_bad_msg",):
            st.prop = st.prop | {"refused"}
            return None
        if name == "fglog" or targets and any(t.name == "fglog" for t in targets):
            st.prop = st.prop | {"log"}
            return [(st, TOPP)]
        return GateClient.call(self, sim, f, i, name, targets, st, args)


TOPP = (-(1 << 70), 1 << 70, False, None)


def dedup(ctx, prog, cg):
    """the key tested is the key recorded"""
    n = 0
    for f in cg.fn.values():
        if f.unit.startswith("common/histdb") or f.unit.startswith("common/"):
            continue
        tests = [i for i in f.calls() if i.callee == "hi_test"]
        writes = [i for i in f.calls() if i.callee in ("hi_write", "hi_write_t")]
        for w in writes:
            n += 1
            if not any(t.args[0] == w.args[-1] for t in tests):
                ctx.violation("%s|key" % f.name, where(f, w.line), "the key recorded in the duplicate history is not the one that was tested")
    return n


def keys(ctx, prog, cg):
    """hi_test and hi_write_t use the same key: the string up to and including its zero byte"""
    sl = Slice(prog, cg); n = 0
    for name, param, ext in (("hi_test", 0, "dbzfetch"), ("hi_write_t", 2, "dbzstore")):
        f = cg.fn.get(name)
        if f is None:
            continue
        n += 1
        if not any(i.callee == ext for g in cg.closure(f.key) for i in cg.fn[g].calls()):
            ctx.violation("%s|store" % name, where(f, f.line), "%s() no longer uses the history database (%s)" % (name, ext))
        size = [i for i in f.calls() if i.callee == "strlen"]
        good = False
        for s in size:
            if s.args[0] == ["v", param]:
                for i in f.all():
                    if i.op in ("bin", "gep") and any(a == ["v", s.id] for a in i.d.get("a", [])):
                        c = [a[1] for a in i.d["a"] if a[0] == "i"]
                        if i.op == "bin" and i.d["k"] == "add" and c == [1]:
                            good = True
        if size and any(s.args[0] == ["v", param] for s in size) and not good:
            ctx.violation("%s|size" % name, where(f, f.line), "the key %s() uses is not the whole message id" % name)
        used = any(i.op == "store" and i.d["v"] == ["v", param] for i in f.all()) or any(["v", param] in i.args for i in f.calls() if i.callee != "strlen")
        if not used:
            ctx.violation("%s|keyptr" % name, where(f, f.line), "the key %s() uses is not the message id it was given" % name)
    return n


SCANS = [  # function, comparison functions, value when found, whether the whole list is looked at
    ("lon_search", {"node_eq": True}, True), ("is_local_addr", {"node_eq": True, "node_eq_echo": True}, True),
    ("do_check_path", {"is_local_addr": True}, True), ("areasbbs_lookup", {"stricmp": False, "strcasecmp": False, "strcmp": False}, True),
    ("lon_is_uplink", {"node_eq": True}, False), ("lon_search_echo", {"node_eq_echo": True}, True)]


def items(f, cg, prog):
    sl = Slice(prog, cg)
    return [i for i in f.all() if i.op == "phi" and i.ty == "p" and sl.head(f, ["v", i.id]) & {".next", "cf_addr_trav"}]


def acyclic(f):
    c = Conds(f)
    return not any(c.dominates(s, b) for b in range(len(f.blocks)) for s in f.succs(b))


def scans(ctx, prog, cg):
    n = 0
    for name, comps, whole in SCANS:
        f = cg.fn.get(name)
        if f is None or not any(i.callee in comps for i in f.calls()):
            continue
        for i in f.all():
            if i.op == "phi" and i.ty == "p":
                for lv in leaves(f, ["v", i.id]):
                    a = f.ins.get(lv[1]) if lv[0] == "v" else None
                    b = root(f, a.d["p"]) if a is not None and a.op == "load" else None
                    c = f.ins.get(b[0][1]) if b and b[1] and b[1][1] == "next" and b[0][0] == "x" else None
                    if c is not None and c.op == "load" and (root(f, c.d["p"])[1] or (0, 0))[1] == "next":
                        ctx.violation("%s|skip" % name, where(f, a.line), "%s() passes over an entry of the list without comparing it" % name)
        if whole and not items(f, cg, prog) and f.key not in cg.callees.get(f.key, ()) and acyclic(f):
            ctx.violation("%s|skip" % name, where(f, f.line), "%s() does not go through the list" % name)
        if whole and not items(f, cg, prog):
            continue    # the list is gone through in a way this rule does not follow
        cl = Scan(ctx, prog, cg, f, [Gate("match", [T(h, v) for h, v in comps.items()], "no entry matched")], whole)
        s = Sim(prog, cg, cl)
        s.relevant = set()
        s.run(f, frozenset(), None)
        n += 1
        ctx.sample("search %s(): %d returns" % (name, len(cl.rets)))
    return n


def run(ctx):
    ctx.rule("Every path from the start of do_echomail() to a write of the message into a packet for another system passes, for each gate, at least one branch on its permitting side; "
             "no such write follows the message being set aside; a path that neither sends nor fails logs or sets the message aside. "
             "The key recorded in the duplicate history is the key tested, and both use the whole of it.")
    prog = ctx.repo.progs.get("ftntoss")
    if prog is None:
        raise ir.Broken("ftntoss is gone")
    cg = CG(prog)
    f = cg.fn.get("do_echomail")
    if f is None:
        raise ir.Broken("do_echomail is gone")
    gates = [g for g in GATES if g.name != "read only" or any(i.callee == "ftnacl_isreadonly" for i in f.calls())]
    GATESET = frozenset(g.name for g in gates)
    cl = C(ctx, prog, cg, gates, {n: None for n in WRITERS}, extra_events={"outpkt_open"})
    s = Sim(prog, cg, cl)
    ev = (set(WRITERS) | cl.checks | {"outpkt_open", "do_bad_msg"}) - {"stricmp", "strcasecmp"}
    s.relevant = cg.reaching(ev) | {k for k in cg.fn if k in ev}
    cl.loggers = cg.reaching({"fglog"}) | {"fglog"}
    s.run(f, frozenset(), None)
    for g, line, p, v, tr in cl.rets:
        if "sent" not in p and "log" not in p and not (v[2] or v[0] > 0 or v[1] < 0) and True:
            if GATESET - p:
                ctx.violation("silent", where(g, line), "a message is dropped here without a log entry", trace(tr))
    for g in gates:
        if not cl.seen_tests[g.name] and cl.seen_sinks and not any(v[0].endswith("|" + g.name) for v in ctx.viol):
            raise ir.Broken("C14: no test seen for gate " + g.name)
    ctx.cov["abstract_states"] = s.nstates
    ctx.cov["tests_seen"] = sum(len(x) for x in cl.seen_tests.values())
    for g in gates:
        ctx.sample("gate %s: tests at %s" % (g.name, ", ".join("%s:%d" % x for x in sorted(cl.seen_tests[g.name]))))
    ctx.floor("distributing_writes", len(cl.seen_sinks), 1)
    ctx.floor("returns", len(cl.rets), 2)
    n = dedup(ctx, prog, cg) + keys(ctx, prog, cg)
    ctx.count("history_keys", n)
    ctx.count("searches", scans(ctx, prog, cg))
