"""C26: the gateway lets a message through only after its access checks."""
from sa.cg import CG, root
from sa.sim import Sim, trace
from sa.gates import GateClient, Gate, T, R, Slice, Scan
from sa.conds import Conds
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive must-pass dataflow over LLVM IR (access tests recognised by what their condition is computed from), plus dominance and provenance rules on the access-list functions"
NOTE = ("Starts are unpack() of ftn2rfc and snd_mail() of rfc2ftn. Which tests a configuration switches off is part of the rule. "
        "The pattern matcher wildmat() is taken as given; what is passed to it as text and as pattern is checked.")

NEWS = T("news_msg", True)
MAIL = T("news_msg", False)

F2R = [
    Gate("access list", [T("ftnacl_lookup", False)], "the access list was not asked about the sender, or refused it"),
    Gate("registered host", [NEWS, T("g:ignore_hosts", True), T("cf_get_string", False, {"s:HostsRestricted"}), T("get_to", False), T("addr_is_domain", True), T("hosts_lookup", True)],
         "the sending system was not found registered although HostsRestricted asks for it"),
    Gate("host not down", [NEWS, T("g:ignore_hosts", True), T("cf_get_string", False, {"s:HostsRestricted"}), T("get_to", False), T("addr_is_domain", True), T(".flags", False, {"hosts_lookup", "i:2"})],
         "the sending system was not checked against being marked down"),
    Gate("insecure", [NEWS, T("g:t_flag", False), T("get_to", False)], "insecure mail with a To: line was not refused"),
    Gate("address in to", [NEWS, T("g:no_address_in_to_field", False), T("strchr", False, {"i:33"}), T("strpbrk", False)], "an address in the To field was not refused although NoAddressInToField asks for it"),
    Gate("known area", [MAIL, T(".group", True), T("g:ftn_junk_group", True)], "an area without newsgroup was not refused although there is no FTNJunkGroup"),
    Gate("other gateway", [MAIL, T(".flags", False, {"i:4"}), T("get_from", False)], "a message from another gateway was not refused although the area asks for it"),
    Gate("split", [T("g:kill_split", False), T("kludge_get", False, {"s:SPLIT"})], "a split message was not refused although KillSplit asks for it"),
    Gate("message id", [T("s_msgid_convert_origid", True), T("kludge_get", True, {"s:MSGID"}), T("kludge_get", True, {"s:ORIGID"}), T("g:no_messages_without_msgid", False)],
         "a message without message id was not refused although NoMessagesWithoutMSGID asks for it"),
]
FIELDS = ("name_from", "name_to", "subject", "kludge", "rfc", "via", "seenby", "path", "tear", "origin")
CLEAN = [Gate("breaks:" + x, [], "line breaks in the message's %s, which goes into the header, were not removed" % x) for x in FIELDS]
MAILMODE = T("g:newsmode", False)
R2F = [
    Gate("access list", [T("acl_ngrp_lookup", True)], "the access list did not allow this sender"),
    Gate("limit", [R({".limitsize", "areas_get_limitmsgsize"}, "sle", 0), R({"p:1"}, "sle", {".limitsize", "areas_get_limitmsgsize"})], "its size was not checked against the limit"),
    Gate("control", [MAILMODE, T("header_get", False, {"s:Control"})], "a control message was not left out"),
    Gate("cross-posting", [MAILMODE, T("g:xpost_flag", False), T("strchr", False, {"i:44"}), T(".flags", False, {"i:2"})], "a cross-posted article was not refused although the area asks for it"),
    Gate("non-local cross-posting", [MAILMODE, T("g:xpost_flag", False), T("strchr", False, {"i:44"}), T(".flags", False, {"i:1"}), T("addr_is_local_xpost", True)],
         "a cross-posted article from elsewhere was not refused although the area asks for it"),
    Gate("downlinks", [MAILMODE, T("g:check_areas_bbs", False), R({"check_downlinks"}, "sgt", 0)], "an area without downlinks was not left out although CheckAreasBBS asks for it"),
]


class C(GateClient):
    keep = frozenset()
    cleaners = ()

    def call(self, sim, f, i, name, targets, st, args):
        if name == "mail_receiver":
            st.prop = st.prop - {"refused"}    # the next recipient
        if targets and any(t.key in self.cleaners for t in targets):
            for a in i.args:
                for _ in range(2):
                    b, sf = root(f, a)
                    if sf and sf[1] in FIELDS:
                        st.prop = st.prop | {"breaks:" + sf[1]}
                    x = f.ins.get(b[1]) if b[0] == "x" else None
                    if x is None or x.op != "load":
                        break
                    a = x.d["p"]
        if name in ("msg_parse_origin", "msg_parse_msgid", "node_invalid"):
            st.prop = st.prop | {"orig"}
        if name == "ftnacl_lookup" and args[2][2] and "orig" not in st.prop and (root(f, i.args[0])[1] or ("", ""))[1] == "node_orig":
            self.ctx.violation("acl|origin", where(f, i.line), "the access list is asked about the originator of the message before, before that of this message is known", trace(st.tr))
        if name == "ftnacl_lookup" and len(i.args) == 3:
            fl = lambda a: (root(f, a)[1] or ("", ""))[1]
            null = i.args[2][0] in ("n", "z") or i.args[2] == ["i", 0]
            for a, want in ((0, {"node_from", "node_orig"} if null else {"node_orig"}),) + (((1, {"node_to"}),) if null else ()):
                got = fl(i.args[a])
                if got and got.startswith("node_") and got not in want:
                    self.ctx.violation("acl|argument|%s" % got, where(f, i.line), "the access list is asked about the message's %s in place of its %s" % (got, " or ".join(sorted(want))), trace(st.tr))
        old = st.prop
        out = GateClient.call(self, sim, f, i, name, targets, st, args)
        if name in self.resets:
            st.prop = st.prop | (old & self.keep)
        return out


def cleaners(cg):
    """functions that replace every CR and LF in a string, and functions that apply one of those to each line of a list"""
    out = set()
    for f in cg.fn.values():
        cmp_ = set()
        for i in f.all():
            if i.op == "icmp":
                for a in i.d["a"]:
                    if a[0] == "i":
                        cmp_.add(a[1] if i.d["pr"] in ("eq", "ne") else -a[1])
            elif i.op == "switch":
                cmp_ |= {c[0] for c in i.d["cs"]}
        if not ({10, 13} <= cmp_ or -32 in cmp_ or -31 in cmp_):
            continue
        c = Conds(f)
        for i in f.all():
            if i.op == "store" and i.d.get("sz") == 1 and i.d["v"][0] == "i" and 32 <= i.d["v"][1] < 127 and inloop(f, i.blk):
                base = root(f, i.d["p"])[0]
                if base[0] in ("p", "x"):
                    out.add(f.key)
    for f in cg.fn.values():
        for i in f.calls():
            if any(t.key in out for t in cg.targets(f, i)) and i.args and inloop(f, i.blk):
                x = f.ins.get(i.args[0][1]) if i.args[0][0] == "v" else None
                if x is not None and x.op == "load" and (root(f, x.d["p"])[1] or ("", ""))[1] == "line" and f.nparams <= 2:
                    out.add(f.key)
    return out


def inloop(f, b):
    seen = set(); work = list(f.succs(b))
    while work:
        x = work.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x); work += f.succs(x)
    return False


def side(ctx, prog, cg, pid, rootname, gates, sinks, resets, refuse, extra, keep=()):
    f = next((g for g in cg.fn.values() if g.name == rootname), cg.fn.get("main"))
    cl = C(ctx, prog, cg, gates, {n: None for n in sinks}, resets, refuse, extra)
    cl.keep = frozenset(keep)
    if rootname == "unpack":
        cl.cleaners = cleaners(cg)
        ctx.count("line_break_removers", len(cl.cleaners))
    s = Sim(prog, cg, cl)
    ev = (set(sinks) | set(resets) | set(refuse) | cl.checks) - {"strchr", "cf_get_string", "kludge_get", "header_get", "strpbrk", "get_to", "get_from"}
    s.relevant = cg.reaching(ev) | {k for k in cg.fn if k in ev}
    s.run(f, frozenset(), None)
    for g in gates:
        if g.tests and not cl.seen_tests[g.name] and cl.seen_sinks and not any(v[0].endswith("|" + g.name) for v in ctx.viol):
            raise ir.Broken("C26: no test seen for gate " + g.name)
        ctx.sample("%s: gate %s: tests at %s" % (pid, g.name, ", ".join("%s:%d" % x for x in sorted(cl.seen_tests[g.name]))))
    ctx.cov["abstract_states_" + pid] = s.nstates
    ctx.count("tests_seen", sum(len(x) for x in cl.seen_tests.values()))
    ctx.floor("converting_writes_" + pid, len(cl.seen_sinks), 1)


class Lines(GateClient):
    """text lines that the other network would take for control lines are changed before they are written"""
    WORDS = {"--- ": "a tear line", " * Origin": "an origin line", "SEEN-BY": "a SEEN-BY line"}

    def branch(self, sim, f, t, val, st):
        k = (f.key, t.blk, val)
        if k not in self.cache:
            out = set()
            for g, v, op, c in self.sl.atoms(f, t.d["c"], val):
                if op in ("eq", "ne") and c == 0 and self.sl.head(g, v) & {"strncmp", "strncasecmp", "strnicmp", "memcmp", "strstr"}:
                    for s in self.sl.ingr(g, v):
                        for w in self.WORDS:
                            if s.startswith("s:") and s[2:].startswith(w.rstrip()):
                                out.add(("is:" if op == "eq" else "not:") + w)
            self.cache[k] = frozenset(out)
        return st.prop | self.cache[k] if self.cache[k] else st.prop

    def store(self, sim, f, i, st, addr, val):
        if i.d.get("sz") == 1 or i.d.get("st") == "i8" or val[0] == val[1] == 43:
            is_ = {x for x in st.prop if x.startswith("is:")}
            if is_ and val[0] == val[1] and val[0] not in (0, 13, 10):
                st.prop = st.prop - is_ | {"not:" + x[3:] for x in is_} | {"changed"}

    def call(self, sim, f, i, name, targets, st, args):
        if name == "pkt_put_line":
            self.seen_sinks.add((f.key, i.line))
            for w, text in self.WORDS.items():
                if "is:" + w in st.prop or "not:" + w not in st.prop and "changed" not in st.prop:
                    self.ctx.violation("line|%s" % w.strip(), where(f, i.line), "a line of the message that reads like %s is written into the packet as it is" % text, trace(st.tr))
            st.prop = frozenset()
            return [(st, sim.cg.retval(targets[0].key) if targets else (0, 0, False, None))]
        if name in ("snprintf", "str_copy", "strcpy", "str_printf", "strncpy"):
            st.prop = frozenset()


def lines(ctx, prog, cg):
    n = 0
    for f in list(cg.fn.values()):
        if any(i.callee == "pkt_put_line" for i in f.calls()):
            cl = Lines(ctx, prog, cg, [], {}, extra_events=("pkt_put_line",))
            s = Sim(prog, cg, cl); s.relevant = {k for k in cg.fn if k == "pkt_put_line"}
            s.run(f, frozenset(), None)
            n += len(cl.seen_sinks)
    return n


def lists(ctx, prog, cg):
    """the access list itself: what answers allowed or refused"""
    sl = Slice(prog, cg); n = 0
    PAT = {".email_pat", ".ngrp_pat", "g:ngrp_pat_list", "g:pna_notify_list"}
    for f in cg.fn.values():
        for i in f.calls():
            if i.callee in ("wildmat", "wildmatch") and len(i.args) > 1:
                n += 1
                bad = sl.ingr(f, i.args[0]) & PAT
                if bad:
                    ctx.violation("%s|swapped" % f.name, where(f, i.line), "the access list's pattern is passed to %s() as the text, not as the pattern" % i.callee)
            if i.callee in ("strtok", "xstrtok", "strsep") and i.args and i.args[0][0] == "v":
                b, sf = root(f, i.args[0])
                x = f.ins.get(b[1]) if b[0] == "x" else None
                if x is not None and x.op == "load" and (root(f, x.d["p"])[1] or ("", ""))[1] in ("email_pat", "ngrp_pat"):
                    ctx.violation("%s|consumed" % f.name, where(f, i.line), "%s() cuts up the access list's own pattern: later messages are checked against what is left of it" % i.callee)
    return n


def lookup(ctx, prog, cg):
    """an access-list entry counts only when direction, sender and kind match"""
    n = 0
    f = cg.fn.get("ftnacl_lookup")
    if f is not None and any(i.callee in ("wildmat", "wildmatch") for i in f.calls()):
        gates = [Gate("direction", [T(".gate", True, neg=None)], ""), Gate("sender", [T("wildmat", True, {".email_pat"}), T("wildmatch", True, {".email_pat"})], ""),
                 Gate("kind", [R({".type"}, "eq", {"i:101", "i:110"})], ""), Gate("target", [T("wildmat", True, {".ngrp_pat"}), T("wildmatch", True, {".ngrp_pat"})], "")]
        cl = Scan(ctx, prog, cg, f, gates, False)
        s = Sim(prog, cg, cl); s.relevant = set()
        s.run(f, frozenset(), None)
        n += 1
    for f in [g for g in cg.fn.values() if g.name == "acl_lookup" and any(i.callee in ("wildmat", "wildmatch") for i in g.calls())]:
        c = Conds(f); sl = Slice(prog, cg)
        for i in f.all():
            if i.op == "load" and (root(f, i.d["p"])[1] or ("", ""))[1] == "ngrp_pat":
                n += 1
                have = set()
                for v, op, k in c.at(i.blk):
                    hd = sl.head(f, v) if isinstance(v, (list, tuple)) else set()
                    if op == "ne" and k == 0 and hd & {"wildmat", "wildmatch"}:
                        have.add("sender")
                    if op in ("eq",) and ".gate" in hd:
                        have.add("direction")
                    if ".type" in sl.ingr(f, v) and op in ("eq", "pr:eq", "npr:ne"):
                        have.add("kind")
                    if op in ("pr:eq", "npr:ne") and isinstance(k, (list, tuple)) and ".type" in sl.ingr(f, k):
                        have.add("kind")
                for w in ("sender", "direction", "kind"):
                    if w not in have:
                        ctx.violation("acl_lookup|%s" % w, where(f, i.line), "an entry of the access list is used without its %s having matched" % w)
    f = cg.fn.get("list_match")
    if f is not None:
        c = Conds(f); sl = Slice(prog, cg)
        for i in f.all():
            if i.op != "phi":
                continue
            for v, b in i.d["in"]:
                if v[0] != "i" or b == 0 or i.ty == "i1":
                    continue
                at = list(c.at(b)); c.edge(b, i.blk, at)
                wm = [op for v2, op, k in at if k == 0 and sl.head(f, v2) & {"wildmat", "wildmatch"}]
                if not wm and not v[1]:
                    continue
                n += 1
                neg = [op for v2, op, k in at if k == 33]
                if "ne" not in wm:
                    ctx.violation("list_match|unmatched", where(f, f.line), "list_match() takes an entry as allowing or refusing although its pattern did not match")
                if neg and ("eq" in neg) == bool(v[1]) or not neg:
                    ctx.violation("list_match|sign", where(f, f.line), "list_match() takes a pattern with ! for an allowing one, or one without it for a refusing one")
    return n


class Fresh(GateClient):
    def store(self, sim, f, i, st, addr, val):
        if addr[0][0] == "G" and addr[0][1].endswith("ngrp_pat_list"):
            st.prop = st.prop | {"set"}


def fresh(ctx, prog, cg):
    """the patterns in force are those of the sender in question, not of the one before"""
    f = cg.fn.get("acl_ngrp")
    if f is None:
        return 0
    cl = Fresh(ctx, prog, cg, [], {})
    s = Sim(prog, cg, cl)
    s.relevant = set(cg.closure(f.key))
    s.run(f, frozenset(), None)
    for g, line, p, v, tr in cl.rets:
        if g is f and "set" not in p:
            ctx.violation("acl_ngrp|stale", where(g, line), "the patterns of an earlier sender stay in force for a sender the access list does not know", trace(tr))
    return len(cl.rets)


def run(ctx):
    ctx.rule("Every path from taking up a message to writing its conversion passes, for each gate, at least one branch on its permitting side; no such write follows its refusal. "
             "An access-list entry counts only when direction, sender, kind and target matched; patterns are passed as patterns, are not cut up, and are those of the sender in question.")
    p1 = ctx.repo.progs.get("ftn2rfc"); p2 = ctx.repo.progs.get("rfc2ftn")
    if p1 is None or p2 is None:
        raise ir.Broken("ftn2rfc or rfc2ftn is gone")
    cg1, cg2 = CG(p1), CG(p2)
    side(ctx, p1, cg1, "ftn2rfc", "unpack", F2R + CLEAN, ("tl_print",), ("pkt_get_msg_hdr",), ("bounce_mail",), ("msg_parse_origin", "msg_parse_msgid", "node_invalid"))
    side(ctx, p2, cg2, "rfc2ftn", "snd_mail", R2F, ("pkt_put_msg_hdr",), ("areas_lookup",), ("bounce_mail", "sendback"), ("mail_receiver",), keep=("control", "cross-posting"))
    ctx.count("line_writes", lines(ctx, p2, cg2))
    n = lists(ctx, p1, cg1) + lists(ctx, p2, cg2)
    ctx.floor("pattern_matches", n, 2)
    ctx.count("list_obligations", lookup(ctx, p1, cg1) + lookup(ctx, p2, cg2) + fresh(ctx, p2, cg2))
