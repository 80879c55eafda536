"""C05: a file is renamed to its final name only when completely and successfully written."""
from sa.cg import CG, ZERO, TOP, HI, LO, NONNULL, const, root
from sa.sim import Sim, Client, St, trace
from sa.fail import POS, NEG1
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate dataflow (stream state at rename), naming rule on the objects opened and renamed"
NOTE = ("Covers packets, outbound packets, mails/news, the area list and the history files. Every write, flush, close, database sync and rename may fail independently. "
        "A crash between two renames of areasbbs_rewrite is not covered.")

# publishers: public entry (program to analyse it in, function); streams of the caller are open on entry
PUBLISH = [("ftntoss", "pkt_close"), ("ftntoss", "outpkt_close"), ("ftn2rfc", "mail_close"), ("ftnaf", "areasbbs_rewrite"),
           ("ftnexpire", "main")]
WRITE = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "_IO_putc": 1, "fwrite": 3, "putw": 1}
READ = {"fgets": 2, "fread": 3, "fgetc": 0, "getc": 0, "_IO_getc": 0}
DB = {"dbzsync": (ZERO, [NEG1]), "dbmclose": (ZERO, [NEG1]), "dbzstore": (ZERO, [NEG1]), "dbzagain": (ZERO, [NEG1])}
STOP = {"fglog", "debug", "log_program", "lock_program", "unlock_program", "cf_read_config_file", "passwd_init", "exit_free", "cf_get_string", "hosts_init", "sequencer"}

NW, OC, OD, CK, CB = "just opened", "open", "write failed", "closed", "close failed"


class C(Client):
    """prop = (state of the stream being written, read error pending, something failed for good, must report)"""
    exits = True
    events = frozenset(list(WRITE) + list(READ) + list(DB) + ["fopen", "fclose", "ferror", "fflush", "rename"]) | frozenset(STOP)

    def __init__(self, ctx, name):
        self.ctx = ctx; self.name = name; self.renames = set(); self.closes = set(); self.rets = 0; self.writes = set()

    def call(self, sim, f, i, name, targets, st, args):
        if name in STOP:
            r = sim.cg.retval(targets[0].key) if targets else TOP
            return [(st, r)]
        s, rd, bad, rep = st.prop

        def to(s2=s, rd2=rd, bad2=bad, rep2=rep, rv=TOP, what=None):
            return (St((s2, rd2, bad2, rep2), dict(st.env), (st.tr, i.line, what) if what else st.tr), rv)
        if name in DB and targets:
            return [to(rv=ZERO), to(bad2=True, rep2=True, rv=NEG1, what=name + " fails")]
        if targets:
            return None
        if name == "fopen":
            m = args[1][3]
            mode = m[1] if isinstance(m, tuple) and m[0] == "s" else "?"
            if mode.startswith("r") and "+" not in mode:
                return [to(rv=(1, HI, True, "rstream")), to(rv=ZERO, what="open fails")]
            return [to(NW, rv=(1, HI, True, None)), to(rv=ZERO, what="open fails")]
        k = WRITE.get(name, READ.get(name, 0))
        if name in ("fclose", "ferror", "fflush") or name in WRITE or name in READ:
            a = i.args[k] if k < len(i.args) else None
            if a is not None:
                b, _ = root(f, a)
                if a[0] == "v" and a[1] >= f.nparams and f.ins[a[1]].op == "load":
                    b, _ = root(f, f.ins[a[1]].d["p"])
                if b[0] == "g" and b[1] in ("stderr", "stdout", "stdin"):
                    return None
            rs = k < len(args) and args[k][3] == "rstream"
        if name in READ:
            if not rs:
                return None
            out = [to()]
            if not rd:
                out.append(to(rd2=True, what="read error"))
            return [(x, TOP) for x, _ in out]
        if name in WRITE:
            self.writes.add((f.key, i.line))
            if s in (NW, OC, CK, CB):
                return [to(OC, rv=TOP), to(OD, rv=TOP, what="write fails")]
            return [to(rv=TOP)]
        if name == "ferror":
            if rs:
                return [to(rv=POS if rd else ZERO, rep2=rep or rd)]
            if s in (CK, CB):        # another stream
                return [to(OC, rv=ZERO), to(OD, rep2=True, rv=POS, what="write error")]
            return [to(rv=POS if s == OD else ZERO, rep2=rep or s == OD)]
        if name == "fflush":
            if s == OD:
                return [to(rv=NEG1), to(rv=ZERO)]
            return [to(OC, rv=ZERO), to(OD, rep2=True, rv=NEG1, what="flush fails")]
        if name == "fclose":
            if rs:
                return [to(rv=ZERO), to(rv=NEG1)]
            self.closes.add((f.key, i.line))
            if s == NW:              # nothing written: nothing to lose
                return [to(CK, rv=ZERO), to(CK, rv=NEG1)]
            if s == OD:
                return [to(CB, rv=ZERO, rep2=True), to(CB, rv=NEG1, rep2=True, what="close fails")]
            out = [to(CK, rv=ZERO), to(CB, rep2=True, rv=NEG1, what="close fails")]
            if s in (CK, CB):
                out.append(to(CB, rep2=True, rv=ZERO, what="earlier write failed"))
            return out
        if name == "rename":
            self.renames.add((f.key, i.line))
            if not (s == CK and not bad and not rd):
                self.ctx.violation("%s|rename" % self.name, where(f, i.line), "%s: the file is renamed to its final name although %s" % (self.name, (
                    "the database was not written completely" if bad else "reading the previous version failed" if rd and s == CK else
                    {NW: "its stream is still open", OC: "its stream is still open", OD: "a write failed", CB: "a write or closing the stream failed"}.get(s, s))), trace(st.tr))
                return []
            self.nren = True
            return [to(rv=ZERO), to(rep2=rep or self.name != "areasbbs_rewrite", rv=NEG1, what="rename fails")]
        return None

    def exit(self, sim, f, i, st, code):
        self.done(f, i, st, code)

    def ret(self, sim, f, i, st, val):
        self.done(f, i, st, val)

    def done(self, f, i, st, val):
        self.rets += 1
        s, rd, bad, rep = st.prop
        if rep and not val[2] and f.ret != "v" and self.report:
            self.ctx.violation("%s|unreported" % self.name, where(f, i.line), "%s: writing or closing failed, but %s returns success" % (self.name, f.name), trace(st.tr))
        if f.ret == "v":
            self.ctx.violation("%s|void" % self.name, where(f, i.line), "%s cannot report a failed write to its caller" % self.name)
    report = True


def name_object(f, v):
    """object a file name is kept in: ('g',unit-key) or ('f',struct,field)"""
    if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "load":
        b, sf = root(f, f.ins[v[1]].d["p"])
        if sf:
            return ("f",) + tuple(sf)
        if b[0] == "g":
            return b
        return None
    b, sf = root(f, v)
    if b[0] == "g":
        return b
    if b[0] == "p" and sf is None:
        return b
    return None


def expand(prog, f, o, depth=0):
    """resolve a parameter to the objects its callers pass"""
    if o is None:
        return set()
    if o[0] != "p":
        return {o}
    out = set()
    if depth > 3:
        return out
    for u in prog.units:
        for h in u.funcs.values():
            if h.decl:
                continue
            for j in h.calls():
                if j.callee == f.name and prog.func(h.unit, f.name) is f and o[1] < len(j.args):
                    out |= expand(prog, h, name_object(h, j.args[o[1]]), depth + 1)
    return out


def tails(prog, f, blk, i, v):
    """constant texts a name ends with, for the name just built in block blk before instruction i"""
    # the last call before i writing to the same object
    last = None
    vo = root(f, v)[0]
    for j in f.blocks[blk]:
        if j is i:
            break
        if j.op == "call" and j.args and root(f, j.args[0])[0] == vo:
            last = j
    return const_tail(prog, f, last) if last is not None else None


def const_tail(prog, f, j):
    t = None
    for a in j.args[1:]:
        if a[0] == "g":
            g = prog.glob(f.unit, a[1])
            s = g.string() if g else None
            if s is not None:
                t = s
    if t is None:
        return None
    return t.rsplit("/", 1)[-1]


def naming(ctx, prog):
    """rename(S,D): D is never opened for writing in that unit; names put into S end differently from those put into D"""
    pairs = 0
    units = {u.name: u for u in prog.units}
    for u in prog.units:
        opened = {}; pr = []
        for f in u.funcs.values():
            if f.decl:
                continue
            for i in f.calls():
                if i.callee == "rename":
                    for s in expand(prog, f, name_object(f, i.args[0])):
                        for d in expand(prog, f, name_object(f, i.args[1])):
                            # same call chain pairs m_tmp with m_name: keep those opened for writing in this unit
                            pr.append((s, d, f, i))
                elif i.callee in ("fopen", "outpkt_fopen", "fopen_expand_name") and len(i.args) > 1:
                    m = i.args[1]
                    g = prog.glob(f.unit, m[1]) if m[0] == "g" else None
                    md = g.string() if g else None
                    if md is None or md[0] in "wa":
                        for o in expand(prog, f, name_object(f, i.args[0])):
                            opened[o] = (f, i)
        srcs = {p[0] for p in pr}
        for s, d, f, i in pr:
            if s not in opened and d not in opened:
                continue
            if d in srcs:
                continue
            pairs += 1
            if d in opened:
                h, j = opened[d]
                ctx.violation("%s|final name written" % u.name, where(h, j.line),
                              "the file is written under its final name (%s), not under the temporary one (%s)" % (d[-1], s[-1]))
        # texts
        text = {}
        for f in u.funcs.values():
            if f.decl:
                continue
            for b, bl in enumerate(f.blocks):
                for i in bl:
                    if i.op == "call" and i.callee and i.args and i.callee not in ("fopen", "rename", "unlink"):
                        b0, sf = root(f, i.args[0])
                        if b0[0] == "g" and b0 in srcs | {p[1] for p in pr}:
                            t = const_tail(prog, f, i)
                            if t:
                                text.setdefault(b0, set()).add((t, i.line, f))
                    elif i.op == "store":
                        sf = root(f, i.d["p"])[1]
                        o = ("f",) + tuple(sf) if sf else None
                        if o and o in srcs | {p[1] for p in pr} and i.d["v"][0] == "v" and i.d["v"][1] >= f.nparams:
                            c = f.ins[i.d["v"][1]]
                            if c.op == "call" and c.args:
                                t = tails(prog, f, b, i, c.args[0])
                                if t:
                                    text.setdefault(o, set()).add((t, i.line, f))
        for s, d, f, i in pr:
            if s in opened and s in text and d in text and s != d:
                same = {x[0] for x in text[s]} & {x[0] for x in text[d]}
                ctx.sample("%s: %s (%s) -> %s (%s)" % (u.name, s[-1], "/".join(x[0] for x in text[s]), d[-1], "/".join(x[0] for x in text[d])))
                if same and not cross(s, d):
                    x = sorted(text[s], key=lambda t: t[1])[0]
                    ctx.violation("%s|same name" % u.name, where(x[2], x[1]), "the temporary name ends in %s like the final one" % sorted(same)[0])
    return pairs


def cross(s, d):
    """m_tmp/n_name: pairs made up by a helper's two parameters, not by one call"""
    return s[0] == "g" and d[0] == "g" and s[1][:2] != d[1][:2] and s[1][1:2] == "_" and d[1][1:2] == "_"


def run(ctx):
    ctx.rule("On every path to a rename that publishes a file, no write, flush or database operation failed, ferror was seen clean and fclose succeeded; "
             "a publisher that saw a failure returns failure; the final name is never opened for writing and temporary names end differently.")
    nren = nclose = nst = nret = 0
    n = 0
    for p, name in PUBLISH:
        prog = ctx.repo.progs.get(p)
        if prog is None:
            raise ir.Broken("program %s is gone" % p)
        cg = CG(prog)
        f = cg.fn.get(name)
        if f is None:
            continue
        n += 1
        cl = C(ctx, name if name != "main" else p)
        s = Sim(prog, cg, cl)
        starts = [(OC, False, False, False), (OD, False, False, False)] if name in ("pkt_close", "outpkt_close", "mail_close") else [(NW, False, False, False)]
        for s0 in starts:
            s.run(f, s0)
        nren += len(cl.renames); nclose += len(cl.closes); nst += s.nstates; nret += cl.rets
        ctx.sample("%s: %d closes, %d writes, %d renames, %d states" % (cl.name, len(cl.closes), len(cl.writes), len(cl.renames), s.nstates))
        if not cl.renames:
            raise ir.Broken("C05: no rename reached in " + name)
    ctx.floor("publishers", n, 4)
    ctx.floor("publishing_renames", nren, 5)
    ctx.floor("closes", nclose, 4)
    pairs = 0
    for p in ("ftntoss", "ftn2rfc", "ftnexpire"):
        pairs += naming(ctx, ctx.repo.progs[p])
    ctx.cov["name_pairs"] = pairs
    ctx.cov["abstract_states"] = nst
    ctx.cov["ends_checked"] = nret
