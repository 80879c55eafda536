"""C04: sequence numbers are handed out once, under an exclusive lock."""
from sa.cg import CG, ZERO, TOP, NONNULL, HI, const, root
from sa.sim import Sim, Client, St, trace
from sa.ctx import where
from sa import ir

TECHNIQUE = "interprocedural path-sensitive typestate dataflow of the counter's stream over LLVM IR, with a backward slice of the number returned and the number written"
NOTE = ("Decides the protocol of sequencer() (open without emptying, lock, read, write, close) on every path including every failing operation, and that the counter files are "
        "given to nothing else. Trusts fcntl record locks. The arithmetic on the number is decided only as: what is returned and what is written is the number read plus a constant.")

READS = {"fgets": 2, "fscanf": 0, "fread": 3, "getc": 0, "fgetc": 0, "_IO_getc": 0, "getw": 0, "getline": 2}
WRITES = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "_IO_putc": 1, "fwrite": 3}
FLUSH = {"fclose": 0, "fflush": 0, "rewind": 0, "fseek": 0}
PARSE = ("atol", "atoi", "strtol", "strtoul", "atoll", "strtoll")
POS = (1, HI, True, None)
NONNEG = (0, HI, False, None)
O_TRUNC = 0o1000; O_WRACC = 3


class C(Client):
    """prop = (open, locked, read, wrote, flushed, failed)"""
    exits = False
    opaque = frozenset(["fglog", "debug"])
    events = frozenset(READS) | frozenset(WRITES) | frozenset(FLUSH) | frozenset(
        list(PARSE) + ["fopen", "fdopen", "open", "creat", "truncate", "ftruncate", "freopen", "fcntl", "flock", "lockf", "ferror", "unlink", "remove", "rename", "close",
         "read", "write", "pread", "pwrite"])

    def __init__(self, ctx):
        self.ctx = ctx
        self.rets = []; self.io = set(); self.locks = set()

    def v(self, kind, f, i, st, text):
        self.ctx.violation("sequencer|%s" % kind, where(f, i.line), text, trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        if targets:
            return None
        o, lk, rd, wr, fl, bad = st.prop

        def to(o=o, lk=lk, rd=rd, wr=wr, fl=fl, bad=bad, rv=TOP, what=None):
            return (St((o, lk, rd, wr, fl, bad), dict(st.env), (st.tr, i.line, what) if what else st.tr), rv)
        if name in ("fopen", "fdopen", "freopen"):
            m = args[1][3]
            m = m[1] if isinstance(m, tuple) and m[0] == "s" else "?"
            if name != "fdopen" and m[:1] not in ("r", "a"):
                self.v("truncate", f, i, st, "opens the counter with mode \"%s\", which empties a counter another program has just created" % m)
            return [to(o=min(o + 1, 2), rv=NONNULL), to(rv=ZERO)]
        if name == "open":
            fl2 = args[1]
            if fl2[0] != fl2[1] or fl2[0] & O_TRUNC:
                self.v("truncate", f, i, st, "opens the counter with flags that can empty it")
            return [to(rv=NONNEG), to(rv=const(-1))]
        if name in ("creat", "truncate", "ftruncate", "unlink", "remove", "rename"):
            self.v("truncate", f, i, st, "%s() empties, removes or replaces the counter" % name)
            return None
        if name in ("fcntl", "flock", "lockf"):
            if name == "fcntl":
                cmd = args[1]
                if cmd[0] != cmd[1] or cmd[0] not in (6, 7):
                    return [to()]
                b, off, _ = sim.resolve(f, i.args[2], st.env)
                typ = [v for k, v in st.env.items() if type(k) is tuple and k[0] == "C" and k[1] == b and k[2] == off]
                typ = typ[0][0] if typ and typ[0][0] == typ[0][1] else None
                ex, un = typ == 1, typ == 2
            elif name == "flock":
                ex, un = args[1][0] in (2, 6), args[1][0] == 8
            else:
                ex, un = args[1][0] in (1, 2), args[1][0] == 0
            if un:
                if wr and not fl:
                    self.v("early", f, i, st, "gives the lock back before the new number has left the stream's buffer")
                return [to(lk=False, rv=ZERO), to(lk=False, rv=const(-1))]
            self.locks.add((f.key, i.line))
            if not ex:
                self.v("shared", f, i, st, "the lock on the counter is not exclusive")
            return [to(lk=True, rv=ZERO), to(bad=True, rv=const(-1), what="lock fails")]
        if name in READS or name in ("read", "pread"):
            self.io.add((f.key, i.line))
            if not lk:
                self.v("read", f, i, st, "the number is read without holding the lock on the counter")
            fv = ZERO if name in ("fgets", "fread") else const(-1)
            ok = NONNULL if name == "fgets" else POS
            # a value, an empty counter, an error
            r = [to(rd=True, rv=ok), to(bad=True, rv=fv, what="read error")]
            if name in ("fgets", "fscanf", "fread"):
                r.append(to(rd=True, rv=fv))
            return r
        if name in PARSE:
            return [(st, (-(1 << 62), HI, False, ("count", 0)))]
        if name in WRITES or name in ("write", "pwrite"):
            if any(a[3] == ("count",) for a in args[1:]):
                self.v("stored", f, i, st, "the number written back is the number read, not incremented")
            self.io.add((f.key, i.line))
            if not lk:
                self.v("write", f, i, st, "the number is written without holding the lock on the counter")
            if not rd:
                self.v("order", f, i, st, "the number is written without having been read")
            w = True
            for a in args[1:]:
                if isinstance(a[3], tuple) and a[3][0] == "count":
                    w = a[3]
                elif a[0] == a[1] and w is True and a is args[-1]:
                    w = ("const", a[0])
            return [to(wr=w, fl=name in ("write", "pwrite"), rv=POS), to(wr=w, bad=True, rv=const(-1), what="write fails")]
        if name == "ferror":
            return [to(rv=POS if bad else ZERO)]
        if name == "close":
            return [to(rv=ZERO), to(rv=const(-1))]
        if name in FLUSH:
            if name == "fclose":
                if wr and not lk:
                    self.v("early", f, i, st, "the new number is flushed when the lock is no longer held")
                o2 = max(o - 1, 0)
                out = [to(o=o2, lk=False, fl=True, rv=ZERO)]
                if wr and not fl:
                    out.append(to(o=o2, lk=False, bad=True, rv=const(-1), what="fclose fails"))
                elif wr:
                    out.append(to(o=o2, lk=False, bad=bad, rv=const(-1)))
                else:
                    out.append(to(o=o2, lk=False, rv=const(-1)))
                return out
            if wr and not fl and name != "rewind":
                return [to(fl=True, rv=ZERO), to(bad=True, rv=const(-1), what="flush fails")]
            if wr and not fl:
                # rewind() reports nothing and clears the stream's error
                return [to(fl=True)]
            return [to(rv=ZERO)]
        return None

    def ret(self, sim, f, i, st, val):
        w = st.prop[3]
        mine = val[3] if isinstance(val[3], tuple) and val[3][0] == "count" else ("const", val[0]) if val[0] == val[1] else None
        if val[1] >= 0 and mine and isinstance(w, tuple) and mine != w:
            self.v("differs", f, i, st, "the number handed out differs from the one written back: it or another will be handed out twice")
        self.rets.append((i, st, val))
        o, lk, rd, wr, fl, bad = st.prop
        if val[1] < 0:
            return
        if val[3] == ("count",):
            self.v("increment", f, i, st, "the number handed out is the number read, not incremented: it was handed out before")
        if bad:
            self.v("failed", f, i, st, "a number is handed out although the counter could not be locked, read or written")
        elif not (rd and wr):
            self.v("unwritten", f, i, st, "a number is handed out that was not read from the counter and written back")
        elif o:
            self.v("open", f, i, st, "a number is handed out while the counter's stream is still open (its write may be lost)")


def leaves(prog, f, v, seen, out, bump=False):
    """(function, parse call or constant, incremented?) the value can come from"""
    if v[0] == "i":
        out.add(("const", v[1], bump)); return
    if v[0] != "v":
        out.add(("?", str(v), bump)); return
    k = (f.key, v[1], bump)
    if k in seen:
        return
    seen.add(k)
    if v[1] < f.nparams:
        for g in prog.funcs():
            for i in g.calls():
                if i.callee and prog.func(g.unit, i.callee) is f and len(i.args) > v[1]:
                    leaves(prog, g, i.args[v[1]], seen, out, bump)
        return
    i = f.ins[v[1]]
    if i.op == "phi":
        for x, _ in i.d["in"]:
            leaves(prog, f, x, seen, out, bump)
    elif i.op == "cast":
        leaves(prog, f, i.d["a"][0], seen, out, bump)
    elif i.op == "select":
        leaves(prog, f, i.d["a"][1], seen, out, bump); leaves(prog, f, i.d["a"][2], seen, out, bump)
    elif i.op == "bin":
        a, b = i.d["a"]
        if i.d.get("k") in ("add", None) and b[0] == "i" and b[1] > 0:
            leaves(prog, f, a, seen, out, True)
        else:
            leaves(prog, f, a, seen, out, bump); leaves(prog, f, b, seen, out, bump)
    elif i.op == "call":
        g = prog.func(f.unit, i.callee) if i.callee else None
        if g is None:
            out.add(("call", i.callee, bump))
        else:
            for bl in g.blocks:
                t = bl[-1]
                if t.op == "ret" and t.d.get("v"):
                    leaves(prog, g, t.d["v"], seen, out, bump)
    elif i.op == "load":
        # a local filled by sscanf or fscanf, or a variable: look at its stores
        b = i.d["p"]
        st = [j for j in f.all() if j.op == "store" and j.d["p"] == b]
        for j in st:
            leaves(prog, f, j.d["v"], seen, out, bump)
        if any(j.op == "call" and j.callee in ("sscanf", "fscanf", "__isoc99_sscanf", "__isoc99_fscanf", "__isoc23_sscanf", "__isoc23_fscanf") and b in j.args for j in f.all()):
            out.add(("call", "sscanf", bump))
        elif not st:
            out.add(("?", "load", bump))


def run(ctx):
    ctx.rule("On every path through sequencer(), with every operation on the counter also failing: the counter is never opened in a way that empties it; it is read and written only "
             "while an exclusive record lock is held; the lock is not given back before the new number has been flushed; a number is returned only if lock, read, write and close succeeded. "
             "What is returned and written is the number read, incremented. The names of counter files are passed to sequencer() only.")
    ctx.assumption("record locks set by fcntl exclude each other and end when the file is closed; a stream's buffer is written by fclose, fflush, fseek and rewind")
    progs = sorted(ctx.repo.progs.items())
    prog = next((p for n, p in progs if n == "rfc2ftn"), progs[0][1])
    cg = CG(prog)
    f = prog.func(None, "sequencer")
    if f is None:
        raise ir.Broken("no sequencer()")
    cl = C(ctx)
    s = Sim(prog, cg, cl)
    s.run(f, (0, False, False, False, False, False))
    ctx.floor("returns", len(cl.rets), 1)
    ctx.floor("stream_operations", len(cl.io), 2)
    ctx.floor("lock_operations", len(cl.locks), 1)
    ctx.cov["abstract_states"] = s.nstates
    # ---- the number
    out = set()
    for bl in f.blocks:
        t = bl[-1]
        if t.op == "ret" and t.d.get("v"):
            leaves(prog, f, t.d["v"], set(), out)
    parse = [x for x in out if x[0] == "call" and x[1] not in (None,)]
    ctx.count("sources_of_the_number", len(out))
    if not any(x[2] for x in parse):
        ctx.violation("sequencer|increment", where(f, f.line), "the number returned is not the number read plus one: the same number is handed out again")
    # ---- nothing else touches the counters
    n = 0
    for pn, p in progs:
        for g in p.funcs():
            for i in g.calls():
                if not (i.callee and i.callee.startswith("cf_p_seq_")):
                    continue
                n += 1
                for j in g.all():
                    if j.op == "call" and ["v", i.id] in j.args and j.callee not in ("sequencer", "sequencer_nx") and g.unit != f.unit:
                        if not (j.callee in ("fglog", "debug", "printf", "fprintf") or p.func(g.unit, j.callee or "") is f):
                            ctx.violation("other|%s|%s" % (g.name, j.callee), where(g, j.line), "the counter file is passed to %s(), outside the sequencer's lock" % j.callee)
    ctx.floor("uses_of_counter_names", n, 5)
