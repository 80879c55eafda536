"""C23: every packet written is well formed."""
from sa.cg import CG, TOP, root
from sa.sim import Sim, Client, trace
from sa.gates import Slice, truth
from sa.ctx import where
from sa import ir
import re

TECHNIQUE = "interprocedural path-sensitive typestate analysis over LLVM IR (message header, body, zero byte, packet terminator), from the entry point of every program that writes packets and for the packet open and close functions"
NOTE = ("What pkt_put_msg_hdr() and pkt_put_hdr() write themselves is C18. Paths on which a write or read already reported an error are left to C01 and C04. "
        "The contents of packets the program copies byte by byte from elsewhere are not judged.")

MSG = "pkt_put_msg_hdr"
OPENERS = ("pkt_open", "outpkt_open")
CLOSERS = ("pkt_close", "outpkt_close")
HDRS = ("pkt_put_hdr", "pkt_put_hdr_raw")
PUTC = ("putc", "fputc", "_IO_putc", "putc_unlocked", "fputc_unlocked")
RAWW = ("fwrite", "fwrite_unlocked")
MODE = re.compile(r"^[rwa]\+?[bt]?\+?$")


class W(Client):
    maxenv = 2

    def __init__(self, ctx, prog, cg, mode):
        self.ctx = ctx; self.prog = prog; self.cg = cg; self.mode = mode
        self.sl = Slice(prog, cg)
        self.events = frozenset((MSG, "pkt_put_int16", "fclose", "rename", "fseek", "pkt_get_int16", "fprintf") + OPENERS + CLOSERS + HDRS + PUTC + RAWW)
        self.opaque = frozenset((MSG, "pkt_put_int16", "pkt_put_date", "pkt_put_string", "pkt_put_string_padded") + HDRS + ((OPENERS + CLOSERS) if mode == "msg" else ()))
        self.sites = {k: set() for k in ("headers", "ends", "terminators", "bytes", "opens", "closes")}
        self.cache = {}; self.stores = None

    def bad(self, f, i, st, key, text):
        if "err" not in st.prop:
            self.ctx.violation("%s|%s" % (key, f.name), where(f, i.line), text, trace(st.tr))

    def store_of(self, f, v):
        b, sf = root(f, v)
        if b[0] == "x":
            x = f.ins.get(b[1])
            if x is not None and x.op == "load":
                b2, sf2 = root(f, x.d["p"])
                return ("f",) + tuple(sf2) if sf2 else ("g", b2[1]) if b2[0] == "g" else (f.key, b2)
        return (f.key, b)

    def packet(self, f, v):
        if self.stores is None:
            self.stores = set()
            for g in self.cg.fn.values():
                if g.name in HDRS:
                    continue
                for i in g.calls():
                    if i.callee in HDRS or i.callee == "pkt_put_int16" and i.args[1] == ["i", 0] or i.callee == "pkt_put_int16" and tuple(i.args[1][:2]) == ("i", 0):
                        self.stores.add(self.store_of(g, i.args[0]))
        return self.store_of(f, v) in self.stores

    # -- error paths ------------------------------------------------------
    def branch(self, sim, f, t, val, st):
        k = (f.key, t.blk, val)
        if k not in self.cache:
            e = False
            if t.op == "br":
                for g, v, op, c in self.sl.atoms(f, t.d["c"], val):
                    hd = self.sl.head(g, v)
                    if "pkt_isopen" in hd and truth(op, c):
                        e = e or "open"
                    if hd & {"ferror", MSG, "pkt_put_hdr", "pkt_put_hdr_raw", "fseek"} and truth(op, c):
                        e = True
            self.cache[k] = e
        return st.prop | {"open" if self.cache[k] == "open" else "err"} if self.cache[k] else st.prop

    def need(self, f, i, st, how):
        if "msg" in st.prop:
            self.bad(f, i, st, how, {"header": "a message header is written into the body of a message that was not ended with a zero byte",
                                     "close": "the packet is ended within a message that was not ended with a zero byte",
                                     "exit": "the program ends within a message that was not ended with a zero byte"}[how])

    def call(self, sim, f, i, name, targets, st, args):
        p = st.prop
        rv = sim.cg.retval(targets[0].key) if targets else TOP
        if self.mode == "msg":
            return self.msg(sim, f, i, name, targets, st, args, p, rv)
        mode = self.openmode(f, i, targets)
        if mode:
            self.sites["opens"].add((f.key, i.line))
            new = {"fresh"} if mode[0] == "w" else {"rw"} if mode.startswith("r+") else {"app"} if mode[0] == "a" else set()
            st.prop = p - {"fresh", "rw", "app", "pos", "hdr"} | new
            return [(st, sim.cg.retval(targets[0].key) if targets else TOP)]
        if name in HDRS:
            self.sites["headers"].add((f.key, i.line))
            st.prop = p - {"fresh", "rw"} | {"hdr"}
            return [(st, rv)]
        if name == "fseek" and len(args) > 2:
            ok = args[1][:2] == (-2, -2) and args[2][:2] == (2, 2)
            st.prop = p - {"pos"} | ({"pos"} if ok else set())
            return [(st, TOP)]
        if name == "pkt_get_int16":
            st.prop = p - {"pos"}
            return [(st, TOP)]
        if name == "pkt_put_int16" and args[1][:2] == (0, 0):
            self.sites["terminators"].add((f.key, i.line))
            if "fresh" in p:
                self.bad(f, i, st, "truncated", "the packet is opened in a way that empties it, and is ended without a header")
            if "end" in p:
                self.bad(f, i, st, "twice", "the packet terminator is written twice")
            st.prop = p | {"end", "endr"}
            return [(st, rv)]
        if name == "fclose" and self.mode == "close" and self.packet(f, i.args[0]):
            self.sites["closes"].add((f.key, i.line))
            if "end" not in p:
                self.bad(f, i, st, "unterminated", "a packet is closed without the packet terminator")
            st.prop = p - {"end", "fresh"}
            return [(st, TOP)]
        if name == "rename" and self.mode == "close":
            if "endr" not in p:
                self.bad(f, i, st, "unterminated", "a packet is put in place without the packet terminator")
            st.prop = p - {"endr"}
            return [(st, TOP)]
        return None

    def msg(self, sim, f, i, name, targets, st, args, p, rv):
        if name == MSG:
            self.sites["headers"].add((f.key, i.line))
            self.need(f, i, st, "header")
            if "open" not in p:
                self.bad(f, i, st, "noheader", "a message is written before any packet was opened or its header was written")
            st.prop = p | {"msg"}
            return [(st, rv)]
        if name in OPENERS or name in HDRS:
            st.prop = p | {"open"} | ({"raw"} if name in HDRS else set())
            return [(st, rv)]
        if name in CLOSERS:
            self.need(f, i, st, "close")
            st.prop = p - {"msg"}
            return [(st, rv)]
        if name == "pkt_put_int16" and args[1][:2] == (0, 0):
            self.sites["terminators"].add((f.key, i.line))
            self.need(f, i, st, "close")
            if "ended" in p:
                self.bad(f, i, st, "twice", "the packet terminator is written twice")
            st.prop = p - {"msg", "raw"} | {"ended"}
            return [(st, rv)]
        if name == "fclose" and "raw" in p and self.packet(f, i.args[0]):
            self.bad(f, i, st, "unterminated", "a packet is closed without the packet terminator")
            st.prop = p - {"raw"}
            return [(st, TOP)]
        if name in PUTC and "open" in p:
            v = args[0]
            if v[:2] == (0, 0) and i.args[0][0] == "i":
                self.sites["ends"].add((f.key, i.line))
                if "msg" not in p:
                    self.bad(f, i, st, "zero", "a zero byte is written after the message was already ended: readers take it for the end of the packet")
                st.prop = p - {"msg"}
            elif "msg" in p:
                self.sites["bytes"].add((f.key, i.line))
                if not v[2] and v[0] <= 0 <= v[1]:
                    self.bad(f, i, st, "body", "a byte that may be zero is written into the body of a message")
            return [(st, TOP)]
        if name in RAWW and "msg" in p:
            self.bad(f, i, st, "body", "bytes that may be zero are written into the body of a message")
        if name == "fprintf" and "msg" in p:
            fmt = self.sl.strof(f, i.args[1]) or ""
            if "%c" in fmt.replace("%%", ""):
                specs = re.findall(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z)?([a-zA-Z%])", fmt)
                k = 2
                for w, pr, cv in specs:
                    if cv == "%":
                        continue
                    k += (w == "*") + (pr == "*")
                    if cv == "c" and k < len(args) and not args[k][2] and args[k][0] <= 0 <= args[k][1]:
                        self.bad(f, i, st, "body", "a character that may be zero is printed into the body of a message")
                    k += 1
            return [(st, TOP)]
        return None

    def openmode(self, f, i, targets):
        if i.ty != "p":
            return None
        for a in i.args:
            s = self.sl.strof(f, a)
            if s is not None and MODE.match(s) and (i.callee or "").find("open") >= 0:
                return s
        return None

    def exit(self, sim, f, i, st, code):
        if self.mode == "msg":
            self.need(f, i, st, "exit")

    def ret(self, sim, f, i, st, val):
        if self.mode == "msg":
            self.need(f, i, st, "exit")
            if "raw" in st.prop and "ended" not in st.prop:
                self.bad(f, i, st, "unterminated", "the packet is left without the packet terminator")
        elif self.mode == "open":
            if val[0] == val[1] == 0:
                return
            if "fresh" in st.prop:
                self.bad(f, i, st, "noheader", "a new packet is handed out for writing without a packet header")
            if "rw" in st.prop and "pos" not in st.prop:
                self.bad(f, i, st, "position", "an existing packet is handed out for writing without being positioned over its terminator")


def run(ctx):
    ctx.rule("From every main(): a message header is written only where the previous message was ended with a zero byte, a zero byte only after a message header, exactly one per message; packets are closed and programs end only between messages. "
             "A packet opened anew gets a packet header before it is handed out, an existing one is positioned over its terminator; every packet closed for good or renamed into place got the packet terminator first.")
    done = set(); nprog = 0
    for name, prog in sorted(ctx.repo.progs.items()):
        cg = CG(prog)
        if MSG not in cg.fn or "main" not in cg.fn:
            continue
        callers = cg.reaching({MSG})
        if "main" not in callers:
            continue
        nprog += 1
        cl = W(ctx, prog, cg, "msg")
        s = Sim(prog, cg, cl)
        s.relevant = cg.reaching({MSG} | set(OPENERS) | set(CLOSERS) | set(HDRS)) | zero_writers(cg, cl.opaque)
        s.relevant -= cl.opaque
        s.run(cg.fn["main"], frozenset(), None)
        for k, v in cl.sites.items():
            ctx.count("%s" % k, len(v))
        ctx.cov["abstract_states_" + name] = s.nstates
        ctx.sample("%s: headers at %s; ends at %s" % (name, sorted(cl.sites["headers"]), sorted(cl.sites["ends"])))
        for fn in OPENERS + CLOSERS:
            f = cg.fn.get(fn)
            if f is None or (fn, f.unit) in done:
                continue
            done.add((fn, f.unit))
            cl = W(ctx, prog, cg, "open" if fn in OPENERS else "close")
            s = Sim(prog, cg, cl)
            near = {g.unit for g in cg.fn.values() if g.unit == f.unit} | {g.unit for g in cg.fn.values() if any(c.callee in HDRS or c.callee == "pkt_put_int16" for c in g.calls())}
            s.relevant = {k for k in cg.reaching(set(HDRS) | {"fseek", "fopen", "fclose", "rename", "pkt_put_int16"}) if cg.fn[k].unit in near} - cl.opaque
            s.run(f, frozenset(), None)
            for k, v in cl.sites.items():
                ctx.count("%s_%s" % (fn, k), len(v))
    ctx.floor("programs_writing_packets", nprog, 3)
    ctx.floor("packet_functions", len(done), 2)


def zero_writers(cg, opaque):
    """functions that write a zero byte to a stream"""
    out = set()
    for f in cg.fn.values():
        if f.key in opaque:
            continue
        if any(i.callee in PUTC and tuple(i.args[0][:2]) == ("i", 0) for i in f.calls()):
            out.add(f.name)
    return (cg.reaching(out) | {k for k in cg.fn if cg.fn[k].name in out}) if out else set()
