"""C02: without the lock, no protected work; lock files are created atomically."""
from sa.cg import CG, ZERO, TOP, NONNULL, HI, const
from sa.sim import Sim, Client, St, trace
from sa.ctx import where
from sa import ir
from checks.c01 import ACQ, REL, lockkey

TECHNIQUE = "interprocedural path-sensitive typestate dataflow (locks asked for, held, refused) and may-mutate call-graph effects over LLVM IR"
NOTE = ("Covers creation of the lock files, everything every program can do after a lock was refused to it, and the locks around the message history and the area list. "
        "Work on files behind the library's back (shell commands run by a program) counts as work; what such a command does is not analysed.")

MUT = {"unlink", "remove", "rename", "truncate", "ftruncate", "creat", "link", "symlink", "mkdir", "rmdir", "fopen", "open", "popen", "system", "fork",
       "fwrite", "fputs", "fputc", "fprintf", "vfprintf"}
O_CREAT, O_EXCL = 0o100, 0o200
HISTW = ("hi_write", "hi_write_t", "hi_write_dbc")
HIST = "cf_p_lock_history"


class Create(Client):
    """inside the function that takes a lock: prop = (the lock file was created here, removed again)"""
    opaque = frozenset(["fglog", "debug"])
    events = frozenset(["open", "fopen", "creat", "link", "symlink", "mkdir", "rename", "unlink", "remove", "fdopen", "fclose", "check_access", "kill", "access", "stat"])

    def __init__(self, ctx, who):
        self.ctx = ctx; self.who = who; self.sites = set(); self.rets = 0; self.fails = set()

    def v(self, kind, f, i, st, text):
        self.ctx.violation("create|%s|%s" % (kind, f.name), where(f, i.line), text, trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        if targets:
            return None

        def to(p=None, rv=TOP):
            return (St(st.prop if p is None else p, dict(st.env), st.tr), rv)
        if name == "open":
            fl = args[1]
            if fl[0] != fl[1]:
                self.v("flags", f, i, st, "a lock file is opened with flags that are not constant")
                return None
            if not fl[0] & O_CREAT:
                return None
            self.sites.add((f.key, i.line))
            if not fl[0] & O_EXCL:
                self.v("excl", f, i, st, "a lock file is created without O_EXCL: two programs can both create it")
            return [to("made", (0, HI, False, None)), to(rv=const(-1))]
        if name in ("link", "symlink", "mkdir"):
            if f.unit.endswith("lock.c") or name != "mkdir":
                self.sites.add((f.key, i.line))
                return [to("made", ZERO), to(rv=const(-1))]
            return None
        if name == "fopen":
            m = args[1][3]
            m = m[1] if isinstance(m, tuple) and m[0] == "s" else "?"
            if m[:1] != "r":
                self.v("excl", f, i, st, "a lock file is opened with fopen(\"%s\"), which succeeds although it already exists" % m)
            return [to(rv=NONNULL), to(rv=ZERO)]
        if name in ("creat", "rename"):
            self.v("excl", f, i, st, "%s() of a lock file succeeds although it already exists" % name)
            return None
        if name in ("unlink", "remove"):
            if st.prop != "made":
                self.v("steal", f, i, st, "removes a lock file it did not create: between looking at the file and removing it another program may have replaced it by its own")
                return None
            return [to("gone", ZERO), to("gone", const(-1))]
        if name in ("fdopen", "fclose"):
            return [to(rv=NONNULL if name == "fdopen" else ZERO), to(rv=ZERO if name == "fdopen" else const(-1))]
        return None

    def ret(self, sim, f, i, st, val):
        self.rets += 1
        if val[0] != 0 or val[1] != 0:
            self.fails.add(tuple(val))
        if val[0] <= 0 <= val[1] and not val[2] and st.prop != "made":
            self.v("unmade", f, i, st, "%s() reports the lock as obtained although it did not create the lock file" % self.who)
        if (val[1] < 0 or val[0] > 0) and st.prop == "made":
            self.v("left", f, i, st, "%s() reports failure but leaves the lock file it created" % self.who)


class Quiet:
    def violation(self, *a):
        pass


def failures(prog, cg, who):
    """the values by which a lock function tells that the lock was not obtained"""
    f = prog.func(None, who)
    if f is None:
        return [const(-1)]
    cl = Create(Quiet(), who)
    Sim(prog, cg, cl).run(f, "")
    return sorted(cl.fails, key=str) or [const(-1)]


class Work(Client):
    """prop = (held, refused, area list read under lock, history written since taken)"""
    exits = True
    opaque = frozenset(["fglog", "debug"])
    events = frozenset(ACQ) | frozenset(REL) | frozenset(list(HISTW) + ["areasbbs_rewrite", "areasbbs_init", "hi_close", "dbzstore", "dbmstore"])
    maxenv = 6

    def __init__(self, ctx, pn, mut, fails):
        self.fails = fails
        self.ctx = ctx; self.pn = pn; self.mut = mut
        self.n = {"acq": set(), "prot": set(), "after": set()}

    def v(self, kind, f, i, st, text):
        self.ctx.violation("%s|%s" % (self.pn, kind), where(f, i.line), "%s: %s" % (self.pn, text), trace(st.tr))

    def call(self, sim, f, i, name, targets, st, args):
        held, ref, rd, hw = st.prop

        def to(h=held, r=ref, d=rd, w=hw, rv=TOP, what=None):
            return (St((h, r, d, w), dict(st.env), (st.tr, i.line, what) if what else st.tr), rv)
        if name in ACQ:
            k = lockkey(ACQ[name], args)
            self.n["acq"].add((f.key, i.line))
            return [to(h=held | {k}, r=ref - {k}, w=False if k == HIST else hw, rv=ZERO)] + [to(r=ref if k == HIST and f.unit.startswith("common/") else ref | {k}, rv=rv, what="lock refused")
                                                                                          for rv in self.fails.get(name, [const(-1)])]
        if name in REL:
            k = lockkey(REL[name], args)
            if k == HIST and hw:
                self.v("flush", f, i, st, "gives the history lock back before its history writes are flushed by hi_close()")
            if k == "area list" and rd == "locked":
                rd = None
            return [to(h=held - {k}, d=rd)]
        if name in HISTW and targets:
            self.n["prot"].add((f.key, i.line))
            if HIST not in held:
                self.v("history", f, i, st, "writes the message history without holding its lock")
            return [to(w=True, rv=ZERO), to(w=True, rv=const(-1))]
        if name == "hi_close" and targets:
            return [to(w=False)]
        if name == "areasbbs_init" and targets:
            return [to(d="locked" if "area list" in held else "unlocked", rv=ZERO), to(rv=const(-1))]
        if name == "areasbbs_rewrite" and targets:
            self.n["prot"].add((f.key, i.line))
            if "area list" not in held:
                self.v("arealist", f, i, st, "rewrites the area list without holding its lock")
            elif rd != "locked":
                self.v("stale", f, i, st, "rewrites the area list from a copy read before its lock was held; changes made by others in between are lost")
            return [to(rv=ZERO), to(rv=const(-1))]
        if ref:
            if not targets and name in MUT and self.mutates(f, i, args):
                self.n["after"].add((f.key, i.line))
                self.v("work|" + (name or ""), f, i, st, "calls %s() after the lock '%s' was refused to it" % (name, sorted(ref)[0]))
            elif targets and any(t.key in self.mut for t in targets) and not any(t.key in sim.relevant for t in targets):
                self.v("work|" + (name or "?"), f, i, st, "calls %s(), which changes files, after the lock '%s' was refused to it" % (name, sorted(ref)[0]))
        return None

    def mutates(self, f, i, args):
        n = i.callee
        if n == "fopen":
            m = args[1][3]
            return not (isinstance(m, tuple) and m[0] == "s" and m[1][:1] == "r" and "+" not in m[1])
        if n == "open":
            return args[1][0] != args[1][1] or args[1][0] & 3 != 0
        if n in ("fwrite", "fputs", "fputc", "fprintf", "vfprintf"):
            return False
        return True

    def exit(self, sim, f, i, st, code):
        pass


def mutators(prog, cg):
    out = set()
    for k, g in cg.fn.items():
        for i in g.calls():
            n = i.callee
            if not n or prog.func(g.unit, n) is not None or n not in MUT:
                continue
            if n in ("fwrite", "fputs", "fputc", "fprintf", "vfprintf"):
                continue
            if n == "fopen":
                m = i.args[1]
                gl = prog.glob(g.unit, m[1]) if m[0] == "g" else None
                s = gl.string() if gl else None
                if s is not None and s[:1] == "r" and "+" not in s:
                    continue
                if s is None:
                    continue        # mode handed in: judged where a constant mode is
            if n == "open" and i.args[1][0] == "i" and i.args[1][1] & 3 == 0:
                continue
            out.add(k)
    return out


def signature(prog, f, names, depth=0):
    """how a function composes the name of a lock: the calls that build it, helpers included"""
    out = []
    for i in f.calls():
        n = i.callee
        if not n or n in ("fglog", "debug") or n in names:
            continue
        g = prog.func(f.unit, n)
        if g is not None and g.unit == f.unit and not n.startswith("str_") and depth < 3:
            if g.name not in names and not g.name.startswith(("lock_lockfile", "unlock_lockfile")):
                out += signature(prog, g, names, depth + 1)
            continue
        if n.startswith("str_") or n.startswith("cf_") or n.startswith("bink_bsy_name"):
            a = []
            for x in i.args:
                if x[0] == "g":
                    gl = prog.glob(f.unit, x[1]); a.append(gl.string() if gl else x[1])
                elif x[0] == "i":
                    a.append(x[1])
            out.append((n, tuple(map(str, a))))
    return out


def run(ctx):
    ctx.rule("(1) Every path through lock_program(), lock_path() and bink_bsy_create() that reports success created the lock file there by an operation that fails if it exists, and no "
             "path that reports failure leaves one behind or removes one it did not create. (2) From main() of every program: after a program lock or the lock of the area list was refused, no call that can change files "
             "happens before the program ends or obtains that lock. (3) hi_write(), hi_write_t(), hi_write_dbc() and areasbbs_rewrite() are called only while the history's and the area list's lock is held, the list "
             "was read under that lock, and the history lock is given back only after hi_close(). (4) A lock's name is composed the same way where it is taken and where it is given back.")
    ctx.assumption("open with O_CREAT|O_EXCL and link fail if the name exists")
    progs = sorted(ctx.repo.progs.items())
    # (1)
    done = set(); fails = {}
    for pn, prog in progs:
        for who in ("lock_program", "lock_path", "bink_bsy_create"):
            f = prog.func(None, who)
            if f is None or who in done:
                continue
            done.add(who)
            cg = CG(prog)
            cl = Create(ctx, who)
            # the directory a busy file lives in may have to be made first
            s = Sim(prog, cg, cl)
            s.run(f, "")
            fails[who] = sorted(cl.fails, key=str) or [const(-1)]      # what tells a caller that it did not get the lock
            ctx.count("creating_operations", len(cl.sites)); ctx.count("lock_function_returns", cl.rets)
            if not cl.sites:
                ctx.violation("create|none|%s" % who, where(f, f.line), "%s() creates no lock file" % who)
    ctx.floor("lock_functions", len(done), 2)
    # (4)
    prog = progs[0][1]
    for a, b in (("lock_program", "unlock_program"), ("lock_path", "unlock_path")):
        fa, fb = prog.func(None, a), prog.func(None, b)
        if fa is None or fb is None:
            raise ir.Broken("no " + a)
        sa_, sb = sorted(signature(prog, fa, ())), sorted(signature(prog, fb, ()))
        ctx.count("lock_name_pairs")
        if sa_ != sb:
            ctx.violation("name|%s" % a, where(fb, fb.line), "%s() and %s() compose the lock's name differently: %s, %s" % (a, b, sa_, sb))
    # (2), (3)
    n = nacq = nprot = nst = 0
    for pn, prog in progs:
        cg = CG(prog)
        if "main" not in cg.fn:
            raise ir.Broken("no main in " + pn)
        if "main" not in cg.reaching(set(ACQ) | {"hi_write", "areasbbs_rewrite"}):
            continue
        mut = cg.reaching(mutators(prog, cg), frozenset(["fglog", "debug"]) | set(ACQ) | set(REL))
        mut = mut | mutators(prog, cg)
        cl = Work(ctx, pn, mut - {"fglog", "debug"} - set(ACQ) - set(REL), fails)
        s = Sim(prog, cg, cl)
        s.run(cg.fn["main"], (frozenset(), frozenset(), None, False))
        n += 1; nacq += len(cl.n["acq"]); nprot += len(cl.n["prot"]); nst += s.nstates
        ctx.sample("%s: %d lock sites, %d protected writes, %d states" % (pn, len(cl.n["acq"]), len(cl.n["prot"]), s.nstates))
    ctx.floor("programs", n, 10)
    ctx.floor("lock_sites_reached", nacq, 12)
    ctx.floor("protected_writes_reached", nprot, 4)
    ctx.cov["abstract_states"] = nst
