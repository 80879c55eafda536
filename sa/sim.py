"""Path-sensitive typestate dataflow (property simulation) over SSA.

The abstract state is (property state, facts).  Facts are intervals with a
non-zero bit and an optional tag for SSA values and for memory cells.  At every
block at most MAXENV fact sets are kept per property state; beyond that they
are joined.  Functions are analysed once per (property state, facts about
their arguments) and summarised by the set of (property state, return value,
cells) they can end with, so moving code into helpers changes nothing.
Functions from which no event of the client is reachable are not entered: they
are modelled by their mod sets and their return-value range.
"""
from .cg import CG, LO, HI, TOP, NONNULL, ZERO, const, join, root, last_field, EXT_WRITES, EXT_PURE, EXITS
from . import ir

MAXENV = 12
MAXRET = 12
MAXDEPTH = 60


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    nz = a[2] or b[2]
    tag = a[3] if a[3] is not None else b[3]
    return norm(lo, hi, nz, tag)


def norm(lo, hi, nz, tag):
    if nz:
        if lo == 0:
            lo = 1
        if hi == 0:
            hi = -1
    if lo > hi:
        return None
    if lo > 0 or hi < 0:
        nz = True
    return (lo, hi, nz, tag)


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


class St:
    __slots__ = ("prop", "env", "tr")

    def __init__(self, prop, env, tr=None):
        self.prop = prop; self.env = env; self.tr = tr

    def copy(self):
        return St(self.prop, dict(self.env), self.tr)

    def with_prop(self, p):
        return St(p, self.env, self.tr)


class Client:
    """what to track; subclasses override"""
    events = frozenset()          # external names / function keys at which call() wants control
    opaque = frozenset()          # functions never entered (by key)
    exits = False                 # wants control at process exit
    maxenv = MAXENV
    keep_globals = None           # globals whose facts are passed into callees (None: all)

    def call(self, sim, f, i, name, targets, st, args):
        """None: default handling. Otherwise a list of (state, return Val)."""
        return None

    def exit(self, sim, f, i, st, code):
        pass

    def ret(self, sim, f, i, st, val):
        """return from the function the simulation started in"""
        pass

    def store(self, sim, f, i, st, addr, val):
        pass

    def load(self, sim, f, i, st, addr):
        return None

    def extret(self, sim, f, i, name, st, args):
        """return Val of an uninteresting external call"""
        return None

    def block(self, sim, f, b, st):
        pass

    def split(self, st):
        return None

    def branch(self, sim, f, t, val, st):
        """property state after the branch t took its val side (True/False)"""
        return st.prop

    def case(self, sim, f, t, val, st):
        """property state after the switch t took the case val (None for default)"""
        return st.prop

    def enter(self, sim, f, i, targets, st, args):
        """whether to follow this call into the functions called"""
        return True

    def entry(self, t, env):
        """facts handed into function t"""
        return env

    def keepcell(self, key):
        """whether facts about this memory cell are worth carrying from block to block"""
        return True


class Sim:
    def __init__(self, prog, cg, client, quiet=False):
        self.prog = prog; self.cg = cg; self.cl = client
        ev = set(client.events)
        self.exitfns = set()
        if client.exits:
            # process exits taken by the programs themselves; the library's own
            # aborts (out of memory, unusable configuration) are not modelled
            mu = cg.fn["main"].unit if "main" in cg.fn else None
            self.exitfns = {k for k, g in cg.fn.items() if g.unit == mu and (cg.extcalls[k] & EXITS)}
        op = client.opaque
        self.relevant = (cg.reaching(ev, op) | {k for k in cg.fn if k in ev} | cg.reaching(self.exitfns, op) | self.exitfns) - op
        self.sums = {}
        self.stack = []
        self.live = {}
        self.visited_funcs = set()
        self.nstates = 0
        self.nblocks = 0

    # ---------- liveness of SSA values
    def liveness(self, f):
        if f.key in self.live:
            return self.live[f.key]
        n = len(f.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]

        def vids(v, out):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == "v" and isinstance(v[1], int):
                    out.add(v[1])
                else:
                    for x in v:
                        if isinstance(x, list):
                            vids(x, out)
        for b, bl in enumerate(f.blocks):
            for i in bl:
                if i.op == "phi":
                    for v, p in i.d["in"]:
                        if v[0] == "v":
                            phiuse[p].add(v[1])
                    de[b].add(i.id)
                    continue
                s = set()
                for k in ("a", "p", "v", "c", "f", "idx", "path"):
                    x = i.d.get(k)
                    if isinstance(x, list):
                        vids(x, s)
                use[b] |= {x for x in s if x not in de[b]}
                de[b].add(i.id)
        # a value is also "live" while a comparison that depends on it is: close over operands
        inn = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for s in f.succs(b):
                    out |= inn[s]
                new = use[b] | (out - de[b])
                if new != inn[b]:
                    inn[b] = new; ch = True
        for b, bl in enumerate(f.blocks):
            for i in bl:
                if i.op != "phi":
                    break
                inn[b].add(i.id)
        # keep pointer bases and compared operands of live values
        for b in range(n):
            work = list(inn[b])
            while work:
                x = work.pop()
                if x < f.nparams:
                    continue
                i = f.ins[x]
                if i.op in ("gep", "cast", "icmp", "bin", "load"):
                    s = set()
                    for k in ("a", "p", "idx"):
                        y = i.d.get(k)
                        if isinstance(y, list):
                            vids(y, s)
                    for y in s:
                        if y not in inn[b]:
                            inn[b].add(y); work.append(y)
        self.live[f.key] = inn
        return inn

    # ---------- values
    def ev(self, f, v, env):
        k = v[0]
        if k == "v":
            return env.get(v[1], TOP)
        if k == "i":
            return (v[1], v[1], v[1] != 0, None)
        if k == "n":
            return ZERO
        if k == "g":
            g = self.prog.glob(f.unit, v[1])
            st = g.string() if g else None
            if st is not None:
                return (1, HI, True, ("s", st))
            return (1, HI, True, ("&g", g.key if g else v[1]))
        if k == "f":
            return (1, HI, True, ("&f", v[1]))
        if k == "ce":
            return NONNULL
        return TOP

    def addr(self, f, v):
        """(base, off, sf): cell key for an address, off None if variable"""
        off = 0; sf = None
        for _ in range(40):
            k = v[0]
            if k == "g":
                g = self.prog.glob(f.unit, v[1])
                return (("G", g.key if g else v[1]), off, sf)
            if k == "ce":
                if sf is None:
                    sf = last_field(v[3])
                if off is not None:
                    off += v[2]
                v = v[1]; continue
            if k != "v":
                return (("?",), None, sf)
            x = v[1]
            if x < f.nparams:
                return (("V", x), off, sf)
            i = f.ins[x]
            if i.op == "alloca":
                return (("A", i.id), off, sf)
            if i.op == "gep":
                if sf is None:
                    sf = last_field(i.d["path"])
                if i.d["idx"]:
                    off = None
                elif off is not None:
                    off += i.d["off"]
                v = i.d["p"]; continue
            if i.op == "cast":
                v = i.d["a"][0]; continue
            return (("V", i.id), off, sf)
        return (("?",), None, sf)

    def resolve(self, f, v, env):
        """like addr, but follows a known pointer value"""
        base, off, sf = self.addr(f, v)
        if base[0] == "V":
            t = env.get(base[1], TOP)[3]
            if isinstance(t, tuple) and t and t[0] == "@":
                b2, o2 = t[1], t[2]
                return (b2, None if off is None or o2 is None else off + o2, sf)
        return (base, off, sf)

    # ---------- kills
    def kill_cell_aliases(self, env, key):
        # drop load aliases of a cell
        for k in [k for k, v in env.items() if type(k) is tuple and k[0] == "L" and v == key]:
            del env[k]

    def kill(self, env, pred):
        dead = [k for k, v in env.items() if type(k) is tuple and pred(k if k[0] == "C" else v)]
        for k in dead:
            del env[k]

    def do_store(self, f, i, env, val):
        base, off, sf = self.resolve(f, i.d["p"], env)
        sz = i.d["sz"]
        if base[0] == "?" or off is None:
            # variable index: kills same base; through unknown pointer: same field, or chars
            pv = self.cg.private()
            if base[0] == "?":
                self.kill(env, lambda k: (sf is None or k[4] == sf) and not (k[1][0] == "G" and k[1][1] in pv))
            else:
                self.kill(env, lambda k: k[1] == base and (k[3] == sz or k[2] is None))
                if base[0] == "V":
                    self.kill(env, lambda k: k[1] != base and k[3] == sz and k[4] == sf and k[1][0] != "A" and not (k[1][0] == "G" and k[1][1] in pv))
            return
        key = ("C", base, off, sz, sf)
        if base[0] == "A":
            self.kill(env, lambda k: k[1] == base and k[2] is not None and k[2] < off + sz and off < k[2] + k[3])
        elif base[0] == "G":
            self.kill(env, lambda k: (k[1] == base and k[2] < off + sz and off < k[2] + k[3]) or
                      (k[1][0] == "V" and k[4] == sf and k[3] == sz and sf is not None))
        else:
            self.kill(env, lambda k: (k[1] == base and k[2] < off + sz and off < k[2] + k[3]) or
                      (k[1] != base and k[4] == sf and k[3] == sz and (sf is not None or k[1][0] == "V")))
        if val[:3] != TOP[:3] or val[3] is not None:
            env[key] = val

    def kill_call(self, f, i, targets, env):
        mg, mf = set(), set()
        argw = set()
        if targets:
            for t in targets:
                mg |= self.cg.mod_g[t.key]; mf |= self.cg.mod_f[t.key]
                argw |= self.cg.mod_p[t.key]
                for k in range(len(t.params), len(i.args)):
                    argw.add(k)
        else:
            n = i.callee
            w = EXT_WRITES.get(n)
            if w is None:
                w = () if n in EXT_PURE else tuple(range(len(i.args)))
            argw |= set(w)
            if n is None:
                argw = set(range(len(i.args)))
        bases = {}
        for k in argw:
            if k < len(i.args) and i.d["ats"][k] == "p":
                b, o, sf = self.resolve(f, i.args[k], env)
                if b[0] != "?":
                    bases.setdefault(b, []).append((o, sf))
        if not mg and not mf and not bases:
            return
        anyv = any(b[0] == "V" for b in bases)

        def pred(k):
            b = k[1]
            if b in bases:
                return True
            if b[0] == "G":
                return b[1] in mg
            if k[4] is not None and k[4] in mf and b[0] != "A":
                return True
            if b[0] == "A" and k[4] is not None and k[4] in mf and targets and False:
                return True
            if b[0] == "V" and k[4] is None and mf and any(x[0] == "*" and x[1] == "i%d" % (8 * k[3]) for x in mf):
                return True
            return False
        self.kill(env, pred)

    # ---------- refinement
    def refine(self, f, v, env, val):
        """v is known to satisfy val (a Val); False if contradictory"""
        if v[0] != "v":
            x = self.ev(f, v, env)
            return meet(x, val) is not None
        x = v[1]
        cur = env.get(x, TOP)
        m = meet(cur, val)
        if m is None:
            return False
        env[x] = m
        cell = env.get(("L", x))
        if cell is not None:
            c = env.get(cell, TOP)
            mm = meet(c, m)
            if mm is None:
                return False
            env[cell] = mm
        if x >= f.nparams:
            i = f.ins[x]
            if i.op == "cast":
                k = i.d["k"]
                if k in ("zext", "sext"):
                    if i.d["ot"] == "i1":
                        if m[0] == 0 and m[1] == 0:
                            return self.assume(f, i.d["a"][0], env, False)
                        if m[2]:
                            return self.assume(f, i.d["a"][0], env, True)
                    else:
                        return self.refine(f, i.d["a"][0], env, m[:3] + (None,))
                elif k == "trunc" and m[2]:
                    return self.refine(f, i.d["a"][0], env, (LO, HI, True, None))
            elif i.op == "bin" and i.d["k"] in ("add", "sub") and i.d["a"][1][0] == "i":
                c = i.d["a"][1][1]
                if i.d["k"] == "sub":
                    c = -c
                lo = m[0] - c if m[0] > LO else LO
                hi = m[1] - c if m[1] < HI else HI
                if lo > LO or hi < HI:
                    return self.refine(f, i.d["a"][0], env, (lo, hi, False, None))
            elif i.op == "phi" or i.op == "select":
                pass
        return True

    def assume(self, f, c, env, truth):
        """assume the i1 value c; False if infeasible"""
        if c[0] == "i":
            return (c[1] != 0) == truth
        if c[0] != "v":
            return True
        x = c[1]
        cur = env.get(x, (0, 1, False, None))
        if truth and cur[1] == 0 and cur[0] == 0:
            return False
        if not truth and cur[2] and cur[0] > 0:
            return False
        env[x] = const(1) if truth else ZERO
        if x < f.nparams:
            return True
        i = f.ins[x]
        if i.op == "icmp":
            pr = i.d["pr"]
            if not truth:
                pr = NEG[pr]
            a, b = i.d["a"]
            return self.cmp(f, a, pr, b, env)
        if i.op == "bin":
            k = i.d["k"]
            if k == "xor" and i.d["a"][1][0] == "i":
                return self.assume(f, i.d["a"][0], env, truth if i.d["a"][1][1] == 0 else not truth)
            if k == "and" and truth:
                return self.assume(f, i.d["a"][0], env, True) and self.assume(f, i.d["a"][1], env, True)
            if k == "or" and not truth:
                return self.assume(f, i.d["a"][0], env, False) and self.assume(f, i.d["a"][1], env, False)
        if i.op == "cast" and i.d["k"] == "trunc":
            return True
        if i.op == "phi":
            # short-circuit values: only one incoming can give this truth value
            cands = [v for v, _ in i.d["in"] if not (v[0] == "i" and (v[1] != 0) != truth)]
            if len(cands) == 1 and cands[0][0] == "v" and cands[0][1] in env:
                return self.assume(f, cands[0], env, truth)
        return True

    def cmp(self, f, a, pr, b, env):
        va, vb = self.ev(f, a, env), self.ev(f, b, env)
        ta, tb = va[3], vb[3]
        if ta is not None and ta == tb and isinstance(ta, tuple) and ta[0] in ("@",):
            if pr == "ne":
                return False
        na, nb = LO, HI
        if pr == "eq":
            if not self.refine(f, a, env, vb[:3] + (None,)):
                return False
            return self.refine(f, b, env, va[:3] + (None,))
        if pr == "ne":
            if va[0] == va[1] == vb[0] == vb[1]:
                return False
            for x, y in ((a, vb), (b, va)):
                if y[0] == y[1]:
                    c = y[0]
                    cur = self.ev(f, x, env)
                    if c == 0:
                        if not self.refine(f, x, env, (LO, HI, True, None)):
                            return False
                    elif cur[0] == c:
                        if not self.refine(f, x, env, (c + 1, HI, False, None)):
                            return False
                    elif cur[1] == c:
                        if not self.refine(f, x, env, (LO, c - 1, False, None)):
                            return False
            return True
        uns = pr[0] == "u"
        if uns:
            # unsigned: usable when both are known non-negative
            if not (va[0] >= 0 and vb[0] >= 0):
                if pr in ("ult", "ule") and vb[0] >= 0 and vb[1] < HI:
                    hi = vb[1] - (1 if pr == "ult" else 0)
                    return self.refine(f, a, env, (0, hi, False, None))
                return True
        p = pr[1:]
        if p == "lt":
            ok = self.refine(f, a, env, (LO, vb[1] - 1 if vb[1] < HI else HI, False, None))
            return ok and self.refine(f, b, env, (va[0] + 1 if va[0] > LO else LO, HI, False, None))
        if p == "le":
            ok = self.refine(f, a, env, (LO, vb[1], False, None))
            return ok and self.refine(f, b, env, (va[0], HI, False, None))
        if p == "gt":
            ok = self.refine(f, a, env, (vb[0] + 1 if vb[0] > LO else LO, HI, False, None))
            return ok and self.refine(f, b, env, (LO, va[1] - 1 if va[1] < HI else HI, False, None))
        if p == "ge":
            ok = self.refine(f, a, env, (vb[0], HI, False, None))
            return ok and self.refine(f, b, env, (LO, va[1], False, None))
        return True

    def evcmp(self, f, i, env):
        a, b = i.d["a"]
        va, vb = self.ev(f, a, env), self.ev(f, b, env)
        pr = i.d["pr"]
        r = None
        if pr in ("eq", "ne"):
            if va[0] == va[1] == vb[0] == vb[1]:
                r = True
            elif meet(va[:3] + (None,), vb[:3] + (None,)) is None:
                r = False
            elif a == b:
                r = True
            if r is not None and pr == "ne":
                r = not r
        else:
            p = pr[1:]
            if pr[0] == "s" or (va[0] >= 0 and vb[0] >= 0):
                if p in ("lt", "ge"):
                    if va[1] < vb[0]:
                        r = True
                    elif va[0] >= vb[1]:
                        r = False
                    if r is not None and p == "ge":
                        r = not r
                elif p in ("gt", "le"):
                    if va[0] > vb[1]:
                        r = True
                    elif va[1] <= vb[0]:
                        r = False
                    if r is not None and p == "le":
                        r = not r
        return (0, 1, False, None) if r is None else (const(1) if r else ZERO)

    # ---------- running
    def run(self, f, prop, env=None):
        """simulate from f's entry; returns list of (state, ret Val)"""
        env = dict(env or {})
        return self._func(f, St(prop, env, None))

    def _func(self, f, st0):
        self.visited_funcs.add(f.key)
        live = self.liveness(f)
        inst = {}           # block -> {prop: [St,...] }
        joined = set()      # (block, prop) in joined mode
        visits = {}
        work = []
        results = {}
        pos = rpo(f)

        keepcell = self.cl.keepcell

        def add(b, st):
            lv = live[b]
            env = {}
            for k, v in st.env.items():
                if type(k) is int:
                    if k in lv or k < f.nparams:
                        if v != TOP:
                            env[k] = v
                elif k[0] == "L":
                    if k[1] in lv:
                        env[k] = v
                else:
                    if k[1][0] == "V" and k[1][1] not in lv and k[1][1] >= f.nparams:
                        continue
                    if not keepcell(k):
                        continue
                    env[k] = v
            sk = (st.prop, self.cl.split(St(st.prop, env, None)))
            d = inst.setdefault(b, {})
            lst = d.setdefault(sk, [])
            jk = (b, sk)
            n = St(st.prop, env, st.tr)
            if jk in joined:
                old = lst[0]
                je = joinenv(old.env, env)
                if je == old.env:
                    return
                visits[jk] = visits.get(jk, 0) + 1
                if visits[jk] > 3:
                    je = widen(old.env, je)
                if je == old.env:
                    return
                lst[0] = St(st.prop, je, old.tr)
                push(b, lst[0], sk)
                return
            for o in lst:
                if o.env == env or subsumes(o.env, env):
                    return
            if len(lst) < self.cl.maxenv:
                lst.append(n)
                push(b, n, sk)
                return
            je = env
            for o in lst:
                je = joinenv(o.env, je)
            joined.add(jk)
            lst[:] = [St(st.prop, je, st.tr)]
            push(b, lst[0], sk)

        def push(b, st, sk):
            work.append((pos.get(b, 0), b, st, sk))

        add(0, st0)
        steps = 0
        while work:
            # pick smallest rpo
            m = min(range(len(work)), key=lambda k: work[k][0])
            _, b, st, sk = work.pop(m)
            cur = inst.get(b, {}).get(sk, [])
            if not any(o is st for o in cur):
                continue
            steps += 1
            self.nstates += 1
            if steps > 60000:
                raise ir.Broken("simulation of %s does not converge" % f.key)
            self.cl.block(self, f, b, st)
            for st2, tgt in self._block(f, b, st.copy(), results):
                # phis of the target
                env = st2.env
                newv = {}
                for i in f.blocks[tgt]:
                    if i.op != "phi":
                        break
                    for v, p in i.d["in"]:
                        if p == b:
                            newv[i.id] = (self.ev(f, v, env), v)
                            break
                if newv:
                    for k, (val, v) in newv.items():
                        # stale facts of cells based on the phi
                        self.kill(env, lambda c: c[1] == ("V", k))
                        env.pop(("L", k), None)
                    for k, (val, v) in newv.items():
                        env[k] = val
                        if v[0] == "v" and ("L", v[1]) in env:
                            env[("L", k)] = env[("L", v[1])]
                        if v[0] == "v":
                            # cells based on the incoming pointer are also cells of the phi
                            for c in [c for c in env if type(c) is tuple and c[0] == "C" and c[1] == ("V", v[1])]:
                                env[("C", ("V", k)) + c[2:]] = env[c]
                        if v[0] == "v" and val[3] is None and v[1] >= f.nparams and f.ins[v[1]].op in ("alloca", "gep"):
                            ba, of, sf = self.resolve(f, v, env)
                            if ba[0] in "AG":
                                env[k] = (1, HI, True, ("@", ba, of))
                add(tgt, st2)
        return list(flatten(results))

    def _block(self, f, b, st, results):
        """transfer a block; yields (state, successor)"""
        sts = [st]
        for i in f.blocks[b]:
            op = i.op
            if op == "phi":
                continue
            if op == "call":
                nxt = []
                for s in sts:
                    nxt.extend(self._call(f, i, s))
                sts = nxt
                if not sts:
                    return
                if len(sts) > 200:
                    sts = squash(sts, self.cl)
                continue
            if op in ("br", "switch", "ret", "unreachable"):
                break
            for s in sts:
                self._simple(f, i, s)
        t = f.blocks[b][-1]
        if t.op == "br":
            if "c" in t.d:
                for s in sts:
                    for k, truth in ((0, True), (1, False)):
                        e = dict(s.env)
                        if self.assume(f, t.d["c"], e, truth):
                            yield St(self.cl.branch(self, f, t, truth, s), e, (s.tr, t.line, t.d["s"][k])), t.d["s"][k]
            else:
                for s in sts:
                    yield s, t.d["s"][0]
        elif t.op == "switch":
            for s in sts:
                v = self.ev(f, t.d["c"], s.env)
                done = set()
                for c, tb in t.d["cs"]:
                    done.add(c)
                    e = dict(s.env)
                    if self.refine(f, t.d["c"], e, const(c)):
                        yield St(self.cl.case(self, f, t, c, s), e, (s.tr, t.line, tb)), tb
                if not (v[0] == v[1] and v[0] in done):
                    e = dict(s.env)
                    ok = True
                    while ok:
                        x = self.ev(f, t.d["c"], e)
                        if x[0] in done:
                            ok = self.refine(f, t.d["c"], e, (x[0] + 1, HI, False, None)); continue
                        if x[1] in done:
                            ok = self.refine(f, t.d["c"], e, (LO, x[1] - 1, False, None)); continue
                        break
                    if ok and 0 in done:
                        ok = self.refine(f, t.d["c"], e, (LO, HI, True, None))
                    if ok:
                        yield St(self.cl.case(self, f, t, None, s), e, (s.tr, t.line, t.d["d"])), t.d["d"]
        elif t.op == "ret":
            for s in sts:
                val = self.ev(f, t.d["v"], s.env) if "v" in t.d else TOP
                vv = t.d.get("v")
                if vv and vv[0] == "v" and val[3] is None:
                    ba, of, sf = self.resolve(f, vv, s.env)
                    if ba[0] == "G":
                        val = (1, HI, True, ("@", ba, of))
                if not self.stack:
                    self.cl.ret(self, f, t, s, val)
                rl = results.setdefault(s.prop, [])
                env = {k: v for k, v in s.env.items() if type(k) is tuple and k[0] == "C" and
                       (k[1][0] == "G" or k[1][0] == "R" or (k[1][0] == "V" and k[1][1] < f.nparams))}
                dup = False
                for idx, (os, ov) in enumerate(rl):
                    if ov == val and subsumes(os.env, env):
                        dup = True; break
                if dup:
                    continue
                rl.append((St(s.prop, env, s.tr), val))
                if len(rl) > MAXRET:
                    # merge those with equal return value first
                    byv = {}
                    for os, ov in rl:
                        if ov in byv:
                            byv[ov] = (St(os.prop, joinenv(byv[ov][0].env, os.env), os.tr), ov)
                        else:
                            byv[ov] = (os, ov)
                    rl[:] = list(byv.values())
                    if len(rl) > MAXRET:
                        # classes: zero / positive / negative / mixed
                        byc = {}
                        for os, ov in rl:
                            c = (ov[0] > 0, ov[1] < 0, ov[0] == ov[1] == 0)
                            if c in byc:
                                byc[c] = (St(os.prop, joinenv(byc[c][0].env, os.env), os.tr), join(byc[c][1], ov))
                            else:
                                byc[c] = (os, ov)
                        rl[:] = list(byc.values())

    def _simple(self, f, i, s):
        env = s.env
        op = i.op
        # an SSA value redefined in a loop: forget facts hanging on its previous incarnation
        if op in ("load", "gep", "cast"):
            self._fresh(env, i.id)
        if op == "load":
            base, off, sf = self.resolve(f, i.d["p"], env)
            r = self.cl.load(self, f, i, s, (base, off, sf))
            key = None
            if base[0] != "?" and off is not None:
                key = ("C", base, off, i.d["sz"], sf)
                if r is None:
                    r = env.get(key)
                    if r is None and base[0] == "G":
                        r = self.const_global(base[1], off, i.d["sz"])
            env[i.id] = r if r is not None else TOP
            if key is not None:
                env[("L", i.id)] = key
        elif op == "store":
            v = self.ev(f, i.d["v"], env)
            if v[3] is None and i.d["v"][0] == "v" and i.d.get("vt") == "p":
                ba, of, _ = self.resolve(f, i.d["v"], env)
                if ba[0] in "AG" and of is not None:
                    v = (1, HI, True, ("@", ba, of))
            elif i.d["v"][0] == "g":
                ba, of, _ = self.resolve(f, i.d["v"], env)
                v = (1, HI, True, ("@", ba, of))
            self.cl.store(self, f, i, s, self.resolve(f, i.d["p"], env), v)
            self.do_store(f, i, env, v)
            # the stored value and the cell now stay in step
            w = i.d["v"]
            if w[0] == "v" and w[1] >= f.nparams and ("L", w[1]) not in env:
                base, off, sf = self.resolve(f, i.d["p"], env)
                if base[0] in "AG" and off is not None:
                    env[("L", w[1])] = ("C", base, off, i.d["sz"], sf)
        elif op == "alloca":
            env[i.id] = NONNULL
        elif op == "gep":
            b = self.ev(f, i.d["p"], env)
            t = b[3]
            if i.d["off"] == 0 and not i.d["idx"] or t == "NUL":
                env[i.id] = b
            elif i.d["p"][0] in ("g", "ce") or b[0] > 0:
                if isinstance(t, tuple) and t and t[0] == "@" and not i.d["idx"] and t[2] is not None:
                    env[i.id] = (1, HI, True, ("@", t[1], t[2] + i.d["off"]))
                else:
                    env[i.id] = NONNULL
            else:
                env[i.id] = NONNULL if i.d["path"] and i.d["path"][-1][0] == "f" else TOP
        elif op == "icmp":
            env[i.id] = self.evcmp(f, i, env)
        elif op == "cast":
            v = self.ev(f, i.d["a"][0], env)
            k = i.d["k"]
            if k == "zext" and i.d["ot"] == "i1":
                env[i.id] = (0, 1, False, None) if v == TOP else v
            elif k == "zext":
                bits = int(i.d["ot"][1:])
                env[i.id] = v if v[0] >= 0 and v[1] < HI else (0, (1 << bits) - 1, v[2], None)
            elif k == "sext":
                bits = int(i.d["ot"][1:])
                env[i.id] = norm(max(v[0], -(1 << (bits - 1))), min(v[1], (1 << (bits - 1)) - 1), v[2], v[3]) or TOP
            elif k == "trunc":
                bits = int(i.ty[1:])
                if bits > 1 and v[0] >= -(1 << (bits - 1)) and v[1] < (1 << (bits - 1)):
                    env[i.id] = v
                elif bits == 1 and v[0] >= 0 and v[1] <= 1:
                    env[i.id] = v
                else:
                    env[i.id] = TOP
            elif k in ("ptrtoint", "inttoptr", "bitcast"):
                env[i.id] = v
            else:
                env[i.id] = TOP
        elif op == "bin":
            env[i.id] = self.binop(f, i, env)
        elif op == "select":
            c = self.ev(f, i.d["a"][0], env)
            if c[0] == c[1] == 0:
                env[i.id] = self.ev(f, i.d["a"][2], env)
            elif c[2]:
                env[i.id] = self.ev(f, i.d["a"][1], env)
            else:
                env[i.id] = join(self.ev(f, i.d["a"][1], env), self.ev(f, i.d["a"][2], env))
        else:
            env[i.id] = TOP

    def _fresh(self, env, x):
        env.pop(("L", x), None)
        dead = [k for k in env if type(k) is tuple and k[0] == "C" and k[1] == ("V", x)]
        for k in dead:
            del env[k]

    def const_global(self, key, off, sz):
        g = self._gl().get(key)
        if g is None or not g.const:
            return None
        return None

    def _gl(self):
        if not hasattr(self, "_glc"):
            self._glc = {}
            for u in self.prog.units:
                for g in u.globals.values():
                    if not g.decl:
                        self._glc.setdefault(g.key, g)
        return self._glc

    def binop(self, f, i, env):
        a, b = self.ev(f, i.d["a"][0], env), self.ev(f, i.d["a"][1], env)
        k = i.d["k"]
        bits = int(i.ty[1:]) if i.ty[0] == "i" else 64
        if k == "add":
            lo = a[0] + b[0] if a[0] > LO and b[0] > LO else LO
            hi = a[1] + b[1] if a[1] < HI and b[1] < HI else HI
            t = a[3]
            if isinstance(t, tuple) and t[0] == "count" and i.d["a"][1][0] == "i":
                t = ("count", t[1] + i.d["a"][1][1])
            else:
                t = None
            r = (lo, hi, lo > 0 or hi < 0, t)
        elif k == "sub":
            lo = a[0] - b[1] if a[0] > LO and b[1] < HI else LO
            hi = a[1] - b[0] if a[1] < HI and b[0] > LO else HI
            r = (lo, hi, lo > 0 or hi < 0, None)
        elif k == "and":
            r = TOP
            for x in (a, b):
                if x[0] == x[1] and x[0] >= 0:
                    r = (0, x[0], False, None)
            if a[0] == a[1] and b[0] == b[1]:
                r = const(a[0] & b[0])
        elif k == "or":
            if a[0] == a[1] and b[0] == b[1]:
                r = const(a[0] | b[0])
            elif a[2] or b[2]:
                r = (LO, HI, True, None)
            else:
                r = TOP
        elif k == "xor" and i.ty == "i1":
            if a[0] == a[1] and b[0] == b[1]:
                r = const(a[0] ^ b[0])
            else:
                r = (0, 1, False, None)
        elif k == "mul":
            if LO < a[0] and a[1] < HI and LO < b[0] and b[1] < HI:
                c = [x * y for x in a[:2] for y in b[:2]]
                r = (min(c), max(c), min(c) > 0 or max(c) < 0, None)
            else:
                r = TOP
        elif k in ("srem", "urem") and b[0] == b[1] and b[0] > 0:
            r = (0 if a[0] >= 0 else -(b[0] - 1), b[0] - 1, False, None)
        elif k in ("sdiv", "udiv") and b[0] == b[1] and b[0] > 0 and a[0] >= 0 and a[1] < HI:
            r = (a[0] // b[0], a[1] // b[0], a[0] // b[0] > 0, None)
        else:
            r = TOP
        if bits == 32 and (r[0] < -(1 << 31) or r[1] >= (1 << 32)):
            if r[0] > LO or r[1] < HI:
                r = (max(r[0], LO), min(r[1], HI), r[2], None)
        return r

    # ---------- calls
    def _call(self, f, i, s):
        env = s.env
        self._fresh(env, i.id)
        targets = self.cg.targets(f, i)
        name = i.callee
        args = [self.ev(f, a, env) for a in i.args]
        out = self.cl.call(self, f, i, name, targets, s, args)
        if out is not None:
            res = []
            for o in out:
                st, rv = o[0], o[1]
                if st.env is env:
                    st = St(st.prop, dict(env), st.tr)
                self.kill_call(f, i, targets, st.env)
                st.env[i.id] = rv if rv is not None else TOP
                if len(o) > 2:
                    st.env.update(o[2])
                res.append(st)
            return res
        if (name in EXITS or i.d.get("nr")) and not targets:
            if self.cl.exits and f.key in self.exitfns:
                self.cl.exit(self, f, i, s, args[0] if args else TOP)
            return []
        if targets and any(t.key in self.relevant for t in targets) and self.cl.enter(self, f, i, targets, s, args):
            res = []
            for t in targets:
                res.extend(self._enter(f, i, t, s, args))
            return res
        if targets and all(t.key in self.cg.noreturn for t in targets):
            return []
        rv = None
        if not targets:
            rv = self.cl.extret(self, f, i, name, s, args)
        self.kill_call(f, i, targets, env)
        if rv is None:
            if targets:
                rv = self.cg.retval(targets[0].key)
                for t in targets[1:]:
                    rv = join(rv, self.cg.retval(t.key))
                if not args and i.ty == "p":
                    rv = rv[:3] + (("call", name),)
            else:
                rv = TOP
        env[i.id] = rv
        return [s]

    def _enter(self, f, i, t, s, args):
        """call a function that matters: use or compute its summary"""
        cenv = {}
        bmap = {}
        refg = self.cg.ref_g[t.key] | self.cg.mod_g[t.key]
        keep = self.cl.keep_globals
        for k, a in enumerate(args):
            if k >= t.nparams:
                break
            v = a
            tag = v[3]
            if i.d["ats"][k] == "p":
                b, o, _ = self.resolve(f, i.args[k], s.env)
                if b[0] == "G" and o is not None:
                    tag = ("@", b, o)
                elif b[0] in ("A", "V", "R") and o is not None:
                    bmap[b] = (k, o)
                    if isinstance(tag, tuple) and tag and tag[0] == "@":
                        tag = None
            v = (v[0], v[1], v[2], tag)
            # generalise: keep sign information and small constants only
            if not (v[0] == v[1] and -256 <= v[0] <= 1024):
                v = norm(LO if v[0] < 0 else (1 if v[0] > 0 else 0), HI if v[1] > 0 else (-1 if v[1] < 0 else 0), v[2], v[3]) or TOP
            cenv[k] = v
        for k, v in s.env.items():
            if type(k) is tuple and k[0] == "C":
                b = k[1]
                if b[0] == "G":
                    if b[1] in refg and (keep is None or b[1] in keep):
                        cenv[k] = v
                elif b in bmap and bmap[b][1] is not None and k[2] is not None:
                    p, o = bmap[b]
                    cenv[("C", ("V", p), k[2] - o, k[3], k[4])] = v
        cenv = {k: (v if not isinstance(k, tuple) or not (isinstance(v[3], tuple) and v[3] and v[3][0] == "@" and v[3][1][0] in ("A", "V")) else v[:3] + (None,)) for k, v in cenv.items()}
        cenv = self.cl.entry(t, cenv)
        sk = (t.key, s.prop, self.cl.split(s), frozenset((k, v) for k, v in cenv.items()))
        if sk in self.sums:
            res = self.sums[sk]
            if res is None:        # recursion: no effect, unknown result
                env = dict(s.env)
                self.kill_call(f, i, [t], env)
                env[i.id] = TOP
                return [St(s.prop, env, s.tr)]
        elif len(self.stack) > MAXDEPTH:
            res = None
            env = dict(s.env); self.kill_call(f, i, [t], env); env[i.id] = TOP
            return [St(s.prop, env, s.tr)]
        else:
            self.sums[sk] = None
            self.stack.append((f, i))
            try:
                res = self._func(t, St(s.prop, cenv, (s.tr, i.line, "call " + t.name)))
            finally:
                self.stack.pop()
            self.sums[sk] = res
        out = []
        mg = self.cg.mod_g[t.key]
        for rs, rv in res:
            env = dict(s.env)
            self.kill_call(f, i, [t], env)
            for k, v in rs.env.items():
                b = k[1]
                if b[0] == "G":
                    env[k] = v
                elif b[0] == "V":
                    for cb, (p, o) in bmap.items():
                        if p == b[1] and o is not None and k[2] is not None:
                            env[("C", cb, k[2] + o, k[3], k[4])] = v
            env[i.id] = rv
            # a returned argument pointer etc. carries no frame-local meaning
            if isinstance(rv[3], tuple) and rv[3] and rv[3][0] == "@" and rv[3][1][0] in ("A", "V"):
                env[i.id] = rv[:3] + (None,)
            out.append(St(rs.prop, env, (s.tr, i.line, "ret " + t.name)))
        return out


def flatten(results):
    for p, rl in results.items():
        for s, v in rl:
            yield s, v


def subsumes(a, b):
    """a is weaker (more general) than or equal to b"""
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            return False
        if k.__class__ is tuple and k[0] == "L":
            if v != w:
                return False
            continue
        if v[3] != w[3] and v[3] is not None:
            return False
        if not (v[0] <= w[0] and v[1] >= w[1] and (w[2] or not v[2])):
            return False
        if v[3] is None and w[3] is not None:
            pass
    # b may carry tags a lacks: dropping a tag is not harmless for resources, so require equality of tagged keys
    for k, w in b.items():
        if k.__class__ is tuple and k[0] == "L":
            continue
        if w[3] is not None and w[3].__class__ is not tuple:
            v = a.get(k)
            if v is None or v[3] != w[3]:
                return False
    return True


def joinenv(a, b):
    r = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if v == w:
            r[k] = v
        elif type(k) is tuple and k[0] == "L":
            continue
        else:
            j = join(v, w)
            if j != TOP:
                r[k] = j
    return r


def widen(old, new):
    r = {}
    for k, v in new.items():
        if type(k) is tuple and k[0] == "L":
            r[k] = v; continue
        o = old.get(k)
        if o is None:
            continue
        lo = v[0] if v[0] >= o[0] else (0 if v[0] >= 0 else LO)
        hi = v[1] if v[1] <= o[1] else (0 if v[1] <= 0 else HI)
        r[k] = (lo, hi, v[2], v[3])
    return r


def squash(sts, cl):
    by = {}
    for s in sts:
        k = (s.prop, cl.split(s))
        if k in by:
            by[k] = St(s.prop, joinenv(by[k].env, s.env), s.tr)
        else:
            by[k] = s
    return list(by.values())


_rpo = {}


def rpo(f):
    k = id(f)
    if k in _rpo:
        return _rpo[k]
    seen = set(); order = []
    stack = [(0, iter(f.succs(0)))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(f.succs(s)))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    _rpo[k] = {b: n for n, b in enumerate(order)}
    return _rpo[k]


def trace(tr, limit=40):
    out = []
    while tr is not None and len(out) < limit:
        out.append("%s->%s" % (tr[1], tr[2]))
        tr = tr[0]
    out.reverse()
    return out
