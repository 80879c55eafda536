"""C20: a result kept in shared storage is not overwritten while still needed."""
import multiprocessing
from collections import defaultdict
from sa.cg import CG, EXT_WRITES, EXT_PURE
from sa.conds import Conds, param_facts
from sa.ctx import where

TECHNIQUE = "interprocedural alias and kill dataflow over LLVM IR: every pointer into storage a function owns and reuses, followed to its uses, against the calls that rewrite that storage"
NOTE = ("Storage is static storage of the function that hands it out (or of libc: localtime, getpwnam, strerror ...), or one of the pools of the table POOLS, given back as a whole. Pieces of a pool kept in records "
        "are not followed. A caller that names a shared buffer itself, instead of using a function's result, is not followed.")

LIBC = {"localtime": "libc:tm", "gmtime": "libc:tm", "ctime": "libc:tm", "asctime": "libc:tm", "getpwnam": "libc:passwd", "getpwuid": "libc:passwd",
        "getgrnam": "libc:group", "getgrgid": "libc:group", "strerror": "libc:strerror", "gethostbyname": "libc:host", "tmpnam": "libc:tmpnam",
        "ttyname": "libc:ttyname", "basename": "libc:basename", "dirname": "libc:dirname", "crypt": "libc:crypt", "inet_ntoa": "libc:inet"}
LIBC_MODS = dict(LIBC, mktime="libc:tm-none")
# storage given back as a whole: who hands out a piece of it, who gives all of it back
POOLS = {"pool:tmps": (("tmps_alloc", "tmps_find"), ("tmps_freeall",)),
         "pool:dir": (("dir_get",), ("dir_open", "dir_close")),
         "pool:areasbbs": (("areasbbs_lookup", "areasbbs_first"), ("areasbbs_free",)),
         "pool:uplinks": (("uplinks_line_get", "uplinks_first"), ("uplinks_free",)),
         "pool:areas": (("areas_lookup",), ("areas_free",)),
         "pool:hosts": (("hosts_lookup",), ("hosts_free",)),
         "pool:passwd": (("passwd_lookup",), ("passwd_free",)),
         "pool:acl": (("acl_lookup",), ("acl_free",))}
# external functions whose result is (inside) one of their arguments
EXT_PASS = {"strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memcpy": 0, "memmove": 0, "fgets": 0, "strtok": 0,
            "strcasestr": 0, "memchr": 0, "index": 0, "rindex": 0, "realloc": 0}


def translate(f, cf, i, conds):
    """a callee's conditions seen from call i of f: None if the arguments contradict them"""
    out = set()
    for n, k in conds:
        if n >= len(i.args):
            continue
        a = i.args[n]
        if a[0] == "n" or a[0] == "i":
            z = a[0] == "n" or a[1] == 0
            if z != (k == "z"):
                return None
        elif a[0] in ("g", "f", "ce") and k == "z":
            return None
        elif a[0] == "v" and a[1] < f.nparams:
            out.add((a[1], k))
        elif a[0] == "v" and f.ins[a[1]].op == "alloca" and k == "z":
            return None
    out |= param_facts(cf(f), i.blk)
    if any((n, "z") in out and (n, "nz") in out for n, _ in out):
        return None
    return frozenset(out)


def put(d, r, c):
    """merge condition c for root r into d; true if d changed"""
    n = d[r] & c if r in d else frozenset(c)
    if r not in d or n != d[r]:
        d[r] = n; return True
    return False


def pool(r):
    return r[0] == "l" and r[1] in POOLS


class Roots:
    def __init__(self, cg):
        self.cg = cg; self.memo = {}; self.retroots = defaultdict(dict)
        self._c = {}

    def conds(self, f):
        if f.key not in self._c:
            self._c[f.key] = Conds(f)
        return self._c[f.key]

    def of(self, f, v, seen=None):
        """set of ('g',key) | ('p',i) | ('a',id) | ('l',tag): what pointer v may point into"""
        k = v[0]
        if k == "g":
            g = self.cg.prog.glob(f.unit, v[1])
            return {("g", g.key if g else v[1])}
        if k == "ce":
            return self.of(f, v[1], seen) if isinstance(v[1], list) else set()
        if k != "v":
            return set()
        if v[1] < f.nparams:
            return {("p", v[1])}
        seen = seen if seen is not None else set()
        if v[1] in seen:
            return set()
        seen.add(v[1])
        i = f.ins.get(v[1])
        if i is None:
            return set()
        if i.op == "alloca":
            return {("a", i.id)}
        if i.op == "gep":
            return self.of(f, i.d["p"], seen)
        if i.op == "cast":
            return self.of(f, i.d["a"][0], seen)
        if i.op == "phi":
            s = set()
            for x, _ in i.d["in"]:
                s |= self.of(f, x, seen)
            return s
        if i.op == "select":
            return self.of(f, i.d["a"][1], seen) | self.of(f, i.d["a"][2], seen)
        if i.op == "load":
            b = {r for r in self.of(f, i.d["p"], set(seen)) if r[0] == "a"}
            s = set()
            for r in b:
                s |= self.slot(f, r[1], seen)
            return s | {r for r in self.of(f, i.d["p"], set(seen)) if pool(r)}
        if i.op == "call":
            ts = self.cg.targets(f, i)
            s = set()
            if ts:
                for t in ts:
                    for r, c in list(self.retroots[t.key].items()):
                        if translate(f, self.conds, i, c) is None:
                            continue
                        if r[0] == "p":
                            if r[1] < len(i.args):
                                s |= self.of(f, i.args[r[1]], seen)
                        elif r[0] in ("g", "l"):
                            s.add(r)
            elif i.callee in LIBC:
                s.add(("l", LIBC[i.callee]))
            elif i.callee in EXT_PASS and EXT_PASS[i.callee] < len(i.args):
                s |= self.of(f, i.args[EXT_PASS[i.callee]], seen)
            return s
        return set()

    def slot(self, f, aid, seen):
        s = set()
        for i in f.all():
            if i.op == "store" and i.d["p"] == ["v", aid]:
                s |= self.of(f, i.d["v"], seen)
        return s

    def solve(self):
        for f in self.cg.fn.values():
            for tag, (src, _) in POOLS.items():
                if f.name in src:
                    self.retroots[f.key][("l", tag)] = frozenset()
        ch = True
        while ch:
            ch = False
            for f in self.cg.fn.values():
                if f.ret != "p":
                    continue
                for b in f.blocks:
                    t = b[-1]
                    if t.op == "ret" and "v" in t.d:
                        for v, blk in self.leaves(f, t.d["v"], t.blk):
                            pf = frozenset(param_facts(self.conds(f), blk))
                            for r in self.of(f, v):
                                if r[0] != "a":
                                    ch |= put(self.retroots[f.key], r, pf)

    def leaves(self, f, v, blk, seen=None):
        """(value, block it comes from): through phis"""
        seen = seen if seen is not None else set()
        if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "phi":
            if v[1] in seen:
                return
            seen.add(v[1])
            for x, pb in f.ins[v[1]].d["in"]:
                yield from self.leaves(f, x, pb, seen)
        else:
            if v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "call":
                blk = f.ins[v[1]].blk
            yield v, blk


class C20:
    def __init__(self, cg):
        self.cg = cg
        self.R = Roots(cg); self.R.solve()
        self._nn = {}; self._fr = {}; self.done = False; self.memo = {}
        self.mods = defaultdict(dict)      # fkey -> {('g',k)|('l',tag)|('p',i)}
        self._mods()
        self.done = True
        self.shared = set()
        for f in cg.fn.values():
            for r in self.R.retroots[f.key]:
                if r[0] == "l" or r[0] == "g" and r in self.mods[f.key]:
                    self.shared.add(r)
        self.keeps = defaultdict(dict)     # fkey -> params kept in memory
        self.outs = defaultdict(set)       # fkey -> {(param, offset, root)}: results stored through a parameter
        self.needs = defaultdict(set)      # fkey -> {(param, root)}: param read after root was rewritten

    def direct(self, f, i):
        """roots an instruction writes (not through calls to known functions)"""
        if i.op == "store":
            return {r for r in self.R.of(f, i.d["p"]) if not pool(r)}
        if i.op == "call" and not self.cg.targets(f, i):
            n = i.callee; s = set()
            if n in LIBC:
                s.add(("l", LIBC[n]))
            w = EXT_WRITES.get(n)
            if w is None:
                w = () if n in EXT_PURE or n is None else ()
            for k in w:
                if k < len(i.args):
                    s |= {r for r in self.R.of(f, i.args[k]) if not pool(r)}
            return s
        return ()

    def modset(self, f, i):
        if not self.done:
            return self._modset(f, i)
        k = (f.key, i.id, i.blk, i.idx)
        if k not in self.memo:
            self.memo[k] = self._modset(f, i)
        return self.memo[k]

    def _modset(self, f, i):
        if i.op == "call":
            ts = self.cg.targets(f, i)
            if ts:
                s = set()
                for t in ts:
                    for r, c in list(self.mods[t.key].items()):
                        if translate(f, self.R.conds, i, c) is None:
                            continue
                        if r[0] == "p":
                            if r[1] < len(i.args):
                                s |= {x for x in self.R.of(f, i.args[r[1]]) if not pool(x)}
                        else:
                            s.add(r)
                return s
        return self.direct(f, i)

    def modconds(self, f, i):
        """root -> conditions on f's parameters under which instruction i writes it"""
        pf = frozenset(param_facts(self.R.conds(f), i.blk))
        d = {}
        if i.op == "call":
            ts = self.cg.targets(f, i)
            if ts:
                for t in ts:
                    for r, c in list(self.mods[t.key].items()):
                        k = translate(f, self.R.conds, i, c)
                        if k is None:
                            continue
                        if r[0] == "p":
                            if r[1] < len(i.args):
                                for x in self.R.of(f, i.args[r[1]]):
                                    if not pool(x):
                                        put(d, x, k)
                        else:
                            put(d, r, k)
                return d
        return {r: pf for r in self.direct(f, i)}

    def nonnull_if_written(self, f):
        """roots that f writes itself only on paths that end in returning an address"""
        if f.key not in self._nn:
            out = {}
            if f.ret == "p":
                rets = [b[-1] for b in f.blocks if b[-1].op == "ret"]
                ends = [(v, blk, t) for t in rets if "v" in t.d for v, blk in self.R.leaves(f, t.d["v"], t.blk)]
                for g in self.mods[f.key]:
                    after = set()
                    for i in f.all():
                        if i.op in ("store", "call") and g in self.modset(f, i):
                            work = [i.blk]
                            while work:
                                b = work.pop()
                                if b not in after:
                                    after.add(b); work.extend(f.succs(b))
                    out[g] = all(v[0] in ("g", "ce") or v[0] == "v" and v[1] >= f.nparams and f.ins[v[1]].op == "gep" for v, blk, t in ends if blk in after)
            self._nn[f.key] = {g for g, ok in out.items() if ok}
        return self._nn[f.key]

    def _mods(self):
        for f in self.cg.fn.values():
            for tag, (_, kill) in POOLS.items():
                if f.name in kill:
                    self.mods[f.key][("l", tag)] = frozenset()
        ch = True
        while ch:
            ch = False
            for f in self.cg.fn.values():
                for i in f.all():
                    if i.op in ("store", "call"):
                        for r, c in self.modconds(f, i).items():
                            if r[0] != "a":
                                ch |= put(self.mods[f.key], r, c)

    def loc(self, f, p):
        """('a'|'p', id, constant offset) of a pointer, or None"""
        off = 0
        for _ in range(20):
            if p[0] != "v":
                return None
            if p[1] < f.nparams:
                return ("p", p[1], off)
            i = f.ins[p[1]]
            if i.op == "alloca":
                return ("a", i.id, off)
            if i.op == "gep" and not i.d["idx"]:
                off += i.d["off"]; p = i.d["p"]; continue
            if i.op == "cast":
                p = i.d["a"][0]; continue
            return None

    def slotof(self, f, p):
        if p[0] == "g":
            g = self.cg.prog.glob(f.unit, p[1])
            k = g.key if g else p[1]
            self.cg.private()
            return ("G", k) if k in self.cg.private_any else None
        l = self.loc(f, p)
        return (l[1], l[2]) if l and l[0] == "a" else None

    def first_is_read(self, t, gk):
        """t (or what it calls) may read global gk without having set it"""
        if t.key in self._fr.setdefault(gk, {}):
            return self._fr[gk][t.key]
        self._fr[gk][t.key] = False
        if gk not in self.cg.ref_g[t.key]:
            return False
        seen = set(); work = [0] if t.blocks else []; res = False
        while work and not res:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b); stop = False
            for i in t.blocks[b]:
                if i.op == "load" and i.d["p"][0] == "g":
                    g = self.cg.prog.glob(t.unit, i.d["p"][1])
                    if (g.key if g else i.d["p"][1]) == gk:
                        res = True; break
                if i.op == "store" and i.d["p"][0] == "g":
                    g = self.cg.prog.glob(t.unit, i.d["p"][1])
                    if (g.key if g else i.d["p"][1]) == gk:
                        stop = True; break
                if i.op == "call":
                    for x in self.cg.targets(t, i):
                        if self.first_is_read(x, gk):
                            res = True
                        if gk in self.cg.mod_g[x.key]:
                            stop = True
                    if res or stop:
                        break
            if not stop:
                work.extend(t.succs(b))
        self._fr[gk][t.key] = res
        return res

    def follow(self, f, start, val, g, live0, keep=None, slots0=()):
        """follow value val (an SSA id) that points into g from just after position start=(block,idx);
        yields (use instruction, killer instruction) for uses after g was rewritten"""
        # state: (frozenset of ssa ids, frozenset of alloca slots, killer id or None)
        out = []
        keep = [] if keep is None else keep
        seen = set()
        work = [(start[0], start[1], frozenset(live0), frozenset(slots0), None)]
        while work:
            b, k, live, slots, killer = work.pop()
            dead = False
            blk = f.blocks[b]
            for idx in range(k, len(blk)):
                i = blk[idx]
                ops = self.uses(f, i)
                hit = [n for n, o in ops if o[0] == "v" and o[1] in live]
                if i.op == "call":
                    if self.cg.is_exit(f, i):
                        if hit and killer:
                            out.append((i, killer))
                        dead = True; break
                    ts = self.cg.targets(f, i)
                    addg = set()
                    if killer:
                        for t in ts:
                            for sl in slots:
                                if sl[0] == "G" and self.first_is_read(t, sl[1]):
                                    out.append((i, killer))
                    for t in ts:
                        for n in hit:
                            for gk in self.keeps[t.key].get(n, ()):
                                if gk is None:
                                    keep.append((i, t.name))
                                else:
                                    keep.append((i, ("glob", gk)))
                                    addg.add(("G", gk))
                    if hit and not (i.callee or "").startswith("llvm.dbg"):
                        if killer:
                            out.append((i, killer))
                        for t in ts:
                            for n in hit:
                                if (n, g) in self.needs[t.key]:
                                    out.append((i, i))
                    if slots and ts:
                        re = {sl for sl in slots if sl[0] == "G" and any(sl[1] in self.cg.mod_g[t.key] for t in ts)}
                        for t in ts:
                            for p, off, _ in self.outs[t.key]:
                                l = self.loc(f, i.args[p]) if p < len(i.args) else None
                                if l and l[0] == "a":
                                    re.add((l[1], l[2] + off))
                        slots = slots - re
                        if not live and not slots:
                            dead = True; break
                    m = self.modset(f, i)
                    if g in m:
                        # writing through the very pointer we follow is the caller's own doing
                        own = False
                        if not ts:
                            w = EXT_WRITES.get(i.callee, ())
                            own = any(n in w for n in hit)
                        else:
                            own = bool(hit) and all(g not in self.mods[t.key] for t in ts)
                        if not own and killer is None:
                            killer = i
                        if not own and not live - {i.id} and not slots:
                            dead = True; break
                    slots = slots | addg
                    # result of a pass-through call
                    if i.id in live:
                        live = live - {i.id}
                    if hit:
                        pas = False
                        if ts:
                            pas = any(("p", n) in self.R.retroots[t.key] for t in ts for n in hit)
                        elif i.callee in EXT_PASS:
                            pas = EXT_PASS[i.callee] in hit
                        if pas:
                            live = live | {i.id}
                elif i.op == "load":
                    if hit and killer:
                        out.append((i, killer))
                    p = i.d["p"]
                    live = live - {i.id}
                    if self.slotof(f, p) in slots:
                        live = live | {i.id}
                elif i.op == "store":
                    v, p = i.d["v"], i.d["p"]
                    isl = v[0] == "v" and v[1] in live
                    sl = self.slotof(f, p)
                    if sl is not None and sl[0] == "G" and isl and not (p[1].startswith(f.name + ".")):
                        keep.append((i, ("glob", sl[1])))
                    if sl is not None:
                        slots = (slots | {sl}) if isl else (slots - {sl})
                    elif isl and not all(r[0] == "a" for r in self.R.of(f, p) or [("x",)]):
                        po = self.loc(f, p)
                        if po and po[0] == "p":
                            keep.append((i, ("out", po[1], po[2])))
                        elif not (p[0] == "g" and p[1].startswith(f.name + ".")):       # a tokenizer's own position
                            keep.append((i, None))
                elif i.op in ("gep", "cast", "select"):
                    live = (live | {i.id}) if hit else (live - {i.id})
                elif i.op == "ret":
                    if hit and killer:
                        out.append((i, killer))
            if dead or (not live and not slots):
                continue
            for s in f.succs(b):
                kk = killer
                if killer is not None and killer.ty == "p" and blk[-1].op == "br":
                    at = []
                    self.R.conds(f).edge(b, s, at)
                    if any(v == ["v", killer.id] and op == "eq" and c == 0 for v, op, c in at) and \
                            all(g in self.nonnull_if_written(t) for t in self.cg.targets(f, killer)) and self.cg.targets(f, killer):
                        kk = None
                nl = set(live)
                add, rem = set(), set()
                for i in f.blocks[s]:
                    if i.op != "phi":
                        break
                    inc = [x for x, pb in i.d["in"] if pb == b]
                    if any(x[0] == "v" and x[1] in live for x in inc):
                        add.add(i.id)
                    else:
                        rem.add(i.id)
                nl = (nl - rem) | add
                # ids whose definition does not reach s any further are harmless
                st = (s, frozenset(nl), slots, kk.id if kk else None)
                if (nl or slots) and st not in seen and len(seen) < 20000:
                    seen.add(st); work.append((s, self.firstnonphi(f, s), frozenset(nl), slots, kk))
        return out

    def firstnonphi(self, f, b):
        for k, i in enumerate(f.blocks[b]):
            if i.op != "phi":
                return k
        return 0

    def uses(self, f, i):
        d = i.d
        if i.op == "call":
            return list(enumerate(i.args))
        if i.op == "load":
            return [(0, d["p"])]
        if i.op == "store":
            return [(0, d["v"]), (1, d["p"])]
        if i.op == "gep":
            return [(0, d["p"])]
        if i.op == "cast":
            return [(0, d["a"][0])]
        if i.op == "select":
            return [(1, d["a"][1]), (2, d["a"][2])]
        if i.op == "ret" and "v" in d:
            return [(0, d["v"])]
        return []

    def params_kept(self):
        """fixpoint: parameters whose pointer value is stored where it outlives the call"""
        ch = True
        while ch:
            ch = False
            for f in self.cg.fn.values():
                if not f.blocks:
                    continue
                for n, p in enumerate(f.params):
                    if p[1] == "p" and None not in self.keeps[f.key].get(n, ()):
                        keep = []
                        self.follow(f, (0, 0), n, ("none",), {n}, keep)
                        ks = {None if not isinstance(v, tuple) else v[1] for _, v in keep if not isinstance(v, tuple) or v[0] == "glob"}
                        if not ks <= self.keeps[f.key].get(n, set()):
                            self.keeps[f.key][n] = self.keeps[f.key].get(n, set()) | ks; ch = True

    def params_needed(self):
        """fixpoint: (param,g) pairs read after g is rewritten"""
        ch = True
        while ch:
            ch = False
            for f in self.cg.fn.values():
                if not f.blocks:
                    continue
                for n, p in enumerate(f.params):
                    if p[1] != "p":
                        continue
                    for g in self.shared:
                        if (n, g) in self.needs[f.key]:
                            continue
                        if g not in self.mods[f.key]:
                            continue
                        if self.follow(f, (0, 0), n, g, {n}):
                            self.needs[f.key].add((n, g)); ch = True

    def run(self):
        self.params_kept()
        self.params_needed()
        n = 0; out = {}; smp = []; outs = self.outs
        ch = True; rounds = 0
        while ch and rounds < 4:
            ch = False; rounds += 1; n = 0
            for f in self.cg.fn.values():
                for i in list(f.calls()):
                    rs = []
                    ts = self.cg.targets(f, i)
                    for t in ts:
                        rs += [(r, None) for r, c in self.R.retroots[t.key].items() if (r in self.shared and r in self.mods[t.key] or r[0] == "l")
                               and translate(f, self.R.conds, i, c) is not None]
                        for p, off, g in list(outs[t.key]):
                            if p >= len(i.args):
                                continue
                            l = self.loc(f, i.args[p])
                            if l is None:
                                if i.args[p][0] not in ("n", "u") and not pool(g):
                                    out[("%s|%s|kept" % (f.name, t.name), where(f, i.line), "%s() keeps in a record here a text the next call rewrites (%s)" % (t.name, g[1]))] = 1
                            elif l[0] == "a":
                                rs.append((g, (l[1], l[2] + off)))
                            elif (l[1], l[2] + off, g) not in outs[f.key]:
                                outs[f.key].add((l[1], l[2] + off, g)); ch = True
                    if not ts and i.callee in LIBC:
                        rs.append((("l", LIBC[i.callee]), None))
                    for g, slot in set(rs):
                        n += 1; keep = []
                        if len(smp) < 3:
                            smp.append("%s: %s() gives %s" % (where(f, i.line), i.callee, g[1]))
                        for use, killer in self.follow(f, (i.blk, i.idx + 1), i.id, g, {i.id} if slot is None else (), keep, () if slot is None else (slot,)):
                            out[("%s|%s|%s" % (f.name, i.callee, killer.callee), where(f, use.line),
                                 "the result of %s() (line %d) is used after %s() (line %d) rewrote %s" % (i.callee, i.line, killer.callee, killer.line, g[1]))] = 1
                        for use, via in keep:
                            if isinstance(via, tuple):
                                if via[0] == "glob":
                                    continue
                                if via[1:] + (g,) not in outs[f.key]:
                                    outs[f.key].add(via[1:] + (g,)); ch = True
                                continue
                            if pool(g):
                                continue
                            out[("%s|%s|kept" % (f.name, i.callee), where(f, use.line),
                                 "the result of %s() (line %d), which the next call rewrites (%s), is kept in memory here%s" % (i.callee, i.line, g[1], " by %s()" % via if via else ""))] = 1
        out = list(out)
        return n, out, smp, self.shared


def one(pn):
    c = C20(CG(_repo.progs[pn]))
    return c.run()


_repo = None


def run(ctx):
    global _repo
    ctx.rule("For every call of a function whose result may point into storage the function owns and rewrites: no path leads from the call, through a call that may rewrite that storage, "
             "to a use of the result or of a pointer derived from it; and no function is given such a result and rewrites the storage before it is done with the argument.")
    ctx.rule("The same for storage given back as a whole (temporary strings, directory listing, area list, tables): no use of a piece after the call that gives it back.")
    ctx.assumption("a caller reads what it was given at the latest at the last use of the pointer; stores of the pointer into records are not followed")
    _repo = ctx.repo
    names = set(); total = 0
    progs = sorted(_repo.progs, key=lambda p: -len(list(_repo.progs[p].funcs())))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for n, out, smp, shared in pool.imap_unordered(one, progs, 1):
            total += n; names |= shared
            for v in out:
                ctx.violation(*v)
            for x in smp:
                ctx.sample(x)
    ctx.cov["shared_storages"] = len(names)
    ctx.sample("storages: " + ", ".join(sorted(x[1] for x in names)))
    ctx.floor("results_followed", total, 20)
