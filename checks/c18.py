"""C18: what is written in a wire format is what its reader expects."""
import heapq, re
from sa.cg import CG, root
from sa.ctx import where
from sa import ir

TECHNIQUE = "byte-lane layout analysis (abstract interpretation of writer and reader to the source or destination field of every byte of the packet formats) and comparison of the field-by-field tables of text records extracted from the LLVM IR of writer and reader"
NOTE = ("The bytes of a packet header and of the fixed part of a message header are followed exactly; of a string it is judged which field it holds, not its characters. "
        "In text records each keyword is judged by the fields it is printed from and stored to and by number base, list and flag handling, not by the parsing of single values.")

T = ("?",)
PUT1 = ("putc", "fputc", "_IO_putc", "putc_unlocked", "fputc_unlocked")
GET1 = ("getc", "fgetc", "_IO_getc", "getc_unlocked", "fgetc_unlocked")
Z = frozenset([("c", 0)])
Q = frozenset([T])


def fs(*a):
    return frozenset(a)


def lanes(alt, n):
    """alternative -> n lanes"""
    if alt[0] == "L":
        l = alt[1][:n]
        return l + (Z,) * (n - len(l))
    if alt[0] == "c":
        return tuple(fs(("c", (alt[1] >> (8 * k)) & 255)) for k in range(n))
    return (Q,) * n


def norm(alts):
    ls = [a for a in alts if a[0] == "L"]
    rest = {a for a in alts if a[0] != "L"}
    if T in rest and len(rest) > 1:
        rest = {a for a in rest if a[0] == "ptr"} | {T}
    if len(rest) > 40:
        rest = {T}
    if len(ls) > 1:
        n = max(len(a[1]) for a in ls)
        m = [lanes(a, n) for a in ls]
        ls = [("L", tuple(frozenset().union(*(x[k] for x in m)) for k in range(n)))]
    return frozenset(rest | set(ls))


class Lay:
    """abstract interpretation of one function over positions in a stream"""

    def __init__(self, P, cg):
        self.P = P; self.cg = cg; self.out = {}; self.names = {}; self.alias = {}; self.sites = {}; self.steps = 0; self.depth = 0
        self.fns = set(); self.orders = {}

    def val(self, f, env, v):
        if v[0] == "i":
            return fs(("c", v[1]))
        if v[0] == "v":
            return env.get(v[1], fs(T))
        if v[0] == "g":
            return fs(("ptr", ("G", v[1]), 0))
        if v[0] == "n" or v[0] == "null":
            return fs(("c", 0))
        return fs(T)

    def run(self, f, args, pos, mem):
        """-> {pos: (ret, mem)}"""
        self.depth += 1
        if self.depth > 12:
            raise ir.Broken("C18: recursion in %s" % f.name)
        self.fns.add(f.name)
        start = (0, pos); st = {start: ({k: a for k, a in enumerate(args)}, dict(mem))}
        rpo = self.rpo(f); todo = [(pos, 0, 0)]; inq = {start}; res = {}
        while todo:
            p0, _, b0 = heapq.heappop(todo); k = (b0, p0); inq.discard(k)
            env, m = st[k]
            self.steps += 1
            if self.steps > 20000:
                raise ir.Broken("C18: the layout analysis of %s does not finish" % f.name)
            for (b, p2, e2, m2, frm) in self.block(f, k[0], dict(env), dict(m), k[1], res):
                # phis of the successor
                up = {}
                for x in f.blocks[b]:
                    if x.op != "phi":
                        break
                    for v, pb in x.d["in"]:
                        if pb == frm:
                            up[x.id] = self.val(f, e2, v)
                e3 = dict(e2); e3.update(up)
                n = (b, p2)
                if n not in st:
                    st[n] = (e3, m2)
                else:
                    je, ch1 = self.joinenv(st[n][0], e3); jm, ch2 = self.joinmem(st[n][1], m2)
                    if not (ch1 or ch2):
                        continue
                    st[n] = (je, jm)
                if n not in inq:
                    inq.add(n); heapq.heappush(todo, (p2, rpo[b], b))
        self.depth -= 1
        return res

    def rpo(self, f):
        if f.key not in self.orders:
            seen = {0}; out = []; stack = [(0, iter(f.succs(0)))]
            while stack:
                b, it = stack[-1]
                n = next((x for x in it if x not in seen), None)
                if n is None:
                    out.append(b); stack.pop()
                else:
                    seen.add(n); stack.append((n, iter(f.succs(n))))
            self.orders[f.key] = {b: k for k, b in enumerate(reversed(out))}
        return self.orders[f.key]

    @staticmethod
    def joinenv(a, b):
        r = dict(a); ch = False
        for k, v in b.items():
            if k not in r:
                r[k] = v; ch = True
            elif r[k] != v:
                n = norm(r[k] | v)
                if n != r[k]:
                    r[k] = n; ch = True
        return r, ch

    @staticmethod
    def joinmem(a, b):
        r = dict(a); ch = False
        for k, v in b.items():
            n = r.get(k, fs(("init",))) | v
            if n != r.get(k):
                r[k] = n; ch = True
        for k in a:
            if k not in b and ("init",) not in r[k]:
                r[k] = r[k] | fs(("init",)); ch = True
        return r, ch

    def done(self, res, pos, ret, m):
        if pos in res:
            r0, m0 = res[pos]
            res[pos] = (norm(r0 | ret), self.joinmem(m0, m)[0])
        else:
            res[pos] = (ret, m)

    def block(self, f, b, env, m, pos, res):
        """run one block; yields (succ, pos, env, mem, from)"""
        work = [(0, env, m, pos)]; outs = []
        blk = f.blocks[b]
        while work:
            k, env, m, pos = work.pop()
            while k < len(blk):
                i = blk[k]; k += 1
                if i.op == "phi":
                    continue
                if i.op == "call":
                    br = self.call(f, i, env, m, pos)
                    first = True
                    if not br:
                        k = -1; break
                    for p2, ret, m2 in br[1:]:
                        e2 = dict(env); e2[i.id] = ret
                        work.append((k, e2, m2, p2))
                    pos, ret, m = br[0]
                    env[i.id] = ret
                    continue
                if i.op == "br":
                    s = i.d["s"]
                    if len(s) == 1:
                        outs.append((s[0], pos, env, m, b))
                    else:
                        for t, e2 in self.cond(f, i, env):
                            outs.append((s[0 if t else 1], pos, e2, m, b))
                    break
                if i.op == "switch":
                    for t in set([c[1] for c in i.d["cs"]] + [i.d["d"]]):
                        outs.append((t, pos, env, m, b))
                    break
                if i.op == "ret":
                    self.done(res, pos, self.val(f, env, i.d["v"]) if "v" in i.d else fs(T), m)
                    break
                if i.op == "unreachable":
                    break
                self.step(f, i, env, m)
        return outs

    def cond(self, f, i, env):
        c = i.d["c"]
        v = self.val(f, env, c)
        ks = {a[1] for a in v if a[0] == "c"}
        if v and all(a[0] == "c" for a in v) and len(ks) == 1:
            return [(next(iter(ks)) != 0, env)]
        out = []
        x = f.ins.get(c[1]) if c[0] == "v" else None
        for t in (True, False):
            e = env
            if x is not None and x.op == "icmp" and x.d["pr"] in ("eq", "ne"):
                a, k = x.d["a"]
                if k[0] != "i":
                    a, k = k, a
                if k[0] == "i" and a[0] == "v":
                    same = (x.d["pr"] == "eq") == t
                    vv = self.val(f, env, a)
                    nv = frozenset(y for y in vv if (y[0] != "c" or (y[1] == k[1]) == same))
                    if same:
                        nv = frozenset(y for y in nv if not (y[0] == "L" and k[1] < 0))
                    if not nv:
                        continue
                    e = dict(env); e[a[1]] = nv
            out.append((t, e))
        return out

    def step(self, f, i, env, m):
        d = i.d
        if i.op == "alloca":
            env[i.id] = fs(("ptr", ("A", f.key, i.id), 0))
        elif i.op == "gep":
            r = set()
            dyn = 0
            off = d["off"]
            for a in self.val(f, env, d["p"]):
                if a[0] == "ptr":
                    offs = {off}
                    for ix in d["idx"] or ():
                        sc = ix[1] if isinstance(ix, (list, tuple)) and len(ix) == 2 and isinstance(ix[1], int) else None
                        vs = self.val(f, env, ix[0]) if sc is not None else fs(T)
                        ns = {y[1] for y in vs if y[0] == "c"}
                        if sc is None or len(ns) != len(vs) or len(ns) > 16:
                            offs = {None}; break
                        offs = {o + sc * n for o in offs for n in ns}
                    for o in offs:
                        r.add(("ptr", a[1], None if o is None or a[2] is None else a[2] + o))
                    nm = [e[2] for e in d["path"] if e[0] == "f"]
                    if nm and not d["idx"]:
                        for o in offs:
                            if o is not None and a[2] is not None:
                                self.names.setdefault((a[1], a[2] + o), nm[-1])
                else:
                    r.add(T)
            env[i.id] = norm(r)
        elif i.op == "load":
            r = set()
            for a in self.val(f, env, d["p"]):
                if a[0] == "ptr" and a[2] is not None and d["sz"] <= 8 and a[1][0] != "G":
                    l = tuple(frozenset(y for s in [m.get((a[1], a[2] + k), fs(("init",)))] for y in
                                        (s - fs(("init",)) | (fs(("of", (a[1], a[2] + k), 0)) if ("init",) in s else fs()))) for k in range(d["sz"]))
                    r.add(("L", l))
                else:
                    r.add(T)
            env[i.id] = norm(r)
        elif i.op == "store":
            v = self.val(f, env, d["v"]); ps = self.val(f, env, d["p"])
            for a in ps:
                if a[0] == "ptr" and a[2] is not None:
                    n = d["sz"]
                    for y in v:
                        if y[0] == "mk":
                            self.alias[y[1]] = (a[1], a[2])
                    m2 = [lanes(y, n) for y in v if y[0] != "mk"] or [(Q,) * n]
                    for k in range(n):
                        s = frozenset().union(*(x[k] for x in m2))
                        if len(ps) > 1:
                            s = s | m.get((a[1], a[2] + k), fs(("init",)))
                        m[(a[1], a[2] + k)] = s
        elif i.op in ("cast", "freeze"):
            v = self.val(f, env, d["a"][0])
            k = d.get("k")
            n = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(i.ty)
            r = set()
            for a in v:
                if a[0] == "L" and n:
                    r.add(("L", lanes(a, n)))
                elif a[0] == "c" and k == "trunc" and n:
                    r.add(("c", a[1] & ((1 << (8 * n)) - 1)))
                else:
                    r.add(a)
            env[i.id] = norm(r)
        elif i.op == "select":
            env[i.id] = norm(self.val(f, env, d["a"][1]) | self.val(f, env, d["a"][2]))
        elif i.op == "bin":
            env[i.id] = norm({self.bin(d["k"], x, y, i.ty) for x in self.val(f, env, d["a"][0]) for y in self.val(f, env, d["a"][1])})
        elif i.op == "icmp":
            x, y = (self.val(f, env, z) for z in d["a"])
            r = set()
            for a in x:
                for b in y:
                    if a[0] == "c" and b[0] == "c":
                        bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(d.get("ot"), 64)
                        u = lambda n: n & ((1 << bits) - 1)
                        p = d["pr"]
                        p0, q0 = (u(a[1]), u(b[1])) if p[0] == "u" or p in ("eq", "ne") else (a[1], b[1])
                        r.add(("c", int({"eq": p0 == q0, "ne": p0 != q0}.get(p, {"lt": p0 < q0, "le": p0 <= q0, "gt": p0 > q0, "ge": p0 >= q0}.get(p[1:], False)))))
                    else:
                        r.add(T)
            env[i.id] = norm(r)
        else:
            env[i.id] = fs(T)

    def bin(self, k, x, y, ty):
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            if k in ("shl", "lshr", "ashr") and not 0 <= b < 64:
                return T
            op = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                  "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: a >> b, "xor": lambda: a ^ b}.get(k)
            return ("c", op()) if op else T
        if x[0] == "c" and k in ("add", "or", "and"):
            x, y = y, x
        if x[0] == "ptr" or y[0] == "ptr":
            return T
        if x[0] == "L" and y[0] == "c":
            n = y[1]; l = x[1]; w = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(ty, 4)
            if k in ("shl",) and n % 8 == 0 and n >= 0:
                return ("L", ((Z,) * (n // 8) + l)[:w])
            if k in ("lshr", "ashr") and n % 8 == 0 and n >= 0:
                return ("L", l[n // 8:] or (Z,))
            if k == "and":
                r = []
                for j, s in enumerate(l):
                    b = (n >> (8 * j)) & 255
                    r.append(s if b == 255 else Z if b == 0 else Q)
                return ("L", tuple(r))
            if k in ("add", "sub"):
                n = n if k == "add" else -n
                return ("L", tuple(frozenset((s[0], s[1], s[2] + n) if s[0] in ("of", "in") else s if n == 0 else T for s in q) for q in l))
            if k == "or" and n == 0:
                return x
        if x[0] == "L" and y[0] == "L" and k in ("or", "add", "xor"):
            w = max(len(x[1]), len(y[1])); a = lanes(x, w); b = lanes(y, w)
            r = []
            for p, q in zip(a, b):
                r.append(p if q == Z else q if p == Z else Q)
            return ("L", tuple(r))
        return T

    def emit(self, f, i, pos, what):
        self.out[pos] = self.out.get(pos, frozenset()) | what
        self.sites.setdefault(pos, where(f, i.line))

    def call(self, f, i, env, m, pos):
        a = [self.val(f, env, x) for x in i.args]
        isfp = [k for k, x in enumerate(a) if ("fp",) in x]
        n = i.callee
        if n in ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove", "llvm.memmove.p0.p0.i64"):
            sz = [y[1] for y in a[2] if y[0] == "c"]
            dst = [y for y in a[0] if y[0] == "ptr"]; src = [y for y in a[1] if y[0] == "ptr"]
            if len(dst) == len(src) == 1 and sz and dst[0][2] is not None and src[0][2] is not None and sz[0] <= 4096:
                m = dict(m)
                new = {}
                for k in range(sz[0]):
                    s = m.get((src[0][1], src[0][2] + k), fs(("init",)))
                    if src[0][1][0] == "G":
                        s = Q
                    new[k] = frozenset(("of", (src[0][1], src[0][2] + k), 0) if y == ("init",) else y for y in s)
                for k, s in new.items():
                    m[(dst[0][1], dst[0][2] + k)] = s
            return [(pos, fs(T), m)]
        if n == "localtime" and a and any(y[0] == "ptr" for y in a[0]):
            return [(pos, frozenset(("ptr", ("lt", y[1], y[2]), 0) for y in a[0] if y[0] == "ptr"), m)]
        if n in ("mktime", "timegm") and a:
            return [(pos, frozenset(("mk", y[1]) for y in a[0] if y[0] == "ptr") or fs(T), m)]
        if not isfp:
            return [(pos, fs(T), m)]
        if n in PUT1 and isfp == [1]:
            b = frozenset().union(*(lanes(y, 1)[0] for y in a[0]))
            self.emit(f, i, pos, b)
            return [((pos[0], pos[1] + 1), fs(T), m)]
        if n in GET1:
            return [((pos[0], pos[1] + 1), fs(("L", (fs(("in", pos, 0)), Z, Z, Z))), m), (pos, fs(("c", -1)), m)]
        if n in ("fread", "fread_unlocked") and isfp == [3]:
            sz = self.one(a[1]), self.one(a[2])
            if None not in sz:
                m = dict(m)
                for y in a[0]:
                    if y[0] == "ptr" and y[2] is not None:
                        for k in range(sz[0] * sz[1]):
                            m[(y[1], y[2] + k)] = fs(("in", (pos[0], pos[1] + k), 0))
                return [((pos[0], pos[1] + sz[0] * sz[1]), fs(T), m)]
        if n in ("fwrite", "fwrite_unlocked") and isfp == [3]:
            sz = self.one(a[1]), self.one(a[2])
            if None not in sz:
                for k in range(sz[0] * sz[1]):
                    s = frozenset()
                    for y in a[0]:
                        if y[0] == "ptr" and y[2] is not None:
                            q = m.get((y[1], y[2] + k), fs(("init",)))
                            s |= frozenset(("of", (y[1], y[2] + k), 0) if z == ("init",) else z for z in q)
                        else:
                            s |= Q
                    self.emit(f, i, (pos[0], pos[1] + k), s)
                return [((pos[0], pos[1] + sz[0] * sz[1]), fs(T), m)]
        nxt = (pos[0] + 1, 0)
        if n in ("pkt_put_string", "fputs", "pkt_put_line"):
            q = a[1] if n != "fputs" else a[0]
            self.emit(f, i, pos, frozenset(("of", (y[1], y[2]), 0) if y[0] == "ptr" and y[2] is not None else T for y in q))
            return [(nxt, fs(T), m)]
        if n == "pkt_get_string":
            m = dict(m)
            for y in a[1]:
                if y[0] == "ptr" and y[2] is not None:
                    m[(y[1], y[2])] = fs(("in", pos, 0))
            return [(nxt, fs(T), m)]
        if n == "pkt_put_date":
            self.emit(f, i, pos, frozenset().union(*(lanes(y, 1)[0] for y in a[1])))
            return [(nxt, fs(T), m)]
        if n == "pkt_get_date":
            return [(nxt, fs(("L", (fs(("in", pos, 0)),) + (Z,) * 7)), m)]
        if n in ("fprintf", "vfprintf"):
            return [((pos[0] + 1, 0), fs(T), m)]
        g = [self.cg.fn.get(t) if isinstance(t, str) else t for t in self.cg.targets(f, i)]
        g = [x for x in g if x is not None]
        if len(g) == 1 and len(a) >= g[0].nparams:
            r = self.run(g[0], a[:g[0].nparams], pos, m)
            return [(p, x[0], x[1]) for p, x in sorted(r.items())]
        return [(pos, fs(T), m)]

    @staticmethod
    def one(v):
        k = [y[1] for y in v if y[0] == "c"]
        return k[0] if len(k) == 1 and len(v) == 1 and 0 <= k[0] <= 4096 else None


OBJ = ("obj",)


def layout(ctx, P, cg, wname, rname, start, fixed):
    w, r = cg.fn.get(wname), cg.fn.get(rname)
    if w is None or r is None:
        raise ir.Broken("C18: %s or %s is gone" % (wname, rname))
    W = Lay(P, cg)
    wend = W.run(w, [fs(("fp",)), fs(("ptr", OBJ, 0))] + [fs(("c", 0))] * (w.nparams - 2), (0, 0), {})
    L = Lay(P, cg)
    rend = L.run(r, [fs(("fp",)), fs(("ptr", OBJ, 0))] + [fs(T)] * (r.nparams - 2), (0, start), {})
    names = dict(L.names); names.update(W.names)

    def nm(root_off):
        ro, off = root_off
        best = max((o for (rr, o) in names if rr == ro and o <= off), default=None)
        s = names.get((ro, best), "?") if best is not None else "?"
        # enclosing members
        outer = [n for (rr, o), n in names.items() if False]
        return "%s@%d" % (s, off) if ro == OBJ else "time.%s" % s

    # where each field byte ends up in the reader's record
    R = {}
    for p, (ret, m) in rend.items():
        for (ro, off), s in m.items():
            if ro in L.alias:
                ro = ("lt",) + L.alias[ro]
            for y in s:
                if y[0] == "in":
                    R.setdefault((ro, off), set()).add((y[1], y[2]))
    Wf = {}
    for p, s in W.out.items():
        for y in s:
            if y[0] == "of":
                Wf.setdefault(y[1], set()).add((p, y[2]))
    ctx.count("bytes laid out", len(W.out)); ctx.count("fields read back", len(R))
    good = {(o, p) for o, s in Wf.items() for p, a in s if (p, -a) in R.get(o, ())}
    byp = {}
    for o, s in R.items():
        for q, a in s:
            byp.setdefault(q, set()).add(o)
    for p, s in sorted(W.out.items()):
        for y in s:
            if y[0] != "of" or y[1] not in R or (y[1], p) in good:
                continue
            others = byp.get(p, set()) - {y[1]}
            if any(g == y[1] for g, q in good) and not [g for g in others if g in Wf or record(g)]:
                continue           # also written where the reader takes it from; here it is not used
            at = sorted(R[y[1]])
            ctx.violation("%s|%s" % (wname, nm(y[1])), W.sites[p], "%s() writes %s%s at byte %s, but %s() reads it from byte %s" % (
                wname, nm(y[1]), " %+d" % y[2] if y[2] else "", show(p), rname, ", ".join(show(q) + (" %+d" % a if a else "") for q, a in at)))
    for o, s in sorted(R.items(), key=str):
        if o in Wf or not record(o):
            continue
        ps = sorted(s)
        if not any(q in W.out for q, a in ps) or all(any((g, q) in good for g in byp[q]) for q, a in ps):
            continue               # a copy of a field read from the same place
        ctx.violation("%s|%s" % (wname, nm(o)), W.sites.get(ps[0][0], where(w, w.line)), "%s() reads %s from byte %s, but %s() writes something else there and %s nowhere" % (
            rname, nm(o), show(ps[0][0]), wname, nm(o)))
    for o, s in sorted(Wf.items(), key=str):
        if o not in R and record(o) and not all(p in byp for p, a in s):
            p = sorted(s)[0][0]
            ctx.violation("%s|%s|unread" % (wname, nm(o)), W.sites[p], "%s() writes %s at byte %s, but %s() never reads it" % (wname, nm(o), show(p), rname))
    we = {p for p in wend}; re_ = {p for p in rend}
    if not (we & re_):
        ctx.violation("%s|size" % wname, where(w, w.line), "%s() writes %s, but %s() reads %s" % (wname, "/".join(map(show, sorted(we))), rname, "/".join(map(show, sorted(re_)))))
    unk = sorted(p for p, s in W.out.items() if T in s)
    if len(unk) > fixed:
        raise ir.Broken("C18: %d bytes written by %s are not understood (%s)" % (len(unk), wname, unk[:6]))
    ctx.sample("%s: %d bytes, ends at %s; %s: %d field bytes" % (wname, len(W.out), "/".join(map(show, sorted(we))), rname, len(R)))


def record(o):
    return o[0] == OBJ or o[0][0] == "lt"


def show(p):
    return "%d" % p[1] if p[0] == 0 else "string %d" % p[0] if p[1] == 0 else "string %d + %d" % p


def run(ctx):
    R = ctx.repo
    P = R.progs.get("ftntoss") or next(iter(R.progs.values()))
    cg = CG(P)
    layout(ctx, P, cg, "pkt_put_hdr_raw", "pkt_get_hdr", 0, 0)
    layout(ctx, P, cg, "pkt_put_msg_hdr", "pkt_get_msg_hdr", 2, 0)
    datewidth(ctx, P, cg)
    for prog, w, r, rx in RECORDS:
        Q2 = R.progs.get(prog)
        if Q2 is None:
            raise ir.Broken("C18: program %s is gone" % prog)
        records(ctx, Q2, CG(Q2), w, r, re.compile(rx))
    kludges(ctx, P, cg)
    history(ctx, R)
    ctx.rule("every byte of a packet header and of the fixed part of a message header which a writer fills from a field (or a constant, password or string) is the byte the reader stores into the same bits of that field")
    ctx.rule("a date printed into a field of fixed width fills it exactly")
    ctx.rule("every keyword and option letter a record's writer writes is one its reader knows, and both name the same member; every member the reader fills from a keyword is written, number bases agree, and a repeated keyword is written as often as it was read")
    ctx.rule("the addresses written as INTL, FMPT and TOPT are read back into the fields they were written from")
    ctx.rule("a line of the message-id and history files is stored and looked up under the same key (same end of the text, same length), at the offset where it was written, and rewritten by ftnexpire in the format of the program that added it")
    ctx.assumption("stdio and dbz behave as documented; two names of a member denote the same member (struct types come from debug-free IR layouts)")
    ctx.floor("bytes laid out", ctx.cov.get("bytes laid out", 0), 60)
    ctx.floor("keywords written", ctx.cov.get("keywords written", 0), 15)
    ctx.floor("history keys", ctx.cov.get("history keys", 0), 2)


# program, writer, reader, what a keyword looks like in the text written
RECORDS = [("ftntick", "tick_put", "tick_get", r"(?:^|\n)([A-Za-z]+)(?= |\t|:)"),
           ("ftntoss", "areasbbs_print", "areasbbs_init", r"(?:^| )(-[a-zA-Z#])(?= |$)")]
STREQ0 = ("strcasecmp", "strcmp", "stricmp", "strncasecmp", "strnicmp", "strncmp")
STREQ1 = ("strieq", "streq", "strnieq", "wildmatch")
OUTF = ("fprintf", "fputs", "putc", "fputc", "fwrite", "vfprintf")
APPEND = ("tl_append", "tl_appendf", "tl_addtl", "lon_add", "lon_add_string", "areasbbs_add_string", "areasbbs_add_passive", "sl_append")
WIDTH = {"d": 2, "b": 3, "y": 2, "H": 2, "M": 2, "S": 2, "a": 3, "m": 2, "Y": 4, "j": 3, "I": 2, "p": 2}


def sval(P, f, v):
    if v[0] == "ce":
        v = v[1]
    g = P.glob(f.unit, v[1]) if v[0] == "g" else None
    return g.init["str"].rstrip("\0") if g is not None and isinstance(g.init, dict) and "str" in g.init else None


def datewidth(ctx, P, cg):
    w, r = cg.fn.get("pkt_put_date"), cg.fn.get("pkt_get_date")
    if w is None or r is None:
        return
    fmts = [z for i in w.calls() for a in i.args for z in [sval(P, w, a)] if z and "%" in z and i.callee not in ("debug", "fglog")]
    sizes = [i.args[1][1] * i.args[2][1] for i in r.calls() if i.callee in ("fread", "fread_unlocked") and i.args[1][0] == i.args[2][0] == "i"]
    for z in fmts:
        n = len(re.sub(r"%(.)", lambda m: "x" * WIDTH.get(m.group(1), 1000), z)) + 1
        for s in sizes:
            ctx.count("date widths")
            if n < 1000 and n != s:
                ctx.violation("pkt_put_date|width", where(w, w.line), "the date is written in %d bytes but read as %d" % (n, s))


def fields_of(cg, f, v, rec, seen=None):
    """members of the record structure a value is taken from; "*" when a loop walks a list"""
    seen = set() if seen is None else seen
    out = set(); todo = [v]
    while todo:
        v = todo.pop()
        if not v or v[0] == "ce":
            if v:
                todo.append(v[1])
            continue
        if v[0] != "v" or v[1] < f.nparams or (f.key, v[1]) in seen:
            continue
        seen.add((f.key, v[1]))
        i = f.ins[v[1]]
        if i.op == "gep":
            for e in i.d["path"]:
                if e[0] == "f" and e[1] == rec:
                    out.add(e[2])
                if e[0] == "f" and e[2] == "next":
                    out.add("*")
            todo.append(i.d["p"])
        elif i.op == "load":
            todo.append(i.d["p"])
            b, sf = root(f, i.d["p"])
            if b[0] == "a":
                for x in f.all():
                    if x.op == "store" and root(f, x.d["p"])[0] == b:
                        todo.append(x.d["v"])
        elif i.op == "phi":
            todo += [x for x, _ in i.d["in"]]
        elif i.op == "call":
            todo += [a for a in i.args if a[0] in ("v", "ce")]
        elif i.op in ("select",):
            todo += i.d["a"][1:]
        elif "a" in i.d:
            todo += [a for a in i.d["a"] if a[0] == "v"]
    return out


def reachable_fns(cg, f, same_unit=True):
    seen = {f.key}; todo = [f]
    while todo:
        g = todo.pop()
        for i in g.calls():
            for t in cg.targets(g, i):
                t = cg.fn.get(t) if isinstance(t, str) else t
                if t is not None and t.key not in seen and (not same_unit or t.unit == f.unit):
                    seen.add(t.key); todo.append(t)
    return [cg.fn[k] for k in seen]


def branches(f, i, pos):
    uses = {}
    for x in f.all():
        for v in [x.d.get("c")] + (x.d.get("a") if isinstance(x.d.get("a"), list) else []):
            if isinstance(v, list) and v and v[0] == "v":
                uses.setdefault(v[1], []).append(x)
    out = []; todo = [(i.id, pos)]; seen = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k); v, p = k
        for u in uses.get(v, ()):
            if u.op == "icmp" and any(x[0] == "n" or x[0] == "i" and x[1] == 0 for x in u.d["a"]):
                todo.append((u.id, p == (u.d["pr"] == "ne")))
            elif u.op == "cast":
                todo.append((u.id, p))
            elif u.op == "bin" and u.d["k"] == "xor":
                todo.append((u.id, not p))
            elif u.op == "br" and "c" in u.d:
                s = f.succs(u.blk)
                out.append((s[0], s[1]) if p else (s[1], s[0]))
    return out


def region(f, yes, no):
    """blocks reached only by taking the branch"""
    def reach(b, without=None):
        seen = {b}; todo = [b]
        while todo:
            for s in f.succs(todo.pop()):
                if s not in seen:
                    seen.add(s); todo.append(s)
        return seen
    # dominated by yes: reachable from yes, not reachable from entry without it
    seen = {0}; todo = [0]
    while todo:
        for s in f.succs(todo.pop()):
            if s != yes and s not in seen:
                seen.add(s); todo.append(s)
    return reach(yes) - seen


def specs(fmt):
    return re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])", fmt)


def pieces(fmt):
    """literal text before each conversion, and the rest"""
    out = []; last = 0
    for m in re.finditer(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])", fmt):
        if m.group(1) == "%":
            continue
        out.append((fmt[last:m.start()], m.group(1))); last = m.end()
    return out, fmt[last:]


def fold(k):
    """keywords are compared without regard to case, option letters are not"""
    return k if k.startswith("-") else k.lower()


def records(ctx, P, cg, wname, rname, rx):
    w, r = cg.fn.get(wname), cg.fn.get(rname)
    if w is None or r is None:
        raise ir.Broken("C18: %s or %s is gone" % (wname, rname))
    # the record: the structure most members of which the writer uses
    mem = {}
    for i in w.all():
        if i.op == "gep":
            for e in i.d["path"]:
                if e[0] == "f":
                    mem.setdefault(e[1], set()).add(e[2])
    if not mem:
        raise ir.Broken("C18: %s uses no record" % wname)
    rec = max(mem, key=lambda k: len(mem[k]))
    # the writer
    W = {}         # keyword -> {"f": fields, "c": conversions, "list": bool, "ins": ins}
    loose = set(); bits = set(); pend = None
    wf = [g for g in reachable_fns(cg, w)]
    for g in wf:
        order = sorted(g.calls(), key=lambda i: (i.line, i.blk, i.idx))
        for i in order:
            n = i.callee or ""
            if n == "fprintf":
                fmt = sval(P, g, i.args[1])
                if fmt is None:
                    for a in i.args[1:]:
                        loose |= fields_of(cg, g, a, rec)
                    continue
                ps, tail = pieces(fmt)
                lead = ""
                for k, (lit, cv) in enumerate(ps):
                    fl = fields_of(cg, g, i.args[2 + k], rec) if 2 + k < len(i.args) else set()
                    ms = rx.findall(lit)
                    kw = ms[-1] if ms else (pend if k == 0 and not lit.strip() else None)
                    pend = None
                    if kw:
                        d = W.setdefault(fold(kw), {"f": set(), "c": set(), "list": False, "ins": (g, i), "name": kw, "heads": 0})
                        d["f"] |= fl - {"*"}; d["c"].add(cv); d["list"] |= "*" in fl
                    loose |= fl - {"*"}
                ms = rx.findall(tail)
                pend = ms[-1] if ms else None
                if pend and (not ps or True):
                    W.setdefault(fold(pend), {"f": set(), "c": set(), "list": False, "ins": (g, i), "name": pend, "heads": 0})
            elif n in ("fputs",):
                z = sval(P, g, i.args[0])
                if z:
                    ms = rx.findall(z); pend = ms[-1] if ms else pend
                    if ms:
                        W.setdefault(fold(pend), {"f": set(), "c": set(), "list": False, "ins": (g, i), "name": pend, "heads": 0})
                else:
                    fl = fields_of(cg, g, i.args[0], rec); loose |= fl - {"*"}
                    if pend:
                        W[fold(pend)]["f"] |= fl - {"*"}; W[fold(pend)]["list"] |= "*" in fl
                    pend = None
            elif any(t for t in cg.targets(g, i)):
                fl = set()
                for a in i.args:
                    if a[0] in ("v", "ce"):
                        fl |= fields_of(cg, g, a, rec)
                loose |= fl - {"*"}
                if pend and fl and stream_arg(g, i):
                    W[fold(pend)]["f"] |= fl - {"*"}; W[fold(pend)]["list"] = True
                    pend = None
        for x in g.all():
            if x.op == "bin" and x.d["k"] == "and" and any(a[0] == "i" for a in x.d["a"]):
                fl = set()
                for a in x.d["a"]:
                    fl |= fields_of(cg, g, a, rec)
                k = next(a[1] for a in x.d["a"] if a[0] == "i")
                for q in fl:
                    bits.add((q, k))
    # the reader
    Rd = {}
    for g in reachable_fns(cg, r):
        for i in g.calls():
            n = i.callee or ""
            if n not in STREQ0 and n not in STREQ1:
                continue
            z = [sval(P, g, a) for a in i.args[:2]]
            z = [x for x in z if x]
            if len(z) != 1 or not re.fullmatch(r"-?[A-Za-z#]+", z[0]):
                continue
            for yes, no in branches(g, i, n in STREQ1):
                d = Rd.setdefault(fold(z[0]), {"f": set(), "bits": set(), "list": False, "how": set(), "ins": (g, i), "name": z[0]})
                for b in region(g, yes, no):
                    for x in g.blocks[b]:
                        if x.op == "store":
                            fl = direct(g, x.d["p"], rec)
                            if fl:
                                o = orbits(g, x.d["v"])
                                if o is not None:
                                    d["bits"] |= {(fl, o)}
                                else:
                                    d["f"].add(fl)
                        elif x.op == "call":
                            d["how"].add(x.callee)
                            if x.callee == "sscanf" or x.callee == "__isoc99_sscanf":
                                zz = sval(P, g, x.args[1])
                                d["how"] |= {"%" + c for c in specs(zz or "")}
                            for k, a in enumerate(x.args):
                                fl = direct(g, a, rec)
                                if fl and a[0] == "v" and g.ins.get(a[1]) is not None and g.ins[a[1]].op == "gep":
                                    if (x.callee or "") in APPEND:
                                        d["list"] = True
                                    if (x.callee or "").startswith("str_"):
                                        continue
                                    d["f"].add(fl)
    ctx.count("keywords written", len(W)); ctx.count("keywords read", len(Rd))
    ctx.sample("%s writes %s; %s reads %s" % (wname, ",".join(sorted(W)), rname, ",".join(sorted(Rd))))
    if len(W) < 3 or len(Rd) < 3:
        ctx.count("records not understood"); return
    for k, d in sorted(W.items()):
        g, i = d["ins"]
        if k not in Rd:
            ctx.violation("%s|%s|not read" % (wname, d["name"]), where(g, i.line), "%s() writes %s, which %s() does not read" % (wname, d["name"], rname)); continue
        e = Rd[k]
        if d["f"] and e["f"] and not d["f"] & e["f"]:
            ctx.violation("%s|%s|field" % (wname, d["name"]), where(g, i.line), "%s() writes %s after %s, but %s() stores it to %s" % (
                wname, "/".join(sorted(d["f"])), d["name"], rname, "/".join(sorted(e["f"]))))
        hexw = bool(d["c"] & {"x", "X"}); hexr = bool(e["how"] & {"%x", "%X"}); decr = bool(e["how"] & {"atoi", "atol", "%d", "%u", "%i"})
        if hexw and decr and not hexr or (d["c"] & {"d", "u", "i"} and hexr and not decr):
            ctx.violation("%s|%s|base" % (wname, d["name"]), where(g, i.line), "%s() writes %s %s, but %s() reads it %s" % (
                wname, d["name"], "in hexadecimal" if hexw else "in decimal", rname, "in decimal" if hexw else "in hexadecimal"))
        if e["list"] and not d["list"] and d["f"] & e["f"]:
            ctx.violation("%s|%s|list" % (wname, d["name"]), where(g, i.line), "%s() collects every %s line, but %s() writes only one of them: the others are lost" % (rname, d["name"], wname))
    for k, e in sorted(Rd.items()):
        g, i = e["ins"]
        if e["f"] and not e["f"] & loose:
            ctx.violation("%s|%s|lost" % (wname, e["name"]), where(g, i.line), "%s() reads %s into %s, which %s() never writes: it is lost when the record is rewritten" % (
                rname, e["name"], "/".join(sorted(e["f"])), wname))
        for q, o in sorted(e["bits"]):
            if not any(f2 == q and k2 & o for f2, k2 in bits):
                ctx.violation("%s|%s|lost" % (wname, e["name"]), where(g, i.line), "%s() sets a flag for %s, which %s() never writes: it is lost when the record is rewritten" % (rname, e["name"], wname))


def stream_arg(g, i):
    return any(c in ("_IO_FILE*", "FILE*") for c in [x for x in (i.d.get("ats") or [])]) or len(i.args) > 1


def direct(f, v, rec):
    """member of rec an address is in"""
    while v and v[0] in ("v", "ce"):
        if v[0] == "ce":
            v = v[1]; continue
        if v[1] < f.nparams:
            return None
        i = f.ins[v[1]]
        if i.op == "gep":
            for e in i.d["path"]:
                if e[0] == "f" and e[1] == rec:
                    return e[2]
            v = i.d["p"]
        elif i.op == "cast":
            v = i.d["a"][0]
        else:
            return None
    return None


def orbits(f, v):
    if v[0] == "v" and v[1] in f.ins and f.ins[v[1]].op == "bin" and f.ins[v[1]].d["k"] == "or":
        for a in f.ins[v[1]].d["a"]:
            if a[0] == "i":
                return a[1]
    return None


def objoff(f, v):
    """(parameter or alloca, byte offset) of an address"""
    off = 0
    while True:
        if v[0] == "ce":
            return None
        if v[0] != "v":
            return None
        if v[1] < f.nparams:
            return ("p", v[1]), off
        i = f.ins[v[1]]
        if i.op == "gep" and not i.d["idx"] and i.d["off"] is not None:
            off += i.d["off"]; v = i.d["p"]
        elif i.op == "cast":
            v = i.d["a"][0]
        elif i.op == "alloca":
            return ("a", i.id), off
        else:
            return None


MEMCPY = ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove", "llvm.memmove.p0.p0.i64")


def copied(f, o):
    """where a local structure was copied from"""
    for i in f.calls():
        if i.callee in MEMCPY and objoff(f, i.args[0]) == o:
            return objoff(f, i.args[1])
    return None


def place_of_arg(f, v):
    """object and offset a printed value is taken from"""
    while v[0] == "v" and v[1] >= f.nparams:
        i = f.ins[v[1]]
        if i.op == "load":
            return objoff(f, i.d["p"])
        if i.op == "cast":
            v = i.d["a"][0]; continue
        if i.op == "call" and i.args:
            o = objoff(f, i.args[0])
            if o and o[0][0] == "a":
                return copied(f, o) or o
            return o
        return None
    return None


def kludges(ctx, P, cg):
    """address kludges: written by pkt_put_msg_hdr, read by whoever asks kludge_get() for them"""
    w = cg.fn.get("pkt_put_msg_hdr")
    W = {}
    for g in reachable_fns(cg, w):
        for i in g.calls():
            if i.callee != "fprintf":
                continue
            fmt = sval(P, g, i.args[1])
            m = re.match(r"\x01([A-Z]+)", fmt or "")
            if m:
                W[m.group(1)] = (g, i, [place_of_arg(g, a) for a in i.args[2:]], specs(fmt))
    seen = 0
    for g in cg.fn.values():
        for i in g.calls():
            if i.callee != "kludge_get" or len(i.args) < 2:
                continue
            k = sval(P, g, i.args[1])
            if k not in W:
                continue
            wg, wi, src, cv = W[k]
            if any(s is None or s[0] != ("p", 1) for s in src) or wg.name != "pkt_put_msg_hdr":
                continue
            got = []
            for yes, no in branches(g, i, True):
                for b in sorted(region(g, yes, no)):
                    for x in g.blocks[b]:
                        o = None
                        if x.op == "store":
                            o = objoff(g, x.d["p"]); size = x.d["sz"]
                            if not (x.d["v"][0] == "v" and x.d["v"][1] in g.ins):
                                o = None
                        elif x.op == "call" and x.callee in MEMCPY:
                            o = objoff(g, x.args[0])
                        if o and o[0][0] == "p":
                            got.append((x.line, x.blk, x.idx, o[1], x))
            got.sort(key=lambda t: t[:3])
            offs = [t[3] for t in got]
            if not offs:
                continue
            seen += 1; ctx.count("kludge readers")
            want = [s[1] for s in src]
            # the record may be a different parameter, but it is the same structure
            if offs != want and len(offs) == len(want):
                ctx.violation("kludge|%s|%s" % (k, g.name), where(g, got[0][4].line), "pkt_put_msg_hdr() writes ^A%s from the message's fields at %s, but %s() stores it to those at %s" % (
                    k, ", ".join(map(str, want)), g.name, ", ".join(map(str, offs))))
    for k, (g, i, src, cv) in sorted(W.items()):
        ctx.count("kludges written")
        if not any(sval(P, h, x.args[1]) == k for h in cg.fn.values() for x in h.calls() if x.callee == "kludge_get" and len(x.args) > 1):
            ctx.violation("kludge|%s|not read" % k, where(g, i.line), "pkt_put_msg_hdr() writes ^A%s, which no reader of messages looks for" % k)


def base_field(f, v):
    """(alloca, member) of the address of a member of a local structure"""
    mem = None
    while v[0] == "v" and v[1] >= f.nparams:
        i = f.ins[v[1]]
        if i.op == "gep":
            for e in i.d["path"]:
                if e[0] == "f":
                    mem = mem or e[2]
            v = i.d["p"]
        elif i.op == "cast":
            v = i.d["a"][0]
        elif i.op == "alloca":
            return i.id, mem
        else:
            return None
    return None


def back(f, v):
    """instructions a value is computed from"""
    out = []; todo = [v]; seen = set()
    while todo:
        v = todo.pop()
        if not v or v[0] != "v" or v[1] < f.nparams or v[1] in seen:
            continue
        seen.add(v[1]); i = f.ins[v[1]]; out.append(i)
        if i.op == "phi":
            todo += [x for x, _ in i.d["in"]]
        elif i.op == "gep" or i.op == "load":
            todo.append(i.d["p"])
        elif "a" in i.d and i.op != "call":
            todo += [x for x in i.d["a"] if isinstance(x, list)]
    return out


def history(ctx, R):
    """text lines indexed by dbz: the same key on both sides, the offset of the line it is in, the format ftnexpire writes back"""
    lens = {}; fmts = {}; done = set(); norms = {}
    for prog, P in sorted(R.progs.items()):
        for f in P.funcs():
            if f.key in done or f.unit.endswith("dbz.c"):
                continue
            done.add(f.key)
            st = {}
            for i in f.all():
                if i.op == "store":
                    b = base_field(f, i.d["p"])
                    if b and b[1] in ("dptr", "dsize"):
                        st.setdefault(b[0], {}).setdefault(b[1], []).append(i)
            for a, d in st.items():
                for sz in d.get("dsize", ()):
                    bk = back(f, sz.d["v"])
                    ln = [x for x in bk if x.op == "call" and x.callee == "strlen"]
                    if not ln:
                        continue
                    c = sum(next((y[1] for y in x.d["a"] if y[0] == "i"), 0) for x in bk if x.op == "bin" and x.d["k"] == "add")
                    lens.setdefault(c, []).append((f, sz)); ctx.count("history keys")
                    keys = [x.d["v"] for x in d.get("dptr", ())]
                    if keys and ln[0].args[0] not in keys:
                        ctx.violation("history|%s|key length" % f.name, where(f, sz.line), "%s() gives the key the length of another string" % f.name)
                    norms.setdefault(f.name, (f, sz, frozenset(x.callee for k in keys for x in back(f, k) if x.op == "call" and x.callee in ("strchr", "strrchr"))))
                    # the line the key is written in
                    if any(x.callee == "dbzstore" for x in f.calls()):
                        pr = [x for x in f.calls() if x.callee == "fprintf" and "\t" in (sval(P, f, x.args[1]) or "")]
                        tell = [x for x in f.calls() if x.callee in ("ftell", "ftello")]
                        for x in pr:
                            z = sval(P, f, x.args[1])
                            fmts.setdefault(f.unit, {})[z] = (f, x); ctx.count("history lines")
                            if keys and x.args[2] not in keys:
                                ctx.violation("history|%s|key" % f.name, where(f, x.line), "%s() stores a key that is not the first column of the line" % f.name)
                            if tell and not any(before(f, y, x) for y in tell):
                                ctx.violation("history|%s|offset" % f.name, where(f, x.line), "%s() takes the position of the line after writing it" % f.name)
    if len(lens) > 1:
        most = max(lens, key=lambda c: len(lens[c]))
        for c, xs in sorted(lens.items()):
            if c != most:
                for f, sz in xs:
                    ctx.violation("history|%s|length" % f.name, where(f, sz.line), "%s() uses keys of strlen()%+d bytes, the others of strlen()%+d" % (f.name, c, most))
    a, b = norms.get("hi_write_dbc"), norms.get("hi_fetch")
    if a and b and a[2] and b[2] and ("strrchr" in a[2]) != ("strrchr" in b[2]):
        ctx.violation("history|hi_fetch|key", where(b[0], b[1].line), "hi_write_dbc() stores what follows the %s blank, hi_fetch() looks for what follows the %s one" % tuple("last" if "strrchr" in z[2] else "first" for z in (a, b)))
    ex = {z for u, d in fmts.items() if u.endswith("ftnexpire.c") for z in d}
    lib = {z: x for u, d in fmts.items() if not u.endswith("ftnexpire.c") for z, x in d.items()}
    if ex:
        for z, (f, x) in sorted(lib.items()):
            if specs(z)[-1] in ("d", "u") and z not in ex:
                ctx.violation("history|%s|format" % f.name, where(f, x.line), "%s() writes lines as %r, which ftnexpire does not write back" % (f.name, z))


def before(f, y, x):
    if y.blk == x.blk:
        return y.idx < x.idx
    seen = {x.blk}; todo = [x.blk]
    while todo:
        for p in f.preds(todo.pop()):
            if p not in seen:
                seen.add(p); todo.append(p)
    return y.blk in seen
