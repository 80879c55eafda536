"""Load the repository as LLVM IR (after mem2reg) with debug names.

Every run starts from /repo's current working tree: each C unit of every
program is compiled with the build's own flags (-DHAVE_CONFIG_H -I. -I..
-Iinclude) by clang at -O0, promoted to SSA, and dumped by tools/irdump.
Per-unit results are cached by a hash of the unit, of every header and of the
tools, so a cache hit is always a result for identical input.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
GENERATED = ["config.h", "src/include/paths.h", "src/include/cf_funcs.h",
             "src/common/cf_funcs.c", "src/common/cf_abbrev.c", "src/common/cf_env.c",
             "src/common/parsedate.c", "version.h"]
CFLAGS = ["-std=gnu17", "-DHAVE_CONFIG_H", "-I.", "-I..", "-Iinclude", "-w", "-O0", "-Xclang",
          "-disable-O0-optnone", "-g", "-fno-builtin", "-D_FORTIFY_SOURCE=0", "-emit-llvm", "-c"]


class Broken(Exception):
    """the analysis itself cannot give an answer"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def ensure_tool():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(exe):
        return exe, h
    cxx = sh(["llvm-config-18", "--cxxflags"]).stdout.decode().split()
    cxx = [c for c in cxx if not c.startswith("-std=")]
    ld = sh(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support"]).stdout.decode().split()
    tmp = exe + ".tmp%d" % os.getpid()
    r = sh(["g++", "-O1", "-std=c++17", "-fno-rtti", src] + cxx + ["-o", tmp] + ld)
    if r.returncode:
        raise Broken("cannot build irdump: " + r.stderr.decode()[-2000:])
    os.replace(tmp, exe)
    return exe, h


def source_root():
    """/repo if its generated sources are there, otherwise a configured scratch copy."""
    missing = [g for g in GENERATED if not os.path.exists(os.path.join(REPO, g))]
    if not missing:
        return REPO, None
    d = tempfile.mkdtemp(prefix="sa-src-")
    dst = os.path.join(d, "repo")
    shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    env = dict(os.environ, CC="gcc", PERL="/usr/bin/perl", LC_ALL="C.UTF-8")
    for v in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(v, None)
    cmd = ("sh ./autogen.sh && ./configure --without-news --with-sendmail=/usr/sbin/sendmail "
           "--disable-extraversion && make -j8")
    r = sh(["bash", "-c", cmd], cwd=dst, env=env)
    missing = [g for g in GENERATED if not os.path.exists(os.path.join(dst, g))]
    if missing:
        raise Broken("generated sources missing: %s %s" % (missing, r.stderr.decode()[-1500:]))
    return dst, d


def programs(root):
    """{program: [units]} and the library's units, from src/Makefile.am"""
    txt = open(os.path.join(root, "src/Makefile.am"), encoding="latin-1").read()
    txt = txt.replace("\\\n", " ")
    var = {}
    for m in re.finditer(r"^([A-Za-z_0-9]+)\s*(\+?=)\s*(.*)$", txt, re.M):
        n, op, v = m.group(1), m.group(2), m.group(3).split("#")[0].split()
        var[n] = (var.get(n, []) + v) if op == "+=" else v
    progs = {}
    for n in ("bin_PROGRAMS", "libexec_PROGRAMS"):
        for p in var.get(n, []):
            if "$" in p:
                continue
            key = p.replace("/", "_") + "_SOURCES"
            progs[os.path.basename(p)] = [s for s in var.get(key, [p + ".c"]) if s.endswith(".c")]
    lib = [s.replace(".y", ".c") for s in var["LIBFIDOGATE_SRC"]]
    if len(progs) < 20 or len(lib) < 40:
        raise Broken("program list not understood: %d programs, %d library units" % (len(progs), len(lib)))
    return progs, lib


class I:
    """one instruction"""
    __slots__ = ("op", "id", "ty", "line", "name", "cty", "d", "blk", "fn", "idx")

    def __init__(self, d, fn, blk, idx):
        self.op = d["o"]; self.id = d["i"]; self.ty = d["t"]; self.line = d.get("l", 0)
        self.name = d.get("n"); self.cty = d.get("ct"); self.d = d
        self.fn = fn; self.blk = blk; self.idx = idx

    def __repr__(self):
        return "%s:%s:%d#%d %s" % (self.fn.unit, self.fn.name, self.line, self.id, self.op)

    @property
    def callee(self):
        f = self.d["f"]
        return f[1] if f[0] == "f" else None

    @property
    def args(self):
        return self.d["a"]


class F:
    def __init__(self, d, unit):
        self.name = d["name"]; self.internal = d["internal"]; self.vararg = d["vararg"]
        self.decl = d["decl"]; self.ret = d["ret"]; self.params = d["params"]; self.unit = unit
        self.line = d.get("line", 0); self.file = d.get("file", unit); self.ctys = d.get("ctys", [])
        self.noreturn = d.get("noreturn", False)
        self.blocks = []; self.ins = {}
        for b, bl in enumerate(d.get("blocks", [])):
            cur = []
            for k, i in enumerate(bl):
                x = I(i, self, b, k); cur.append(x); self.ins[x.id] = x
            self.blocks.append(cur)
        self.nparams = len(self.params)
        self._succ = None; self._pred = None

    @property
    def key(self):
        return (self.unit + ":" + self.name) if self.internal else self.name

    def succs(self, b):
        if self._succ is None:
            self._mk()
        return self._succ[b]

    def preds(self, b):
        if self._succ is None:
            self._mk()
        return self._pred[b]

    def _mk(self):
        n = len(self.blocks)
        self._succ = [[] for _ in range(n)]; self._pred = [[] for _ in range(n)]
        for b, bl in enumerate(self.blocks):
            t = bl[-1]
            if t.op == "br":
                s = t.d["s"]
            elif t.op == "switch":
                s = [t.d["d"]] + [c[1] for c in t.d["cs"]]
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self._succ[b] = seen
            for x in seen:
                self._pred[x].append(b)

    def calls(self):
        for bl in self.blocks:
            for i in bl:
                if i.op == "call":
                    yield i

    def all(self):
        for bl in self.blocks:
            yield from bl

    def __repr__(self):
        return "%s:%s" % (self.unit, self.name)


class G:
    def __init__(self, d, unit):
        self.name = d["name"]; self.internal = d["internal"]; self.const = d["const"]; self.decl = d["decl"]
        self.ty = d["ty"]; self.size = d["size"]; self.line = d.get("line", 0); self.src = d.get("src", self.name)
        self.cty = d.get("cty", ""); self.fn = d.get("fn"); self.init = d.get("init"); self.unit = unit

    @property
    def key(self):
        return (self.unit + ":" + self.name) if self.internal else self.name

    def string(self):
        """C string initialiser or None"""
        if self.const and isinstance(self.init, dict):
            if "str" in self.init:
                s = self.init["str"]
                return s.split("\0")[0]
            if self.init.get("zero"):
                return ""
        return None


class Unit:
    def __init__(self, name, d):
        self.name = name
        self.structs = d["structs"]; self.enums = d["enums"]
        self.globals = {g["name"]: G(g, name) for g in d["globals"]}
        self.funcs = {f["name"]: F(f, name) for f in d["functions"]}


class Prog:
    """one linked program: resolves names the way the linker does"""
    def __init__(self, name, units):
        self.name = name; self.units = units
        self.fext = {}; self.gext = {}
        for u in units:
            for f in u.funcs.values():
                if not f.decl and not f.internal:
                    self.fext.setdefault(f.name, f)
            for g in u.globals.values():
                if not g.decl and not g.internal:
                    self.gext.setdefault(g.name, g)
        self._unit = {u.name: u for u in units}

    def func(self, unit, name):
        """definition called by name from unit, or None if external"""
        u = self._unit.get(unit)
        if u is not None:
            f = u.funcs.get(name)
            if f is not None and not f.decl:
                return f
        return self.fext.get(name)

    def glob(self, unit, name):
        u = self._unit.get(unit)
        if u is not None:
            g = u.globals.get(name)
            if g is not None and not g.decl:
                return g
        return self.gext.get(name)

    def funcs(self):
        for u in self.units:
            for f in u.funcs.values():
                if not f.decl:
                    yield f


def inline_new(u, t, known, root):
    """functions of a unit that data/functions.txt does not know are put back where they are called, so that a piece of code
    moved into a function of its own is judged as if it stood in place; t/b.bc is replaced"""
    class OK:
        returncode = 0
    r = sh(["llvm-nm-18", "--defined-only", "-f", "posix", t + "/b.bc"])
    if r.returncode:
        return r
    have = known.get(u)
    if not have:
        return OK
    new = set(); local = set()
    for l in r.stdout.decode().split("\n"):
        w = l.split()
        if len(w) > 1 and w[1] in "tT" and w[0] not in have and w[0] != "main":
            new.add(w[0])
            if w[1] == "t":
                local.add(w[0])
    for n in list(new - local):          # used by other units?
        pat = re.compile(r"\b%s\b" % re.escape(n)); src = os.path.join(root, "src")
        for d, _, fs in os.walk(src):
            for f in fs:
                q = os.path.join(d, f)
                if n in new and f.endswith(".c") and os.path.relpath(q, src) != u and pat.search(open(q, errors="replace").read()):
                    new.discard(n)
    if not new:
        return OK
    r = sh(["opt-18", "-S", t + "/b.bc", "-o", t + "/b.ll"])
    if r.returncode:
        return r
    txt = open(t + "/b.ll", errors="surrogateescape").read()
    groups = dict(re.findall(r"^attributes #(\d+) = \{(.*)\}", txt, re.M))
    lines = txt.split("\n"); callers = set(); cur = None
    name = re.compile(r'@("[^"]*"|[\w.$]+)\(')
    calls = {}; several = set(); phis = set()
    for l in lines:
        if l.startswith("define "):
            cur = name.search(l).group(1); phis = set()
        elif l.startswith("  %") and " = phi " in l:
            phis.add(l.split()[0])
        elif l.startswith("  ret ") and l.split(",")[0].split()[-1] in phis:
            several.add(cur)              # gives back what depends on the way through it
        elif cur and (" call " in l or "tail call" in l):
            m = name.search(l)
            if m and m.group(1) in new:
                calls.setdefault(cur, set()).add(m.group(1))
    for _ in new:
        several |= {f for f in new if calls.get(f, set()) & several}
    extra = {}
    for k, l in enumerate(lines):
        if not l.startswith("define "):
            continue
        n = name.search(l).group(1)
        m = re.search(r" #(\d+)", l)
        a = groups.get(m.group(1), "") if m else ""
        a = re.sub(r"\b(noinline|optnone|alwaysinline|inlinehint)\b", "", a)
        if n in new:
            a = "alwaysinline " + a
            l = l.replace("define dso_local ", "define internal ", 1)
        elif n not in calls:
            a = "noinline optnone " + a
        g = extra.setdefault(a, str(9000 + len(extra)))
        if m:
            l = l[:m.start()] + " #" + g + l[m.end():]
            lines[k] = l
    lines += ["attributes #%s = {%s}" % (g, a) for a, g in extra.items()]
    open(t + "/b.ll", "w", errors="surrogateescape").write("\n".join(lines) + "\n")
    r = sh(["opt-18", "-S", "-passes=always-inline,function(mem2reg)", t + "/b.ll", "-o", t + "/c.ll"])
    if r.returncode:
        return r
    thread = {f for f, c in calls.items() if c & several} - new
    txt = open(t + "/c.ll", errors="surrogateescape").read()
    groups = dict(re.findall(r"^attributes #(\d+) = \{(.*)\}", txt, re.M))
    lines = txt.split("\n")
    for k, l in enumerate(lines):
        if l.startswith("define "):
            m = re.search(r" #(\d+)", l)
            if m and name.search(l).group(1) not in thread and "optnone" not in groups.get(m.group(1), ""):
                lines[k] = l[:m.start()] + " noinline optnone" + l[m.start():]
    open(t + "/c.ll", "w", errors="surrogateescape").write("\n".join(lines) + "\n")
    return sh(["opt-18", "-passes=function(jump-threading)", t + "/c.ll", "-o", t + "/b.bc"])


class Repo:
    def __init__(self, extra=()):
        self.cflags = CFLAGS + list(extra)
        self.exe, toolhash = ensure_tool()
        self.root, self._tmp = source_root()
        try:
            self._load(toolhash)
        finally:
            if self._tmp:
                shutil.rmtree(self._tmp, ignore_errors=True)

    def _load(self, toolhash):
        src = os.path.join(self.root, "src")
        self.proglist, self.lib = programs(self.root)
        names = list(self.lib)
        for us in self.proglist.values():
            for u in us:
                if u not in names:
                    names.append(u)
        hh = hashlib.sha256(toolhash.encode())
        hh.update(" ".join(self.cflags).encode())
        inc = sorted(glob.glob(os.path.join(src, "include", "*.h"))) + [os.path.join(self.root, "config.h"),
               os.path.join(self.root, "version.h")] + sorted(glob.glob(os.path.join(src, "common", "cf_*.c")))
        for p in inc:
            hh.update(p[len(self.root):].encode()); hh.update(open(p, "rb").read())
        kp = os.path.join(VERIF, "data", "functions.txt")
        kt = open(kp).read() if os.path.exists(kp) else ""
        known = {}
        for l in kt.split("\n"):
            if ":" in l:
                known.setdefault(l.split(":")[0], set()).add(l.split(":")[1])
        hh.update(kt.encode())
        base = hh.hexdigest()
        cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)

        def one(u):
            p = os.path.join(src, u)
            if not os.path.exists(p):
                raise Broken("source file vanished: " + u)
            k = hashlib.sha256(base.encode() + u.encode() + open(p, "rb").read()).hexdigest()[:24]
            out = os.path.join(cdir, k + ".json")
            if not os.path.exists(out):
                with tempfile.TemporaryDirectory(prefix="sa-cc-") as t:
                    r = sh(["clang"] + self.cflags + [u, "-o", t + "/a.bc"], cwd=src)
                    if r.returncode:
                        raise Broken("does not compile: %s\n%s" % (u, r.stderr.decode()[-2000:]))
                    r = sh(["opt-18", "-passes=mem2reg", t + "/a.bc", "-o", t + "/b.bc"])
                    if r.returncode:
                        raise Broken("opt failed: %s\n%s" % (u, r.stderr.decode()[-2000:]))
                    r = inline_new(u, t, known, self.root)
                    if r.returncode:
                        raise Broken("opt failed: %s\n%s" % (u, r.stderr.decode()[-2000:]))
                    r = sh([self.exe, t + "/b.bc"])
                    if r.returncode:
                        raise Broken("irdump failed: %s\n%s" % (u, r.stderr.decode()[-2000:]))
                    tmp = out + ".tmp%d" % os.getpid()
                    open(tmp, "wb").write(r.stdout)
                    os.replace(tmp, out)
            return u, out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, names))
        self.units = {}
        for u, out in outs:
            with open(out, "rb") as f:
                self.units[u] = Unit(u, json.loads(f.read()))
        # prune stale cache
        keep = {os.path.basename(o) for _, o in outs}
        fs = glob.glob(os.path.join(cdir, "*.json"))
        if len(fs) > 800:
            for f in fs:
                if os.path.basename(f) not in keep:
                    try:
                        os.unlink(f)
                    except OSError:
                        pass
        libu = [self.units[u] for u in self.lib]
        self.progs = {p: Prog(p, [self.units[u] for u in us] + libu) for p, us in self.proglist.items()}
        self.structs = {}
        for u in self.units.values():
            for s, fs in u.structs.items():
                self.structs.setdefault(s, fs)
        self.all = Prog("*", list(self.units.values()))

    def functions(self):
        for u in self.units.values():
            for f in u.funcs.values():
                if not f.decl:
                    yield f
