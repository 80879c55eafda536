"""Shared by C16 and C17: the taint run over every program, with what counts as text from outside."""
import multiprocessing
from sa.taint import Taint, SHELL, PATH

READS = ("fgets", "fread", "getline", "read", "fscanf", "getdelim", "recv", "getc", "fgetc", "_IO_getc", "getchar", "readdir")
# units whose own reads are of the system's configuration and data bases, or of the news server's list of articles
TRUST = {"common/config.c", "common/areasbbs.c", "common/flo.c", "common/active.c", "common/sequencer.c", "common/lock.c", "common/wildmat.c",
         "common/rematch.c", "common/dbz.c", "toss/history.c", "toss/ftnexpire.c", "toss/ftnroute.c", "util/sumcrc.c", "common/crc32.c",
         "gate/rfc2ftn.c"}
SHELLS = {"system": [(0, SHELL, "shell")], "popen": [(0, SHELL, "shell")]}
PATHS = {n: [(0, PATH, "path")] for n in ("fopen", "freopen", "open", "open64", "fopen64", "unlink", "remove", "mkdir", "rmdir", "opendir", "creat", "truncate", "chmod", "utime")}
PATHS.update({n: [(0, PATH, "path"), (1, PATH, "path")] for n in ("rename", "link", "symlink")})


def source(f, i):
    return None if f.unit in TRUST else "text read in %s" % f.unit


_W = {}


def _one(pn):
    P = _W["progs"][pn]
    T = Taint(P, _W["sinks"], source)
    F = T.run()
    if getattr(T, "capped", False):
        raise RuntimeError("%s: no fixed point" % pn)
    funcs = {f.key: f for f in P.funcs()}
    calls = reads = sinks = 0
    rows = []
    for f in funcs.values():
        for i in f.calls():
            calls += 1
            if i.callee in READS and f.unit not in TRUST:
                reads += 1
            if i.callee in _W["sinks"]:
                sinks += 1
                rows.append((f.key, f.name, f.unit, i.line, i.callee))
    out = []
    for (k, src), (fname,) in F.items():
        f = funcs.get(k[2])
        out.append((k, src, f.name if f is not None else str(k[2]), f.unit if f is not None else "", fname))
    return pn, out, len(funcs), calls, reads, rows, T.rounds


def analyse(ctx, sinks):
    R = ctx.repo
    _W["progs"] = R.progs; _W["sinks"] = sinks
    size = {pn: sum(len(f.ins) for f in P.funcs()) for pn, P in R.progs.items()}
    names = sorted(R.progs, key=lambda n: -size[n])
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(_one, names, chunksize=1)
