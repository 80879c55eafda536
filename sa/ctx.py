"""What every check shares: violations, known findings, floors, evidence."""
import json, os, sys, time
from . import ir

VERIF = ir.VERIF


class Ctx:
    def __init__(self, pid, level="other"):
        self.pid = pid; self.level = level
        self.t0 = time.time()
        self.viol = []            # (key, text, detail)
        self.cov = {}
        self.rules = []
        self.samples = []
        self.assume = []
        self.known = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        p = os.path.join(VERIF, "known_findings.txt")
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                k, _, what = rest.partition(" -- ")
                self.known.append((k.strip(), what.strip()))
        self._repo = None; self.cflags = ()
        self._seen = set()

    @property
    def repo(self):
        if self._repo is None:
            self._repo = ir.Repo(self.cflags)
            self.cov["units"] = len(self._repo.units)
            self.cov["functions"] = sum(1 for _ in self._repo.functions())
            self.cov["programs"] = len(self._repo.progs)
        return self._repo

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, text):
        self.assume.append(text)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def floor(self, name, n, least):
        self.cov[name] = n
        if n < least:
            raise ir.Broken("%s: %s is %d, expected at least %d: the rule no longer sees the code it is about" % (self.pid, name, n, least))

    def violation(self, key, where, text, trace=None):
        """key identifies the violation; where is file:line (function)"""
        if (key, where) in self._seen:
            return
        self._seen.add((key, where))
        self.viol.append((key, where, text, trace or []))

    def finish(self):
        pid = self.pid
        new, old = [], []
        for v in self.viol:
            k = [w for kk, w in self.known if kk == v[0]]
            (old if k else new).append(v)
        for kk, what in self.known:
            if any(v[0] == kk for v in old):
                print("KNOWN-FINDING: property=%s %s [%s]" % (pid, what, kk))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        if self._repo is not None:
            cov["rule"] = " ".join(self.rules)
        cov["explanation"] = " ".join(self.rules)
        if self.samples:
            cov["samples"] = self.samples
        cov["known_findings_seen"] = len(old)
        ev = {"property": pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, int))))
        if new:
            rp = os.path.join(VERIF, "evidence", pid + ".report.txt")
            with open(rp, "w") as f:
                for key, where, text, tr in new:
                    f.write("%s: %s\n  key: %s\n" % (where, text, key))
                    if tr:
                        f.write("  path: %s\n" % " ".join(tr))
            for key, where, text, tr in new[:40]:
                print("  %s: %s [%s]" % (where, text, key))
                if tr:
                    print("      path: %s" % " ".join(tr[-14:]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("%s: holds" % pid)
        return 0


def where(f, line):
    return "src/%s:%d (%s)" % (f.unit, line, f.name)


def main(argv):
    pid = argv[1]
    import importlib
    ctx = None
    try:
        m = importlib.import_module("checks." + pid.lower())
        ctx = Ctx(pid, getattr(m, "LEVEL", "other"))
        m.run(ctx)
        return ctx.finish()
    except ir.Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        if ctx is not None and any(not any(kk == v[0] for kk, _ in ctx.known) for v in ctx.viol):
            return ctx.finish()       # what was found before stands
        return 3
