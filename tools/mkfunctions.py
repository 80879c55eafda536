"""data/functions.txt: the functions every unit had when the rules were written (anything else is put back where it is called, sa/ir.py)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import ir
p = os.path.join(ir.VERIF, "data", "functions.txt")
if os.path.exists(p):
    os.unlink(p)
R = ir.Repo()
out = ["%s:%s\n" % (u.name, f.name) for u in R.units.values() for f in sorted(u.funcs.values(), key=lambda f: f.name) if not f.decl]
open(p, "w").write("".join(out))
