#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import ctx
if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        from sa import ir
        ir.Repo(); print("ready"); sys.exit(0)
    sys.exit(ctx.main(sys.argv))
