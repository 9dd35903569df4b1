"""tools/prof.py PROP CASE_SUBSTRING: profile one case in this process."""
import cProfile
import os
import pstats
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import runner  # noqa: E402

mod = runner.load_symbolic(sys.argv[1])
case = [c for c in mod.cases("quick") if sys.argv[2] in c["name"]][0]
cfg = dict(runner.TIERS["quick"], deadline=time.time() + 600)
sys.setrecursionlimit(8000)
p = cProfile.Profile()
t0 = time.time()
p.enable()
r = runner.run_case(mod, case, cfg, 1)
p.disable()
print(case["name"], "paths", r["paths"], "wall", time.time() - t0, "solver", r["solver_s"], r["incomplete"])
pstats.Stats(p).sort_stats(sys.argv[3] if len(sys.argv) > 3 else "tottime").print_stats(30)
