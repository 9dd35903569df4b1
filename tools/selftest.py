"""setup_cmd: nothing to build; shows that the interpreter and the solvers are in place."""
import subprocess
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

x = z3.BitVec("x", 8)
s = z3.Solver()
s.add(x * 2 == 6, z3.UGT(x, 10))
assert s.check() == z3.sat
print("z3", z3.get_version_string())
try:
    print(subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.split("\n")[0])
except OSError:
    print("cvc5 not found (used by the thorough tier only)")
