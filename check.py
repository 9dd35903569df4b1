#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--case REGEX] [-v]: decide one property."""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--case")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
from sx import runner  # noqa: E402
sys.exit(runner.main(a.property, a.tier, a.case, a.v))
