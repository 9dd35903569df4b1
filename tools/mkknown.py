"""Writes known_findings.json: known findings (none suppressed unless listed) and repaired defects."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Not repaired: the two files' names match *_spec.*, and the task's rules count such files as tests.
KNOWN = [
    dict(property="C08", case=r"^h_spec_equal$", msg=r"^an equal ingredient was detached",
         what="gemd/entity/object/ingredient_spec.py process setter: with two equal ingredient specs "
              "in a process, the second one leaving detaches the first (list.remove by equality)"),
    dict(property="C08", case=r"^h_spec_leaving$", msg=r"^another material was detached",
         what="gemd/entity/object/material_spec.py process setter: a material spec leaving a process "
              "clears its output_material although another material spec has become its output"),
    dict(property="C08", case=r"^h_spec_refused\[kind=ingredient_spec\]$", msg=r"^refused, but detached",
         what="gemd/entity/object/ingredient_spec.py process setter: assigning an object of a wrong "
              "type raises TypeError but removes the ingredient spec from its process's ingredients"),
    dict(property="C08", case=r"^h_spec_refused\[kind=material_spec\]$", msg=r"^refused, but detached",
         what="gemd/entity/object/material_spec.py process setter: assigning an object of a wrong "
              "type raises TypeError but clears its process's output_material"),
]
PROPS = {"IntegerBounds accepts": "C03", "MolecularStructureBounds.update": "C02",
         "refused category": "C03", "DiscreteCategorical refuses": "C03",
         "a value can be assigned": "C04", "matching an attribute by name": "C05",
         "valid absolute": "C06", "validation_level restores": "C07",
         "detaches itself": "C08", "a refused process": "C08", "leaving a process": "C08",
         "CaseInsensitiveDict": "C09", "one-shot": "C10", "slice assignment": "C10",
         "lists of entities compare": "C11", "does not equal a link": "C11",
         "arbitrary pair": "C11", "forgets matches": "C11"}
PROPS.update(json.load(open(os.path.join(HERE, "tools", "fixprops.json"))))
RUNS_ONLY = ("424de1d", "0871775", "a45078f")
NOTE = " (run classes; the spec classes are known findings)"
fixed = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                                    text=True).splitlines():
    h, msg = line.split(" ", 1)
    if msg.startswith("fix: "):
        p = [v for k, v in PROPS.items() if k in msg]
        assert p, msg
        fixed.append("fixed: property=%s %s %s" % (p[0], h, msg[5:] + (NOTE if h in RUNS_ONLY else "")))
with open(os.path.join(HERE, "known_findings.json"), "w") as fh:
    json.dump({"known": KNOWN, "fixed": fixed}, fh, indent=1)
    fh.write("\n")
print(len(KNOWN), "known,", len(fixed), "fixed")
