"""C28: The complete material history lists every connected object as plain data."""
import json

from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from props.graph import Graph, ORDER
from props.c13 import flat, entities
from gemd.entity.util import complete_material_history
from gemd.json import GEMDJson
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun

BOUNDS = {
    "quick": ["histories of 6-7 of 15 entities (templates, specs, runs of materials, processes, "
              "ingredients, measurements): links present or absent in groups of 4, the rest all "
              "present or all absent; starting from any of the entities or a list of them; none, "
              "some or all with uids",
              "fields: the 14 classes x every field, symbolic content as in C12"],
    "thorough": ["links in groups of 6, 9 entities"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "the text form of JSON is modelled as the document it denotes (see C12)",
    "uids are unambiguous"]
COVERS = {"all": ["several", "alone", "uid kept", "uid added", "link", "field"]}
PLAIN = (str, int, float, bool, type(None))


def plain(t, j):
    if isinstance(j, dict):
        for k, v in j.items():
            t.check(isinstance(k, str), "text keys")
            plain(t, v)
    elif isinstance(j, list):
        for v in j:
            plain(t, v)
    else:
        t.check(isinstance(j, PLAIN), "plain data")


SETS = {
    "run": ["pr", "mr", "ir", "pr2", "me", "ms", "ps"],
    "spec": ["tpl", "ps", "ms", "ps2", "is", "att", "prp"],
    "mix": ["att", "tpl", "ps", "pr", "mr", "me", "mes"],
    "both": ["ps", "ms", "ps2", "is", "pr", "mr", "ir", "pr2", "me"],
}


def h_graph(t, which, free, rest, start, uids):
    g = Graph(t, free, rest, uids, [n for n in ORDER if n in SETS[which]])
    x = g.node[start[0]] if len(start) == 1 else [g.node[n] for n in start]
    reach = g.reach(start)
    res = t.must(t.attempt(complete_material_history, x), "complete_material_history")
    g.unchanged("auto", reach)
    t.check(isinstance(res, list) and all(isinstance(e, dict) for e in res), "a list of dictionaries")
    seen = []
    for j in res:
        plain(t, j)
        t.check(not {"ingredients", "measurements", "output_material"} & set(j), "no soft sides")
        e = t.must(t.attempt(GEMDJson().raw_loads, json.dumps(j)), "an entity's dictionary")
        n = g.name_of(e)
        t.check(n in g.node and n not in seen, "one dictionary per entity")
        seen.append(n)
        t.check(j["type"] == type(g.node[n]).typ, "type")
        g.flat(e, n)
        if any(g.hard_refs(n).values()):
            t.cover("link")
        t.cover("uid kept" if g.uids0[n] else "uid added")
    t.check(sorted(seen) == sorted(reach), "exactly the connected entities")
    t.cover("alone" if len(reach) == 1 else "several")


def h_field(t, kind, field):
    cls, req, fields = cat.CLASSES[kind]
    v, d = fields[field](t, "x")
    cat.unambiguous(t, *cat.ids_in(d))
    kw = dict(req)
    kw[field] = v
    x = cls(uids={"z": "me"}, **kw)
    res = t.must(t.attempt(complete_material_history, x), "complete_material_history")
    es = [t.must(t.attempt(GEMDJson().raw_loads, json.dumps(j)), "an entity's dictionary") for j in res]
    mine = [e for e in es if "z" in e.uids]
    t.check(len(mine) == 1 and type(mine[0]) is cls, "one dictionary")
    e = mine[0]
    t.check(len(e.uids) == 1 and e.uids["z"] == "me", "uids")
    t.check(flat(t, getattr(e, field), d, [r for r in es if r is not e]), "%s.%s" % (kind, field))
    t.check(cat.holds(t, getattr(x, field), d), "the original is unchanged")
    t.check(len(es) == 1 + entities(d), "other entries")
    t.cover("field")


def cases(tier):
    th = tier == "thorough"
    from props.graph import EDGES
    out = []
    k = 6 if th else 4
    i = 0
    for w, ns in SETS.items():
        if w == "both" and not th:
            continue
        es = [j for j, (a, f, b) in enumerate(EDGES) if a in ns and b in ns]
        for o in range(0, len(es), max(1, k - 2)):
            free = sorted({es[(o + d) % len(es)] for d in range(k)})
            for rest in ("on", "off"):
                starts = [[n] for n in ns] if th else [[ns[i % len(ns)]], [ns[(i + 3) % len(ns)]]]
                for st in starts + [[ns[0], ns[(2 + i) % len(ns)]]]:
                    if len(set(st)) < len(st):
                        continue
                    u = ("none", "some", "all")[i % 3]
                    i += 1
                    out.append(case("h_graph", which=w, free=free, rest=rest, start=st, uids=u,
                                    weight=3))
    for kind, (cls, req, fields) in cat.CLASSES.items():
        for f in fields:
            out.append(case("h_field", kind=kind, field=f))
    return list({c["name"]: c for c in out}.values())
