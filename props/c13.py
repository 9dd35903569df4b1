"""C13: Flattening yields every reachable entity once, linked and in write order."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from props.graph import Graph, EDGES
from gemd.util import flatten
from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import ProcessRun, ProcessSpec, MaterialRun
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["graphs: 15 entities, 20 writable links (plus the soft sides they imply); every link "
              "present or absent in overlapping groups of 6 with the rest all present or all "
              "absent; starting from single entities and containers; no, some or all entities with "
              "uids (scopes of both casings); with and without a scope",
              "fields: all 14 classes x every field, symbolic content as in C12",
              "two entities with up to two symbolic uids each, shared or not, in 4 containers"],
    "thorough": ["links in groups of 9, more starting points"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "a uid is shared when scope (as written) and id are the same"]
COVERS = {"all": ["refused", "uid added", "link", "one of two", "both", "ordered"]}


def h_graph(t, free, others, start, uids, scope, box):
    g = Graph(t, free, others, uids)
    roots = [g.node[s] for s in start]
    x = {"one": lambda: roots[0], "list": lambda: list(roots), "tuple": lambda: (roots, ()),
         "dict": lambda: {"k": roots[0], "rest": {"deep": roots[1:]}},
         "dup": lambda: [roots, tuple(roots)]}[box]()
    names = start[:1] if box == "one" else start
    reach = g.reach(names)
    out = t.attempt(flatten, x, scope) if scope is not None else t.attempt(flatten, x)
    if scope is None and not all(g.uids0[n] for n in reach):
        t.must_raise(out, ValueError, "entity without uid and no scope")
        g.unchanged(None)
        t.cover("refused")
        return
    res = t.must(out, "flatten")
    g.unchanged(scope, reach)
    t.check(isinstance(res, list) and all(isinstance(e, BaseEntity) for e in res), "a list of entities")
    pos = {}
    for i, e in enumerate(res):
        n = g.name_of(e)
        t.check(n not in pos, "one entry per entity")
        pos[n] = i
        t.check(n in g.node, "unknown entry")
        g.flat(e, n)
        if not g.uids0[n]:
            t.cover("uid added")
    t.check(sorted(pos) == sorted(reach), "exactly the reachable entities")
    for n in pos:
        for bs in g.hard_refs(n).values():
            for b in bs:
                t.check(pos[b] < pos[n], "%s comes before %s" % (b, n))
                t.cover("ordered")


def h_field(t, kind, field):
    cls, req, fields = cat.CLASSES[kind]
    v, d = fields[field](t, "x")
    cat.unambiguous(t, *cat.ids_in(d))
    kw = dict(req)
    kw[field] = v
    x = cls(uids={"z": "me"}, **kw)
    res = t.must(t.attempt(flatten, x, "auto"), "flatten")
    mine = [e for e in res if "z" in e.uids]
    t.check(len(mine) == 1 and type(mine[0]) is cls and mine[0] is not x, "one entry")
    e = mine[0]
    t.check(len(e.uids) == 1 and e.uids["z"] == "me", "uids")
    t.check(flat(t, getattr(e, field), d, [r for r in res if r is not e]), "%s.%s" % (kind, field))
    t.check(cat.holds(t, getattr(x, field), d), "the original is unchanged")
    t.check(len(res) == 1 + entities(d), "other entries")


def entities(d):
    k = d[0]
    if k == "ent":
        return 1
    if k == "obj":
        return sum(entities(v) for v in d[2].values())
    if k in ("seq", "ms", "set"):
        return sum(entities(v) for v in d[1])
    return 0


def flat(t, got, d, others):
    """got is what d describes, with entities replaced by links to one of the other entries."""
    if d[0] == "ent":
        t.cover("link")
        if type(got) is not LinkByUID:
            return False
        if d[2]:
            return t.all(got.scope == "a", got.id == d[2]["a"])
        return got.scope == "auto" and any(e.uids.get("auto") == got.id for e in others)
    if d[0] == "obj":
        return type(got).typ == d[1] and t.all(*[flat(t, getattr(got, f), v, others)
                                                  for f, v in d[2].items()])
    if d[0] in ("seq", "ms"):
        return len(got) == len(d[1]) and t.all(*[flat(t, x, y, others) for x, y in zip(got, d[1])])
    return cat.holds(t, got, d)


def h_shared(t, box):
    uids = []
    for i in range(2):
        u = {}
        for s in ("a", "b"):
            if t.flag("has%d%s" % (i, s)):
                u[s] = t.str("u%d%s" % (i, s), 0, 1)
        uids.append(u)
    es = [ProcessRun("e%d" % i, uids=dict(u)) for i, u in enumerate(uids)]
    x = {"list": lambda: list(es), "nest": lambda: [[es[0]], {"k": (es[1],)}],
         "dict": lambda: {"p": es[0], "q": es[1]},
         "link": lambda: [MaterialRun("m0", process=es[0], uids={"m": "0"}),
                          MaterialRun("m1", process=es[1], uids={"m": "1"})]}[box]()
    res = t.must(t.attempt(flatten, x, "auto"), "flatten")
    res = [e for e in res if type(e) is ProcessRun]
    same = t.is_true(t.any(*[t.all(u == v) for s, u in uids[0].items()
                             for s2, v in uids[1].items() if s == s2]))
    t.check(len(res) == (1 if same else 2), "entities sharing a uid count as one")
    if same:
        t.check(res[0].name in ("e0", "e1"), "one of the two")
        t.cover("one of two")
    else:
        t.check(sorted(e.name for e in res) == ["e0", "e1"], "both")
        t.cover("both")


def h_empty(t):
    s = t.str("s", 0, 1)
    for x in ([], {}, (), None, s, 5, [s, {s: [s]}], LinkByUID("a", s), [LinkByUID(s, "b")]):
        res = t.must(t.attempt(flatten, x, "auto"), "flatten")
        t.check(len(res) == 0, "nothing to flatten")


def cases(tier):
    out = []
    th = tier == "thorough"
    size = 9 if th else 6
    starts = [(["mr2"], "one"), (["ps"], "one"), (["me", "tpl"], "dict"),
              (["pr", "mr", "ir", "me", "pr2", "mr2", "is", "ms", "ps"], "tuple"),
              (["cnd", "ir"], "dup"), (["is"], "one")]
    for i in range(0, len(EDGES), 3 if th else 5):
        free = [j % len(EDGES) for j in range(i, i + size)]
        for k, (st, box) in enumerate(starts):
            for others in ("on", "off"):
                for uids, scope in (("none", "auto"), ("some", "A"), ("all", None)) \
                        if th or (k + i) % 2 else (("some", None), ("some", "mine")):
                    out.append(case("h_graph", free=free, others=others, start=st, uids=uids,
                                    scope=scope, box=box, weight=3))
    for kind, (_, _, fields) in cat.CLASSES.items():
        for f in fields:
            out.append(case("h_field", kind=kind, field=f))
    for b in ("list", "nest", "dict", "link"):
        out.append(case("h_shared", box=b))
    out.append(case("h_empty"))
    return out
