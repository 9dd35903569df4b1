"""C19: Graph traversals visit every entity exactly once."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from props.graph import Graph, EDGES
from gemd.util import recursive_foreach, recursive_flatmap, make_index, set_uuids
from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import ProcessRun, MaterialRun
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["graphs: 15 entities, 20 writable links; every link present or absent in overlapping "
              "groups of 6 with the rest all present or all absent; single entities and containers "
              "as starting points; recursive_foreach with the function applied before and after, "
              "recursive_flatmap in one and both directions, make_index, set_uuids",
              "containers: 3 slots, each one of three entities (two of them equal), a text, a number, "
              "a link or nothing, in 14 shapes of lists, tuples, dictionaries (keys and values), "
              "tuples of unhashable content, iterables whose elements are temporary, and lists and dictionaries that contain themselves",
              "fields: all 14 classes x every field, symbolic content as in C12"],
    "thorough": ["links in groups of 9, more starting points"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "entities are told apart by identity: equal entities are each visited",
    "make_index: no two entities found have the same scope and id"]
COVERS = {"all": ["soft", "hard", "indexed", "cycle", "key", "equal", "collected twice",
                  "text results"]}


def visits(t, x, method, known, scope=None):
    """The entities of `known` visited from x, each checked to be visited once."""
    seen = []
    if method in ("first", "last"):
        def f(e):
            seen.append(e)
        r = t.attempt(recursive_foreach, x, f, apply_first=method == "first")
        t.must(r, "recursive_foreach")
    else:
        def f(e):
            seen.append(e)
            return [("one", e), ("two", e)] if e is not known[0] else []
        kw = {} if method == "default" else {"unidirectional": method == "one"}
        res = t.must(t.attempt(recursive_flatmap, x, f, **kw), "recursive_flatmap")
        want = [(k, e) for e in seen if e is not known[0] for k in ("one", "two")]
        t.check(len(res) == len(want), "number of results")
        for (k, e), (k2, e2) in zip(res, want):
            t.check(k == k2 and e is e2, "every result of every call, in order")
            t.cover("collected twice")
    for i, e in enumerate(seen):
        t.check(isinstance(e, BaseEntity), "only entities")
        t.check(any(e is k for k in known), "the entity itself")
        t.check(not any(e is y for y in seen[:i]), "visited twice")
    return seen


def h_graph(t, free, others, start, box, method):
    g = Graph(t, free, others, "all" if method == "index" else "none")
    roots = [g.node[s] for s in start]
    x = {"one": lambda: roots[0], "list": lambda: list(roots), "tuple": lambda: (roots, ()),
         "dict": lambda: {"k": roots[0], "rest": {"deep": roots[1:]}},
         "key": lambda: {roots[0]: 5, (roots[1], "x"): [roots[2:]]},
         "dup": lambda: [roots, tuple(roots)]}[box]()
    names = start[:1] if box == "one" else start
    soft = method in ("first", "last", "both", "uuids")
    want = [g.node[n] for n in g.reach(names, soft)]
    t.cover("soft" if soft else "hard")
    if method == "index":
        idx = t.must(t.attempt(make_index, x), "make_index")
        n = 0
        for e in want:
            for s, u in e.uids.items():
                t.check(idx.get(LinkByUID(s, u)) is e, "indexed")
                t.check(idx.get((s, u)) is e, "indexed as a pair")
                t.cover("indexed")
                n += 1
        t.check(len(idx) == n, "nothing else is indexed")
        return
    if method == "uuids":
        t.must(t.attempt(set_uuids, x, "mine"), "set_uuids")
        for e in g.node.values():
            t.check(list(e.uids) == (["mine"] if any(e is w for w in want) else []), "uids")
        got = [e.uids["mine"] for e in want]
        t.check(len(set(got)) == len(got), "distinct uids")
        return
    seen = visits(t, x, method, list(g.node.values()))
    t.check(len(seen) == len(want) and all(any(e is s for s in seen) for e in want),
            "everything reachable is visited")
    g.unchanged()


def cyc(a, b, c):
    x = [a]
    x.append({"deep": (x, b)})
    x.append(c)
    return x


def dcyc(a, b, c):
    x = {"p": a}
    x["self"] = [x, b, {"q": (c, x)}]
    return x


def deep(a, b, c):
    x = [a, b, c]
    for _ in range(30):
        x = [x, (x,)]
    return x


class Bag:
    """An iterable that is neither a list nor reversible."""

    def __init__(self, *xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class Fresh:
    """An iterable whose elements exist only while they are visited."""

    def __init__(self, *xs):
        self.xs = xs

    def __iter__(self):
        for x in self.xs:
            yield [x]


SHAPES = [lambda a, b, c: [a, b, c],
          lambda a, b, c: (a, (b, c)),
          lambda a, b, c: {"p": a, "q": [b], "r": {"s": c}},
          lambda a, b, c: ([a], {"q": b}, (c, [])),
          lambda a, b, c: {a: b, "other": [c]},
          lambda a, b, c: {(a, "t"): b, "u": (c, c)},
          lambda a, b, c: [({"q": a}, [b]), (c, [])],
          cyc, dcyc, deep,
          lambda a, b, c: Bag(a, [b], Bag(c)),
          lambda a, b, c: [iter([a, b]), {c: 1}.keys()],
          lambda a, b, c: [Fresh(a), Fresh(b), Fresh(c)],
          lambda a, b, c: (Fresh(a), Fresh(7), Fresh(b), Fresh(None), Fresh(c), Fresh(7, a))]
KEYED = (4, 5, 11)


def h_box(t, shape, method):
    s = t.str("s", 0, 2)
    es = [ProcessRun("same"), ProcessRun("same"), MaterialRun("m")]
    pool = es + [s, 7, LinkByUID("a", s), None]
    kinds = [pool[t.pick("s0", 7)], pool[t.pick("s1", 7)], pool[t.pick("s2", 4)]]
    if t.flag("linked"):
        es[2].process = es[1]
        t.cover("equal")
    x = SHAPES[shape](*kinds)
    seen = visits(t, x, method, es)
    want = [e for e in es if any(e is k for k in kinds)]
    if es[2].process is es[1]:
        if es[2] in want and not any(e is es[1] for e in want):
            want.append(es[1])
        if method in ("first", "last", "both") and any(e is es[1] for e in want) and \
                not any(e is es[2] for e in want):
            want.append(es[2])
    t.check(len(seen) == len(want) and all(any(e is w for w in seen) for e in want),
            "everything reachable is visited")
    if shape in (7, 8):
        t.cover("cycle")
    if shape in KEYED and isinstance(kinds[0], BaseEntity):
        t.cover("key")


def h_text(t):
    """Results may be any iterable; texts and bytes are leaves, wherever they stand."""
    s = t.str("s", 0, 3)
    e = ProcessRun("p", notes=s, tags=[s])
    for x in (e, [e, s], {s: e}, (b"xy", e), [bytearray(b"ab"), {b"k": e}]):
        res = t.must(t.attempt(recursive_flatmap, x, lambda y: (k for k in (s, s))), "flatmap")
        t.check(len(res) == 2 and t.all(res[0] == s, res[1] == s), "results of a generator")
        res = t.must(t.attempt(recursive_flatmap, x, lambda y: {"k": 1}), "flatmap")
        t.check(res == ["k"], "results of a dictionary")
        n = []
        t.must(t.attempt(recursive_foreach, x, n.append), "foreach")
        t.check(len(n) == 1 and n[0] is e, "one visit")
    t.cover("text results")


def h_field(t, kind, field):
    cls, req, fields = cat.CLASSES[kind]
    v, d = fields[field](t, "x")
    kw = dict(req)
    kw[field] = v
    x = cls(uids={"z": "me"}, **kw)
    for method in ("first", "last", "one", "both"):
        seen = []

        def f(e):
            seen.append(e)
            return [e]
        if method in ("first", "last"):
            t.must(t.attempt(recursive_foreach, x, f, apply_first=method == "first"), "foreach")
        else:
            r = t.must(t.attempt(recursive_flatmap, x, f, unidirectional=method == "one"), "flatmap")
            t.check(len(r) == len(seen), "results")
        t.check(len(seen) == 1 + entities(d), "one visit for each entity: %s.%s" % (kind, field))
        t.check(all(not (a is b) for i, a in enumerate(seen) for b in seen[:i]), "each once")
        t.check(any(e is x for e in seen), "the object itself")


def entities(d):
    k = d[0]
    if k == "ent":
        return 1
    if k == "obj":
        return sum(entities(v) for v in d[2].values())
    if k in ("seq", "ms", "set"):
        return sum(entities(v) for v in d[1])
    return 0


METHODS = ("first", "last", "one", "both", "default", "index", "uuids")


def cases(tier):
    out = []
    th = tier == "thorough"
    size = 9 if th else 6
    starts = [(["mr2"], "one"), (["ps"], "one"), (["me", "tpl"], "dict"),
              (["pr", "mr", "ir", "me", "pr2", "mr2", "is", "ms", "ps"], "tuple"),
              (["cnd", "ir"], "dup"), (["is"], "one"), (["pr", "me", "ms"], "key")]
    n = 0
    for i in range(0, len(EDGES), 3 if th else 5):
        free = [j % len(EDGES) for j in range(i, i + size)]
        for st, box in starts:
            for others in ("on", "off"):
                n += 1
                for k, m in enumerate(METHODS):
                    if th or (n + k) % 3 == 0:
                        out.append(case("h_graph", free=free, others=others, start=st, box=box,
                                        method=m, weight=3))
    for i in range(len(SHAPES)):
        for m in METHODS[:4]:
            out.append(case("h_box", shape=i, method=m))
    for kind, (_, _, fields) in cat.CLASSES.items():
        for f in fields:
            out.append(case("h_field", kind=kind, field=f))
    out.append(case("h_text"))
    return out
