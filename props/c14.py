"""C14: Substituting links and substituting objects are inverse."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from props.graph import Graph, EDGES
from gemd.util import substitute_links, substitute_objects, make_index
from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                IngredientSpec, MeasurementRun)
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    ProcessTemplate
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.value import NominalInteger
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["nests: 3 slots, each an entity (of two, with 1-3 symbolic uids), a link (symbolic "
              "scope and id, in the index or not), a scalar (1, True, 1.0, text) or a pair that looks "
              "like a link, in 9 shapes of lists, tuples and dictionaries (keys and values); both "
              "modes; requested scope None, present, present on one, absent; fallback on and off",
              "objects: every class and field (as in C12) as the argument, both modes, there and back",
              "graphs: 15 entities, links in overlapping groups of 6, each entity as the argument"],
    "thorough": ["links in groups of 9; all shapes with all pools"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "scopes are requested as they are written in the uids; an index is keyed by scope as written",
    "uids are unambiguous; no container contains itself",
    "without inplace, an entity that replaces a link is a copy with its own links substituted"]
COVERS = {"all": ["linked", "objects", "refused", "kept link", "scalar", "key", "pair"]}

SHAPES = [lambda a, b, c: [a, b, c],
          lambda a, b, c: {"p": a, "q": [b], "r": {"s": c}},
          lambda a, b, c: [(a, b), c],
          lambda a, b, c: ([a], {"q": b}, (c, [])),
          lambda a, b, c: {a: b, "k": [c]},
          lambda a, b, c: [({"q": a}, [b]), (c, [])],
          lambda a, b, c: [{"p": (a, b)}, {"p": (c, b)}],
          lambda a, b, c: ((a,), (b,), (c, (a, b))),
          lambda a, b, c: {(a, "t"): b, "u": (c, c)}]
KEYED = (4, 8)


def walk(t, x, y, leaf, seen=None):
    """Compare y with x, leaf by leaf; same shapes."""
    if isinstance(x, dict):
        t.check(isinstance(y, dict) and len(x) == len(y), "dictionary")
        ky = list(y.items())
        for k, v in x.items():
            if isinstance(k, str):
                hit = [(k2, w) for k2, w in ky if isinstance(k2, str) and k2 == k]
            else:
                hit = [(k2, w) for k2, w in ky if not isinstance(k2, str)]
            t.check(len(hit) == 1, "key")
            if not isinstance(k, str):
                walk(t, k, hit[0][0], leaf)
                t.cover("key")
            walk(t, v, hit[0][1], leaf)
    elif isinstance(x, (list, tuple)):
        t.check(isinstance(y, type(x)) and len(x) == len(y), "list")
        for a, b in zip(x, y):
            walk(t, a, b, leaf)
    else:
        leaf(x, y)


def freeze(x):
    """The structure with its leaves (by identity), to see that an argument is unchanged."""
    if isinstance(x, dict):
        return ("d", id(x), [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [freeze(e) for e in x])
    return id(x)


def pools(t, n):
    ents = []
    for i in range(2):
        u = {"a": t.str("ua%d" % i, 1, 1)}
        if n > 1 and i == 0:
            u["b"] = t.str("ub0", 1, 1)
            if n > 2:
                u["c"] = t.str("uc0", 1, 1)
        ents.append(ProcessRun("e%d" % i, uids=u))
    t.assume(ents[0].uids["a"] != ents[1].uids["a"])
    return ents


def h_links(t, shape, inplace, scope):
    es = pools(t, 2)
    if scope == "second-b":
        es[1].add_uid("b", "fixed")
        t.assume(es[0].uids["b"] != "fixed")
    want = {"none": None, "a": "a", "b": "b", "second-b": "b", "absent": "zz"}[scope]
    fall = t.flag("fallback")
    kept = LinkByUID("a", t.str("kept", 1, 1))
    pool = [es[0], es[1], kept, 1, True, "text"]
    kinds = [pool[t.pick("s0", 2 if shape in KEYED else 6)], pool[t.pick("s1", 6)],
             pool[t.pick("s2", 3)]]
    x = SHAPES[shape](*kinds)
    before = freeze(x)
    orig = SHAPES[shape](*kinds)
    missing = [e for e in es if want is not None and want not in e.uids and
               any(k is e for k in kinds)]
    out = t.attempt(substitute_links, x, scope=want, allow_fallback=fall, inplace=inplace)
    for i, e in enumerate(es):
        t.check(len(e.uids) == (2 if i == 0 or scope == "second-b" else 1), "uids unchanged")
    if missing and not fall:
        t.must_raise(out, ValueError, "requested scope missing")
        t.cover("refused")
        if not inplace:
            t.check(freeze(x) == before, "argument unchanged")
        return
    y = t.must(out, "substitute_links")
    if inplace:
        t.check(y is x or isinstance(x, tuple), "in place")
    else:
        t.check(freeze(x) == before, "argument unchanged")

    def leaf(a, b):
        if isinstance(a, ProcessRun):
            t.check(type(b) is LinkByUID, "entity replaced")
            u = dict(a.uids)
            t.check(b.scope in list(u), "a scope of the entity")
            t.check(b.id == u[b.scope], "its id")
            if want is not None and want in u:
                t.check(b.scope == want, "the requested scope")
            t.cover("linked")
        elif isinstance(a, LinkByUID):
            t.check(type(b) is LinkByUID and b.scope == a.scope and b.id == a.id, "link kept")
        else:
            t.check(type(a) is type(b) and a == b, "other content")
            t.cover("scalar")
    walk(t, orig, y, leaf)
    # and back
    back = t.must(t.attempt(substitute_objects, y, make_index(es), inplace=inplace), "back")

    def again(a, b):
        if isinstance(a, ProcessRun):
            t.check(type(b) is ProcessRun and b.name == a.name and (b is a or not inplace), "undone")
        elif isinstance(a, LinkByUID):
            hit = [e for e in es if e.uids["a"] == a.id]
            t.check(hit and type(b) is ProcessRun or type(b) is LinkByUID and b.id == a.id, "link")
        else:
            t.check(type(a) is type(b) and a == b, "other content")
    walk(t, orig, back, again)


def h_objects(t, shape, inplace, tuples):
    """Links with symbolic scope and id, some of which are in the index."""
    es = pools(t, 3)
    s, i = t.choice("scope", ["a", "b", "c", "d"]), t.str("id", 1, 1)
    link, twin = LinkByUID(s, i), LinkByUID(s, i)
    pool = [link, twin, (s, i), es[0], True, 1]
    kinds = [pool[t.pick("s0", 2 if shape in KEYED else 6)], pool[t.pick("s1", 6)],
             pool[t.pick("s2", 3)]]
    x = SHAPES[shape](*kinds)
    orig = SHAPES[shape](*kinds)
    before = freeze(x)
    index = make_index(es)
    t.check(len(index) == 4, "index")
    if tuples:
        index = {(k.scope, k.id): v for k, v in index.items()}
    hits = [e for e in es if any(t.is_true(t.all(s2 == s, u == i)) for s2, u in e.uids.items())]
    y = t.must(t.attempt(substitute_objects, x, index, inplace=inplace), "substitute_objects")
    if inplace:
        t.check(y is x or isinstance(x, tuple), "in place")
    else:
        t.check(freeze(x) == before, "argument unchanged")

    def leaf(a, b):
        if isinstance(a, LinkByUID):
            if hits:
                t.check(type(b) is ProcessRun and b.name == hits[0].name, "replaced")
                t.check(b is hits[0] or not inplace, "by the entity itself")
                t.cover("objects")
            else:
                t.check(type(b) is LinkByUID and b.scope == s and b.id == i, "kept")
                t.cover("kept link")
        elif isinstance(a, ProcessRun):
            t.check(type(b) is ProcessRun and b.name == a.name, "entity kept")
            t.check(b is a or not inplace, "entity kept")
        else:
            t.check(type(a) is type(b) and a == b, "other content")
            t.cover("pair")
    walk(t, orig, y, leaf)


def same_ref(t, got, d, linked):
    """got is as described, entities being links (linked) or entities."""
    if d[0] == "ent":
        if linked:
            return type(got) is LinkByUID and t.all(got.scope == "a", got.id == d[2]["a"])
        return isinstance(got, BaseEntity) and cat.holds(t, got, d)
    if d[0] == "obj":
        return type(got).typ == d[1] and t.all(*[same_ref(t, getattr(got, f), v, linked)
                                                  for f, v in d[2].items()])
    if d[0] in ("seq", "ms"):
        return len(got) == len(d[1]) and t.all(*[same_ref(t, x, y, linked)
                                                 for x, y in zip(got, d[1])])
    return cat.holds(t, got, d)


def no_uid(d):
    if d[0] == "ent":
        return not d[2]
    if d[0] == "obj":
        return any(no_uid(v) for v in d[2].values())
    if d[0] in ("seq", "ms", "set"):
        return any(no_uid(v) for v in d[1])
    return False


def entities_in(x):
    """The entities in a field's content."""
    if isinstance(x, BaseEntity):
        return [x]
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in entities_in(y)]
    if isinstance(x, PropertyAndConditions):
        return entities_in([x.property] + list(x.conditions))
    if isinstance(x, (Property, Condition, Parameter)):
        return entities_in(x.template)
    return []


def h_field(t, kind, field, inplace, vary=None):
    cls, req, fields = cat.CLASSES[kind]
    gen = fields[field]
    if vary:
        gen = cat.g_pacs(vary, 1) if kind == "material_spec" else cat.g_attrs(
            {"properties": "property", "conditions": "condition", "parameters": "parameter"}[field],
            vary, 1)
    v, d = gen(t, "x")
    cat.unambiguous(t, *cat.ids_in(d))
    kw = dict(req)
    kw[field] = v
    u = t.str("u", 1, 1)
    x = cls(uids={"z": u}, **kw)
    ents = entities_in(v)
    out = t.attempt(substitute_links, x, inplace=inplace)
    if no_uid(d):
        t.must_raise(out, ValueError, "entity without uids")
        t.cover("refused")
        return
    y = t.must(out, "substitute_links")
    t.check((y is x) == bool(inplace), "copy or argument")
    t.check(type(y) is cls and len(y.uids) == 1 and y.uids["z"] == u, "own uids")
    t.check(same_ref(t, getattr(y, field), d, True), "%s.%s linked" % (kind, field))
    if not inplace:
        t.check(same_ref(t, getattr(x, field), d, False), "argument unchanged")
    z = t.must(t.attempt(substitute_objects, y, make_index(ents), inplace=inplace), "objects")
    t.check((z is y) == bool(inplace), "copy or argument")
    t.check(type(z) is cls and len(z.uids) == 1 and z.uids["z"] == u, "own uids")
    t.check(same_ref(t, getattr(z, field), d, False), "%s.%s undone" % (kind, field))
    if not inplace:
        t.check(same_ref(t, getattr(y, field), d, True), "argument unchanged")
    if ents:
        t.cover("linked")


def h_graph(t, free, others, at, inplace):
    g = Graph(t, free, others, "all")
    x = g.node[at]
    y = t.must(t.attempt(substitute_links, x, inplace=inplace), "substitute_links")
    t.check((y is x) == inplace, "copy or argument")
    if inplace:
        got, want = g.refs(x), g.hard_refs(at)
        for f in want:
            t.check(f in got and len(got[f]) == len(want[f]) and
                    all(g.names(v, b) for v, b in zip(got[f], want[f])), "links of " + f)
    else:
        g.flat(y, at)
        g.unchanged(None)
    index = {}
    for n, e in g.node.items():
        if n != at:
            for s, u in e.uids.items():
                index[(s, u)] = e
    z = t.must(t.attempt(substitute_objects, y, index, inplace=inplace), "substitute_objects")
    got, want = g.refs(z), g.hard_refs(at)
    for f in want:
        t.check(f in got and len(got[f]) == len(want[f]), "links of " + f)
        for v, b in zip(got[f], want[f]):
            t.check(v is g.node[b] if inplace else
                    type(v) is type(g.node[b]) and g.name_of(v) == b, "entities restored")
    t.cover("objects")


def cases(tier):
    out = []
    th = tier == "thorough"
    for s in range(len(SHAPES)):
        for inplace in (False, True):
            for sc in ("none", "a", "b", "second-b", "absent") if th else \
                    (("none", "b"), ("a", "absent"), ("second-b", "none"))[(s + inplace) % 3]:
                out.append(case("h_links", shape=s, inplace=inplace, scope=sc, weight=3))
            for tu in (False, True) if th or s == 0 else (bool(s % 2),):
                out.append(case("h_objects", shape=s, inplace=inplace, tuples=tu, weight=4))
    for kind, (_, _, fields) in cat.CLASSES.items():
        for f in fields:
            if f == "name" and not th:
                continue
            for inplace in (False, True):
                out.append(case("h_field", kind=kind, field=f, inplace=inplace))
    for kind, fs in (("process_spec", ["conditions", "parameters"]),
                     ("measurement_run", ["properties"]), ("material_spec", ["properties"])):
        for f in fs:
            for inplace in (False, True):
                out.append(case("h_field", kind=kind, field=f, inplace=inplace, vary="template"))
    size = 9 if th else 6
    for i in range(0, len(EDGES), 3 if th else 5):
        free = [j % len(EDGES) for j in range(i, i + size)]
        for others in ("on", "off"):
            for n, at in enumerate(("ir", "mr", "me", "ps", "tpl", "ms", "pr", "is")):
                for inplace in (False, True) if th else (bool((n + i) % 2),):
                    out.append(case("h_graph", free=free, others=others, at=at, inplace=inplace,
                                    weight=2))
    return out
