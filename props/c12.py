"""C12: JSON round trip reproduces the object graph."""
from uuid import UUID
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from props.graph import Graph, EDGES
import gemd.json
from gemd.json import GEMDJson
from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import ProcessRun, ProcessSpec, MaterialRun, IngredientRun, IngredientSpec, \
    MaterialSpec
from gemd.entity.template import PropertyTemplate
from gemd.entity.bounds import IntegerBounds
from gemd.entity.value import NominalReal, NominalInteger
from gemd.entity.attribute import Property, Condition
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["fields: all 14 entity classes x every constructor field with symbolic content (texts "
              "of one Latin-1 character, lists of 0-2, references None / link / entity with or "
              "without uid), without uids and with a uid of either casing",
              "values and bounds of every kind on attributes and templates",
              "graphs: 13 entities (templates, specs and runs of two processes, two materials, "
              "ingredient, measurement); every link present or absent in groups of 6 of 20 with the "
              "rest all present or all absent; any entity as the starting point",
              "containers: 3 slots of scalars, entities and links in 8 nested shapes of lists, "
              "tuples and dictionaries; symbolic dictionary keys",
              "links next to entities: symbolic scope (both casings) and id",
              "ids that are UUID objects, links by either form; json.dumps options",
              "two documents one after the other through one encoder, new ones and the module "
              "functions: the second with a link to, or another version of, the first's entity"],
    "thorough": ["links in groups of 10 of 20, more starting points, all scalars in all shapes"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "the text form of JSON is modelled as the document it denotes: strings, integers and finite "
    "floats are taken to survive it exactly (json's own guarantee); sampled paths are replayed "
    "through the real json module",
    "uids are unambiguous (no id under the same scope on two entities); dictionaries passed in have "
    "string keys, none of them 'type'; tuples come back as lists (JSON has no tuples)"]
COVERS = {"all": ["entity", "uid added", "uid kept", "shared", "external link", "soft side",
                  "scalar", "key", "reuse"]}


def roundtrip(t, x, how="copy", scope=None):
    j = GEMDJson() if scope is None else GEMDJson(scope=scope)
    if how == "copy":
        return j.copy(x)
    if how == "file":
        f = File()
        j.dump(x, f)
        return j.load(f)
    if how == "module":
        return gemd.json.loads(gemd.json.dumps(x))
    if how == "module file":
        f = File()
        gemd.json.dump(x, f)
        return gemd.json.load(f)
    s = j.dumps(x)
    return GEMDJson().loads(s)      # another encoder reads it


class File:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def read(self):
        assert len(self.parts) == 1
        return self.parts[0]


def h_field(t, kind, field, mode, gen=None):
    cls, req, fields = cat.CLASSES[kind]
    v, d = (gen or fields[field])(t, "x")
    uids = {}
    if mode != "none":
        uids = {mode: t.str("u", 1, 1)}
    cat.unambiguous(t, *(cat.ids_in(d) + list(uids.values())))
    kw = dict(req)
    kw[field] = v
    x = cls(uids=dict(uids), **kw)
    how = {"none": "copy", "a": "file", "A": "dumps"}[mode]
    if field in ("tags", "file_links"):
        how = "module" if mode == "none" else "module file"
    y = t.must(t.attempt(roundtrip, t, x, how), "round trip")
    t.check(type(y) is cls and y is not x, "kind")
    t.cover("entity")
    t.check(holds_ref(t, getattr(y, field), d), "%s.%s restored" % (kind, field))
    t.check(holds_ref(t, getattr(x, field), d), "%s.%s of the original" % (kind, field))
    if not uids:
        t.check(len(x.uids) == 1 and "auto" in x.uids, "uid added to the original")
        t.check(cat.uids_are(t, y.uids, {"auto": x.uids["auto"]}), "uids restored")
        t.cover("uid added")
    else:
        t.check(cat.uids_are(t, x.uids, uids), "uids of the original")
        t.check(cat.uids_are(t, y.uids, uids), "uids restored")
        t.cover("uid kept")
    for f in fields:
        if f != field and f not in ("spec", "template"):
            a, b = getattr(x, f), getattr(y, f)
            t.check(type(a) is type(b), "other fields")
            if isinstance(a, list):
                t.check(len(a) == len(b), "other fields")
            else:
                t.check(a is None or a == b, "other fields")


def holds_ref(t, got, d):
    if d[0] == "ent":
        if not isinstance(got, BaseEntity):
            return False
        want = dict(d[2]) or {"auto": got.uids.get("auto")}
        return t.all(cat.holds(t, got, d), cat.uids_are(t, got.uids, want))
    return cat.holds(t, got, d)


def h_attr(t, kind, akind, vary):
    field = {"property": "properties", "condition": "conditions", "parameter": "parameters"}[akind]
    gen = cat.g_pacs(vary, 1) if kind == "material_spec" else cat.g_attrs(akind, vary, 1)
    h_field(t, kind, field, "none", gen)


def h_value(t, vk):
    """Values of every kind, on an attribute."""
    v, d = cat.value(t, "v", vk)
    x = MaterialRun("m")
    from gemd.entity.object import MeasurementRun
    m = MeasurementRun("r", material=x, properties=Property("p", value=v))
    y = t.must(t.attempt(roundtrip, t, m), "round trip")
    t.check(cat.holds(t, y.properties[0].value, d), "value restored")
    t.check(y.material.measurements[0] is y, "soft side")
    t.check(cat.holds(t, m.properties[0].value, d), "original value")


def h_bounds(t, bk):
    b, d = cat.bounds(t, "b", bk)
    x = PropertyTemplate("p", bounds=b)
    y = t.must(t.attempt(roundtrip, t, x), "round trip")
    t.check(cat.holds(t, y.bounds, d), "bounds restored")
    t.check(cat.holds(t, x.bounds, d), "original bounds")


# -------------------------------------------------------------------------------- graphs
def h_graph(t, free, others, start, uids, scope=None):
    g = Graph(t, free, others, uids)
    roots = [g.node[s] for s in start]
    x = roots[0] if len(start) == 1 else list(roots)
    y = t.must(t.attempt(roundtrip, t, x, "dumps" if scope else "copy", scope), "round trip")
    g.unchanged(scope or "auto")
    ys = [y] if len(start) == 1 else y
    t.check(len(start) == 1 or (type(y) is list and len(y) == len(start)), "container")
    g.isomorphic(roots, ys)
    t.cover("soft side")


# ---------------------------------------------------------------------------- containers
SCALARS = [1, True, 1.0, 0, False, 0.0, "1", None]
SHAPES = [lambda a, b, c: [a, b, c],
          lambda a, b, c: {"p": a, "q": b, "r": c},
          lambda a, b, c: [(a, b), c],
          lambda a, b, c: [[a], [b], [c]],
          lambda a, b, c: {"p": [a, {"q": b}], "r": (c,)},
          lambda a, b, c: [({"q": a}, [b]), (c, [])],
          lambda a, b, c: [{"p": (a, b)}, {"p": (c, b)}],
          lambda a, b, c: ((a,), (b,), (c, (a, b)))]


def walk(t, x, y, leaf):
    if isinstance(x, dict):
        t.check(isinstance(y, dict) and len(x) == len(y), "dictionary")
        for k in x:
            t.check(k in y, "key")
            walk(t, x[k], y[k], leaf)
    elif isinstance(x, (list, tuple)):
        t.check(isinstance(y, (list, tuple)) and len(x) == len(y), "list")
        for a, b in zip(x, y):
            walk(t, a, b, leaf)
    else:
        leaf(x, y)


def h_scalars(t, shape, vals):
    xs = [t.choice("c%d" % i, SCALARS[:vals]) for i in range(3)]
    x = SHAPES[shape](*xs)

    def leaf(a, b):
        t.check(type(a) is type(b) and a == b, "scalar")
        t.cover("scalar")
    y = t.must(t.attempt(roundtrip, t, x), "round trip")
    walk(t, x, y, leaf)


def h_symbolic(t, shape):
    xs = [t.int("i"), t.real("r"), t.str("s", 0, 2)]
    kinds = [int, float, str]
    rot = t.pick("rot", 3)
    xs, kinds = xs[rot:] + xs[:rot], kinds[rot:] + kinds[:rot]
    x = SHAPES[shape](*xs)
    y = t.must(t.attempt(roundtrip, t, x), "round trip")

    def leaf(a, b):
        i = [i for i in range(3) if a is xs[i]][0]
        t.check(isinstance(b, kinds[i]) and b == a, "scalar")
    walk(t, x, y, leaf)


def h_keys(t):
    ks = [t.str("k%d" % i, 0, 1) for i in range(2)]
    t.assume(ks[0] != ks[1])
    vs = [t.int("v%d" % i) for i in range(2)]
    e = ProcessRun("p", uids={"a": "1"})
    x = {ks[0]: vs[0], ks[1]: [vs[1], {ks[1]: e}]}
    y = t.must(t.attempt(roundtrip, t, x), "round trip")
    t.check(len(y) == 2 and y[ks[0]] == vs[0], "value")
    z = y[ks[1]]
    t.check(type(z) is list and len(z) == 2 and z[0] == vs[1], "list")
    t.check(len(z[1]) == 1 and type(z[1][ks[1]]) is ProcessRun, "entity")
    t.cover("key")


def h_mix(t, shape):
    """Entities (shared or not) and scalars in containers."""
    note = [t.str("n%d" % i, 1, 1) for i in range(2)]
    uids = [{} if t.flag("nouid%d" % i) else {"a": t.str("u%d" % i, 1, 1)} for i in range(2)]
    if uids[0] and uids[1]:
        t.assume(uids[0]["a"] != uids[1]["a"])
    es = [ProcessRun("p", notes=note[i], uids=dict(uids[i])) for i in range(2)]
    pool = [es[0], es[1], LinkByUID("z", "z"), "text"]
    xs = [pool[t.pick("slot%d" % i, 4)] for i in range(3)]
    x = SHAPES[shape](*xs)
    y = t.must(t.attempt(roundtrip, t, x), "round trip")
    image = {}

    def leaf(a, b):
        if isinstance(a, ProcessRun):
            i = 0 if a is es[0] else 1
            t.check(type(b) is ProcessRun and b is not a and b.notes == note[i], "entity")
            if i in image:
                t.check(image[i] is b, "shared entity")
                t.cover("shared")
            image[i] = b
        elif isinstance(a, LinkByUID):
            t.check(type(b) is LinkByUID and b.scope == "z" and b.id == "z", "link")
            t.cover("external link")
        else:
            t.check(b == "text", "text")
    walk(t, x, y, leaf)
    if 0 in image and 1 in image:
        t.check(image[0] is not image[1], "distinct entities")


def h_links(t, where):
    """A link beside an entity: the entity if it names it, otherwise the link it was."""
    u = t.str("u", 1, 1)
    uids = {t.choice("scope", ["a", "A", "m"]): u}
    more = t.choice("more", [None, "auto", "b"])
    if more is not None:
        own = list(uids.items()) + [(more, t.str("u2", 1, 1))]
        uids = dict(own if t.flag("after") else own[::-1])
    e = ProcessRun("p", uids=dict(uids))
    s, i = t.choice("lscope", ["a", "A", "b", "M", "Auto"]), t.str("id", 1, 1)
    link = LinkByUID(s, i)
    names = t.is_true(t.any(*[t.all(s.lower() == k.lower(), i == v) for k, v in uids.items()]))
    if where == "list":
        x = [e, link]
    elif where == "first":
        x = [link, e]
    elif where == "field":
        x = [e, MaterialRun("m", process=link)]
    else:
        x = {"l": link, "e": e}
    y = t.must(t.attempt(roundtrip, t, x), "round trip")
    f, got = {"list": lambda: (y[0], y[1]), "first": lambda: (y[1], y[0]),
              "field": lambda: (y[0], y[1].process), "dict": lambda: (y["e"], y["l"])}[where]()
    t.check(type(f) is ProcessRun and cat.uids_are(t, f.uids, uids), "entity")
    if names:
        t.check(got is f, "link to the entity")
        t.cover("shared")
    else:
        t.check(type(got) is LinkByUID and got.scope == s and got.id == i, "external link")
        t.cover("external link")


def h_two_scopes(t):
    """Shared entities with uids in several scopes, of any casing."""
    ss = [t.choice("s%d" % i, ["a", "A", "b"]) for i in range(2)]
    t.assume(ss[0].lower() != ss[1].lower())
    us = [t.str("u%d" % i, 1, 1) for i in range(2)]
    spec = ProcessSpec("p", uids={ss[0]: us[0], ss[1]: us[1]})
    other = ProcessSpec("q", uids={ss[1]: us[0]} if t.flag("o") else {})
    if other.uids:
        t.assume(us[0] != us[1])
    runs = [ProcessRun("r0", spec=spec), ProcessRun("r1", spec=spec), ProcessRun("r2", spec=other)]
    y = t.must(t.attempt(roundtrip, t, runs), "round trip")
    t.check(len(y) == 3 and y[0].spec is y[1].spec and y[2].spec is not y[0].spec, "sharing")
    t.check(y[0].spec.name == "p" and y[2].spec.name == "q", "names")
    t.check(cat.uids_are(t, y[0].spec.uids, {ss[0]: us[0], ss[1]: us[1]}), "uids")


def h_uuid(t, where):
    """Ids that are UUID objects: they travel as their text, and links by either name the entity."""
    ids = [UUID(int=7), UUID(int=2 ** 100 + 1)]
    u, other = ids[t.pick("u", 2)], t.str("o", 1, 1)
    scope = t.choice("scope", ["a", "A"])
    e = ProcessSpec("p", uids={scope: u, "z": other} if t.flag("first") else
                    {"z": other, scope: u})
    before = dict(e.uids)
    s, i = t.choice("lscope", ["a", "A", "b"]), t.choice("id", ids + [str(ids[0]), str(ids[1])])
    link = LinkByUID(s, i)
    names = s.lower() == "a" and str(i) == str(u)
    run = ProcessRun("r", spec=e, notes=t.str("n", 1, 1))
    x = [run, link, e] if where == "list" else [run, MaterialSpec("m", process=link), e]
    y = t.must(t.attempt(roundtrip, t, x, "dumps" if t.flag("new") else "copy"), "round trip")
    t.check(type(y) is list and len(y) == 3 and y[0].spec is y[2], "shared entity")
    t.check(type(y[2]) is ProcessSpec and cat.uids_are(
        t, y[2].uids, {k: str(v) if v is u else v for k, v in before.items()}), "ids")
    t.check(y[0].notes == run.notes, "notes")
    got = y[1] if where == "list" else y[1].process
    if names:
        t.check(got is y[2], "link to the entity")
    else:
        t.check(type(got) is LinkByUID and got.scope == s and got.id == str(i), "external link")
    t.check(len(e.uids) == 2 and e.uids["z"] is other and e.uids["A"] is u, "the original's ids")
    t.check(link.scope == s and link.id is i, "the link")


def h_options(t, opts):
    """Options of json.dumps shape the text only."""
    e = ProcessSpec(t.str("p", 1, 2), tags=[t.str("t", 0, 1)], notes=t.choice("n", [None, "\u03bc"]))
    run = ProcessRun("r", spec=e, conditions=[Condition("c", value=NominalReal(
        t.choice("v", [0.1, 1e300, -0.0, 5e-324, 1 / 3]), "cm"))])
    f = File()
    j = GEMDJson()
    if t.flag("file"):
        t.must(t.attempt(j.dump, [run, e], f, **opts), "dump")
        y = t.must(t.attempt(gemd.json.load, f), "load")
    else:
        y = t.must(t.attempt(j.loads, t.must(t.attempt(gemd.json.dumps, [run, e], **opts), "dumps")),
                   "loads")
    t.check(len(y) == 2 and y[0].spec is y[1] and y[1].name == e.name and y[1].notes == e.notes,
            "restored")
    t.check(len(y[1].tags) == 1 and y[1].tags[0] == e.tags[0], "tags")
    t.check(repr(y[0].conditions[0].value.nominal) == repr(run.conditions[0].value.nominal),
            "number")


def h_reuse(t, how, second):
    """What an encoder read or wrote before has no influence on the next document."""
    j = GEMDJson()
    api = {"one": (j.dumps, j.loads), "copy": (None, None), "new": (None, None),
           "module": (gemd.json.dumps, gemd.json.loads)}[how]

    def trip(x):
        if how == "copy":
            return j.copy(x)
        if how == "new":
            return GEMDJson().loads(GEMDJson().dumps(x))
        return api[1](api[0](x))
    u, notes = t.str("u", 1, 1), [t.str("n%d" % i, 1, 1) for i in range(2)]
    e = ProcessRun("p", notes=notes[0], uids={"a": u})
    t.must(t.attempt(trip, [e, MaterialRun("m", process=e)]), "first document")
    t.cover("reuse")
    if second == "link":
        link = LinkByUID(t.choice("scope", ["a", "A", "b"]), t.str("id", 1, 1))
        x = MaterialRun("m", process=link) if t.flag("field") else [link]
        y = t.must(t.attempt(trip, x), "second document")
        got = y[0] if type(x) is list else y.process
        t.check(type(got) is LinkByUID and got.scope == link.scope and got.id == link.id,
                "a link that the document does not resolve")
        return
    e2 = ProcessRun("q", notes=notes[1], uids={"a": u})
    y = t.must(t.attempt(trip, [MaterialRun("m", process=e2), e2]), "second document")
    t.check(type(y[1]) is ProcessRun and y[1].name == "q" and y[1].notes == notes[1],
            "the entity of the second document")
    t.check(y[0].process is y[1] and len(y[1].uids) == 1, "the entity of the second document")


def cases(tier):
    out = []
    th = tier == "thorough"
    for kind, (_, _, fields) in cat.CLASSES.items():
        for n, f in enumerate(fields):
            for mode in ("none", "a", "A") if th else ("none", "aA"[n % 2]):
                out.append(case("h_field", kind=kind, field=f, mode=mode, weight=2))
    for kind, aks in (("process_spec", ["condition", "parameter"]),
                      ("measurement_run", ["property"]), ("material_spec", ["property"])):
        for a in aks:
            for vary in ("notes", "value", "origin", "file_links", "template"):
                out.append(case("h_attr", kind=kind, akind=a, vary=vary, weight=2))
    for vk in cat.VALUE_KINDS:
        out.append(case("h_value", vk=vk))
    for bk in cat.BOUND_KINDS:
        out.append(case("h_bounds", bk=bk))
    size = 10 if th else 6
    for i in range(0, len(EDGES), size if th else 5):
        free = [j % len(EDGES) for j in range(i, i + size)]
        for rest in ("on", "off"):
            for uids in ("none", "some"):
                starts = [["mr2"], ["ps"], ["me", "tpl"]] if rest == "on" else \
                    [["pr", "mr", "ir", "me", "pr2", "mr2", "is", "ms", "ps"]]
                if th:
                    starts += [["ir"], ["pr2", "mr"]]
                for st in starts:
                    out.append(case("h_graph", free=free, others=rest, start=st, uids=uids,
                                    scope="Mine" if uids == "some" else None, weight=4))
    for s in range(len(SHAPES)):
        out.append(case("h_scalars", shape=s, vals=8 if th or s in (0, 4) else 4, weight=3))
        out.append(case("h_symbolic", shape=s))
        out.append(case("h_mix", shape=s, weight=4))
    out.append(case("h_keys"))
    for w in ("list", "first", "field", "dict"):
        out.append(case("h_links", where=w))
    out.append(case("h_two_scopes"))
    for w in ("list", "field"):
        out.append(case("h_uuid", where=w))
    for o in ({"indent": 2}, {"ensure_ascii": False}, {"separators": (",", ":")}):
        out.append(case("h_options", opts=o, name="h_options[%s]" % next(iter(o))))
    for how in ("one", "copy", "new", "module"):
        for second in ("link", "entity"):
            out.append(case("h_reuse", how=how, second=second))
    return out
