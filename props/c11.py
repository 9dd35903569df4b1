"""C11: Entity equality is reflexive, symmetric and sees every field."""
import itertools

from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, IngredientRun,
                                IngredientSpec, MeasurementRun)
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.file_link import FileLink

BOUNDS = {
    "quick": ["all 14 entity classes x every constructor field: two entities that agree on all other "
              "fields; texts of one symbolic character (or None or empty), lists of 0-2 elements "
              "with symbolic content, references None / link / entity with and without uid, all "
              "quantities, bounds, sources, sample types; uids absent, equal or different",
              "every list field empty on one side, with every other text, list or reference field "
              "of one symbolic character on both",
              "attributes: every field of attributes and of property-and-conditions",
              "cycles: two processes (runs, specs) with 2 ingredients each and two materials with 2 "
              "measurements each, every content symbolic, compared at either end; 2 against 2 "
              "ingredient runs of any of 4 specs in two spec processes",
              "links and pairs: symbolic scope (1 character, both casings) and id; other objects"],
    "thorough": ["3 ingredients / measurements on each side, 3 against 3 runs of 4 specs"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "output_material is not compared (it mirrors the material's process)",
    "scopes that differ only by case, between two entities, are not considered"]
COVERS = {"all": ["equal", "different", "tolerated", "cycle equal", "cycle different", "link equal",
                  "one empty list"]}


def both(t, x, y, want, what):
    """x == y both ways, and != accordingly."""
    a = t.must(t.attempt(lambda: x == y), what)
    b = t.must(t.attempt(lambda: y == x), what)
    t.check(a is not NotImplemented and b is not NotImplemented, what)
    t.check(t.iff(a, want), what + ": decided by the fields")
    t.check(t.iff(b, want), what + ": symmetric")
    t.check(t.iff(x != y, t.no(want)), what + ": != is the opposite")


def uid_pair(t, mode):
    if mode == "none":
        return {}, {}
    a = {"s": t.str("u1", 1, 1)}
    if mode == "first":
        return a, {}
    b = {"s": t.str("u2", 1, 1)}
    if mode == "two":
        b["r"] = "x"
        a["r"] = t.str("u3", 1, 1)
    return a, b


def compare(t, kind, field, gen, mode):
    cls, req, _ = cat.CLASSES[kind]
    u1, u2 = uid_pair(t, mode)
    v1, d1 = gen(t, "x")
    v2, d2 = gen(t, "y")
    k1, k2 = dict(req), dict(req)
    k1[field], k2[field] = v1, v2
    x, y = cls(uids=dict(u1), **k1), cls(uids=dict(u2), **k2)
    su = cat.ueq(t, u1, u2)
    want = t.all(su, cat.deq(t, d1, d2, bool(u1)))
    if (kind, field) == ("ingredient_run", "spec") and d1[0] != d2[0]:
        want = False      # only an actual spec gives the run its name
    before = [getattr(x, field), getattr(y, field)]
    sizes = [len(b) if isinstance(b, list) else None for b in before]
    both(t, x, y, want, "%s.%s" % (kind, field))
    both(t, x, x, True, "reflexive")
    t.check(getattr(x, field) is before[0] and getattr(y, field) is before[1], "unchanged")
    for b, n in zip(before, sizes):
        t.check(n is None or len(b) == n, "lists unchanged")
    t.check(len(x.uids) == len(u1) and len(y.uids) == len(u2), "uids unchanged")
    if t.is_true(want):
        t.cover("equal")
        if d1[0] == "ms" and len(d1[1]) != len(d2[1]):
            t.cover("tolerated")
    else:
        t.cover("different")


def h_field(t, kind, field, mode):
    compare(t, kind, field, cat.CLASSES[kind][2][field], mode)


def h_attr(t, kind, akind, vary, mode):
    """Fields of the attributes on an entity."""
    field = {"property": "properties", "condition": "conditions", "parameter": "parameters"}[akind]
    gen = cat.g_pacs(vary, 1) if kind == "material_spec" else cat.g_attrs(akind, vary, 1)
    compare(t, kind, field, gen, mode)


def h_kinds(t):
    """Entities of different kinds, and other objects, are never equal."""
    s = t.str("s", 1, 1)
    uids = {} if t.flag("nouids") else {"a": t.str("u", 1, 1)}
    kinds = sorted(cat.CLASSES)
    a = t.pick("a", len(kinds))
    x = cat.minimal(kinds[a], tags=[s], uids=dict(uids))
    for k in kinds:
        both(t, x, cat.minimal(k, tags=[s], uids=dict(uids)), k == kinds[a], "kinds")
    for o in (None, 5, "text", [], {}, Property("n"), FileLink("a", "b"), object(), 2.5, (1,),
              (1, 2), (1, "b"), (None, "b"), (b"a", "b"), (None, None), ("zz", 1), ("zz", "b"),
              ("a", "b", "c"), {1: 2}, frozenset()):
        if o == ("a", "b") and uids:
            continue
        r = t.must(t.attempt(lambda: x == o), "comparison with another object")
        t.check(t.no(r), "another object")
        r = t.must(t.attempt(lambda: o == x), "comparison with another object")
        t.check(t.no(r), "another object")


def h_link(t, kind):
    n = t.pick("n", 3)
    uids = {}
    for i in range(n):
        uids["ab"[i]] = t.str("u%d" % i, 1, 1)
    x = cat.minimal(kind, uids=dict(uids))
    s, i = t.str("scope", 1, 1), t.str("id", 1, 1)
    want = t.any(*[t.all(k == s.lower(), v == i) for k, v in uids.items()])
    both(t, x, LinkByUID(s, i), want, "link")
    both(t, x, (s, i), want, "pair") if t.flag("pair") else None
    if t.is_true(want):
        t.cover("link equal")
    l2 = LinkByUID(t.str("scope2", 1, 1), t.str("id2", 1, 1))
    w2 = t.all(l2.scope == s, l2.id == i)
    both(t, LinkByUID(s, i), l2, w2, "two links")
    both(t, LinkByUID(s, i), (l2.scope, l2.id), w2, "link and pair")
    t.check(t.implies(w2, t.hash_eq(LinkByUID(s, i), l2)), "equal links hash alike")
    t.check(t.implies(w2, t.hash_eq(LinkByUID(s, i), (l2.scope, l2.id))), "link hashes as its pair")
    both(t, x, LinkByUID("zz", None), False, "link without id")


CYCLE = {
    "process_run": (lambda n: ProcessRun("p", notes=n),
                    lambda n, h: IngredientRun(notes=n, process=h)),
    "process_spec": (lambda n: ProcessSpec("p", notes=n),
                     lambda n, h: IngredientSpec("i", notes=n, process=h)),
    "material_run": (lambda n: MaterialRun("p", notes=n),
                     lambda n, h: MeasurementRun(n, material=h)),
}


def h_cycle(t, kind, n, at, uids):
    """Two holders with dependents that point back; compared at the holder or a dependent."""
    mk, dep = CYCLE[kind]
    hs, ds, names = [], [], []
    for j in range(2):
        h = mk(t.str("h%d" % j, 1, 1))
        if uids:
            h.uids = {"a": "same"}
        m = n if at != "free" else t.pick("n%d" % j, n + 1)
        ns = [t.str("d%d.%d" % (j, i), 1, 1) for i in range(m)]
        ds.append([dep(s, h) for s in ns])
        names.append(ns)
        hs.append(h)
    hn = [getattr(h, "notes") for h in hs]
    ms = cat.ms_eq(t, [("str", s) for s in names[0]], [("str", s) for s in names[1]])
    if uids and (not names[0] or not names[1]):
        ms = True
    want = t.all(hn[0] == hn[1], ms)
    if at in ("holder", "free"):
        both(t, hs[0], hs[1], want, "holders")
    else:
        i, j = t.pick("i", n), t.pick("j", n)
        want = t.all(want, names[0][i] == names[1][j])
        both(t, ds[0][i], ds[1][j], want, "dependents")
    t.cover("cycle equal" if t.is_true(want) else "cycle different")


def h_two_cycles(t, n, first):
    """Runs whose specs belong to two spec processes that are equal or not."""
    lab = [t.str("l%d" % i, 1, 1) for i in range(4)]
    PS, QS = ProcessSpec("p"), ProcessSpec("p")
    specs = [IngredientSpec(lab[i], process=(PS, QS)[i // 2]) for i in range(4)]
    P, Q = ProcessRun("p"), ProcessRun("p")
    A = [first] + [t.pick("a%d" % i, 4) for i in range(1, n)]
    B = [t.pick("b%d" % i, 4) for i in range(n)]
    for c, pr in ((A, P), (B, Q)):
        for s in c:
            IngredientRun(spec=specs[s], process=pr)
    S = [("str", x) for x in lab]
    same = cat.ms_eq(t, S[:2], S[2:])            # PS and QS are equal

    def eq(i, j):                                # two of the specs are equal
        return t.all(lab[i] == lab[j], True if i // 2 == j // 2 else same)
    want = t.any(*[t.all(*[eq(A[i], B[k]) for i, k in enumerate(p)])
                   for p in itertools.permutations(range(n))])
    both(t, P, Q, want, "run processes")
    both(t, PS, QS, same, "spec processes")
    t.cover("cycle equal" if t.is_true(want) else "cycle different")


def h_mixed(t, kind):
    """Soft lists in which links stand for some dependents."""
    mk, dep = CYCLE[kind]
    soft = "measurements" if kind == "material_run" else "ingredients"
    hs, ds = [], []
    for j in range(2):
        h = mk("n")
        elems = []
        for i in range(2):
            s = t.str("d%d.%d" % (j, i), 1, 1)
            d = dep("x", h)
            d.uids = {"a": s}
            if t.flag("link%d.%d" % (j, i)):
                getattr(h, soft)[i] = LinkByUID("a", s)
                elems.append(("link", "a", s))
            else:
                elems.append(("ent", "d", {"a": s}, {}))
        t.assume(elems[0][2 if elems[0][0] == "link" else 2] is not None)
        hs.append(h)
        ds.append(elems)
    for e in ds:
        ids = [x[2] if x[0] == "link" else x[2]["a"] for x in e]
        t.assume(ids[0] != ids[1])
    both(t, hs[0], hs[1], cat.ms_eq(t, ds[0], ds[1]), "lists of links and entities")


SOFT = {"process_run": "ingredients", "process_spec": "ingredients", "material_run": "measurements"}
TEMPLATE = {"properties": cat.PropertyTemplate, "conditions": cat.ConditionTemplate,
            "parameters": cat.ParameterTemplate}


def small(kind, field, s):
    """A value of the field made of one text."""
    if field in ("tags", "labels", "allowed_names", "allowed_labels"):
        return [s]
    if field in ("name", "notes", "description"):
        return s
    if field == "file_links":
        return [FileLink(s, "u")]
    if field in TEMPLATE:
        if kind.endswith("_template"):
            return [TEMPLATE[field](s, bounds=IntegerBounds(0, 9))]
        attr = {"properties": Property, "conditions": Condition, "parameters": Parameter}[field](s)
        return [PropertyAndConditions(attr)] if kind == "material_spec" else [attr]
    if field in ("template", "spec", "material", "process"):
        side = kind.split("_")[1]
        k = {"template": kind.split("_")[0] + "_template", "spec": kind.replace("run", "spec"),
             "material": "material_" + side, "process": "process_" + side}[field]
        return cat.minimal(k, **{"description" if field == "template" else "notes": s})
    return None


def h_two_fields(t, kind, part):
    """Lists of which one is empty, and another field: the tolerance is for that list only."""
    cls, req, fields = cat.CLASSES[kind]
    soft = SOFT.get(kind)
    usable = [f for f in fields if small(kind, f, "s") is not None] + ([soft] if soft else [])
    lists = [f for f in usable if f == soft or isinstance(small(kind, f, "s"), list)]
    f = lists[t.pick("f", len(lists))]
    rest = [g for g in usable if g != f][part::2]
    g = rest[t.pick("g", len(rest))]
    uids = {"a": "u"} if t.flag("uids") else {}
    s = [t.str("s%d" % i, 1, 1) for i in range(2)]
    full = [t.flag("full%d" % i) for i in range(2)]
    objs = []
    for i in range(2):
        kw, late = dict(req, uids=dict(uids)), []
        for h, txt in [(f, "n")] * full[i] + [(g, s[i])]:
            if h == soft:
                late.append(txt)
            else:
                kw[h] = small(kind, h, txt)
        x = cls(**kw)
        for txt in late:
            CYCLE[kind][1](txt, x)
        objs.append(x)
    want = t.all(s[0] == s[1], bool(uids) or full[0] == full[1])
    both(t, objs[0], objs[1], want, "%s and %s" % (f, g))
    if full[0] != full[1]:
        t.cover("one empty list")


def cases(tier):
    out = []
    for kind in cat.CLASSES:
        for part in range(2):
            out.append(case("h_two_fields", kind=kind, part=part, weight=3))
    for kind, (_, _, fields) in cat.CLASSES.items():
        for f in fields:
            for mode in ("none", "same"):
                out.append(case("h_field", kind=kind, field=f, mode=mode, weight=2))
        for mode in ("first", "two"):
            out.append(case("h_field", kind=kind, field="tags", mode=mode))
        out.append(case("h_link", kind=kind))
    for kind, aks in (("process_spec", ["condition", "parameter"]),
                      ("measurement_run", ["property"]), ("material_spec", ["property"])):
        for a in aks:
            for vary in ("notes", "value", "origin", "file_links", "template"):
                out.append(case("h_attr", kind=kind, akind=a, vary=vary, mode="none", weight=2))
    out.append(case("h_kinds", weight=3))
    n = 2 if tier == "quick" else 3
    for kind in CYCLE:
        out.append(case("h_cycle", kind=kind, n=n, at="holder", uids=False, weight=4))
        out.append(case("h_cycle", kind=kind, n=n, at="dependent", uids=False, weight=5))
        out.append(case("h_cycle", kind=kind, n=2, at="free", uids=True, weight=4))
        out.append(case("h_cycle", kind=kind, n=2, at="free", uids=False, weight=4))
        out.append(case("h_mixed", kind=kind))
    for first in range(4):
        out.append(case("h_two_cycles", n=n, first=first, weight=5))
    return out
