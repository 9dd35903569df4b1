"""C27: Values, bounds, attributes and links are equal exactly when their content is."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.entity.attribute import PropertyAndConditions
from gemd.entity.bounds import IntegerBounds, RealBounds
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.value import NominalReal, NominalInteger

BOUNDS = {
    "quick": ["two objects of the same class with independent symbolic content: every value and "
              "bounds class (any integers in [-10^6, 10^6], floats, texts of up to 1 Latin-1 "
              "character, 0-2 keys or members, two units each), attributes and property-and-"
              "conditions (one symbolic field at a time), sources, file links, links",
              "two objects of any two different classes among these, and an object against None, "
              "texts, numbers, tuples, lists, dictionaries (its own among them) and entities"],
    "thorough": ["every symbolic field of every attribute class, attributes of every two kinds of value, link texts of up to 2 characters"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["numbers are not nan"]
COVERS = {"all": ["equal", "different", "other class", "other object", "pair", "hash"]}


def snapshot(x):
    return {k: (v, list(v) if isinstance(v, (list, tuple, set)) else
                list(v.items()) if isinstance(v, dict) else None) for k, v in vars(x).items()}


def intact(t, x, was):
    now = snapshot(x)
    t.check(set(now) == set(was), "no field appears or disappears")
    for k in was:
        t.check(now[k][0] is was[k][0], "comparison replaces nothing")
        if was[k][1] is not None:
            t.check(len(now[k][1]) == len(was[k][1]) and
                    all(a is b or isinstance(a, tuple) or isinstance(a, str)
                        for a, b in zip(now[k][1], was[k][1])), "comparison changes no content")


def compare(t, x, y, want, what):
    bx, by = snapshot(x), snapshot(y)
    a = t.must(t.attempt(lambda: x == y), what)
    b = t.must(t.attempt(lambda: y == x), what)
    t.check(t.iff(a, want), what + ": equal exactly when the content is")
    t.check(t.iff(b, want), what + ": symmetric")
    t.check(t.iff(x != y, t.no(want)), what + ": != is the opposite")
    t.check(t.all(x == x, y == y), what + ": reflexive")
    intact(t, x, bx)
    intact(t, y, by)
    t.cover("equal" if t.is_true(want) else "different")


def h_value(t, kind):
    x, dx = cat.value(t, "x", kind)
    y, dy = cat.value(t, "y", kind)
    compare(t, x, y, cat.deq(t, dx, dy), kind)


def h_bounds(t, kind):
    x, dx = cat.bounds(t, "x", kind)
    y, dy = cat.bounds(t, "y", kind)
    compare(t, x, y, cat.deq(t, dx, dy), kind)


def h_same(t, kind, owner):
    """The same content, given separately, in another order or another way."""
    if kind == "units":
        x, u = t.real("x"), t.choice("u", [("m", "meter"), ("degC", "celsius"), ("", "dimensionless")])
        a, b = NominalReal(x, u[0]), NominalReal(x, u[1])
        want = True
    elif kind == "scaled":
        x, y = t.real("x", 0.0, 1e6), t.real("y", 0.0, 1e6)
        a, b = RealBounds(0, x, "m"), RealBounds(0, y, "mm")
        want = False                    # other units: another object, even if of the same length
    elif kind == "numbers":
        n = t.int("n", -10 ** 6, 10 ** 6)
        a, b = NominalInteger(n), NominalInteger(float(n))
        want = True
    else:
        p, q = t.str("p", 1, 1), t.str("q", 1, 1)
        xs = {"cat": ("cat", [p, q], [q, p]), "dup": ("cat", [p, q], [p, q, p]),
              "comp": ("comp", [p, q], [q, q, p])}[kind]
        from gemd.entity.bounds import CategoricalBounds, CompositionBounds
        cls = CategoricalBounds if xs[0] == "cat" else CompositionBounds
        a, b = cls(xs[1]), cls(xs[2])
        want = True
    compare(t, a, b, want, kind)


def h_attr(t, kind, vary):
    x, dx = cat.attribute(t, "x", kind, vary)
    y, dy = cat.attribute(t, "y", kind, vary)
    compare(t, x, y, cat.deq(t, dx, dy), kind + "." + vary)


def h_attr_values(t, kind, vk, wk):
    x, dx = cat.value(t, "x", vk)
    y, dy = cat.value(t, "y", wk)
    compare(t, cat.ATTR[kind][0]("a", value=x), cat.ATTR[kind][0]("a", value=y),
            cat.deq(t, dx, dy), kind)


def h_pac(t, vary):
    x, dx = cat.pac(t, "x", vary)
    y, dy = cat.pac(t, "y", vary)
    compare(t, x, y, cat.deq(t, dx, dy), "property and conditions")


def h_source(t):
    (x, dx), (y, dy) = cat.g_source(t, "x"), cat.g_source(t, "y")
    t.assume(x is not None and y is not None)
    compare(t, x, y, cat.deq(t, dx, dy), "source")


def h_file(t):
    (x, dx), (y, dy) = cat.file_link(t, "x"), cat.file_link(t, "y")
    compare(t, x, y, cat.deq(t, dx, dy), "file link")


def h_link(t, lo, hi):
    s, i, s2, i2 = (t.str(n, lo, hi) for n in ("s", "i", "s2", "i2"))
    x, y = LinkByUID(s, i), LinkByUID(s2, i2)
    want = t.all(s == s2, i == i2)
    compare(t, x, y, want, "link")
    pair = t.must(t.attempt(lambda: x == (s2, i2)), "pair")
    t.check(t.iff(pair, want), "a link equals the pair of its scope and id")
    t.check(t.iff((s2, i2) == x, want), "and the pair the link")
    t.check(t.no(x == (s, i, "")), "three things")
    t.check(t.no(x == (s,)), "one thing")
    t.cover("pair")
    if t.is_true(want):
        t.check(t.hash_eq(x, y), "equal links hash equal")
        t.check(t.hash_eq(x, (s2, i2)), "and like the pair")
        t.cover("hash")


MAKE = {"value " + k: (lambda k: lambda t, n: cat.value(t, n, k)[0])(k) for k in cat.VALUE_KINDS}
MAKE.update({"bounds " + k: (lambda k: lambda t, n: cat.bounds(t, n, k)[0])(k)
             for k in cat.BOUND_KINDS})
MAKE.update({"attr " + k: (lambda k: lambda t, n: cat.ATTR[k][0](t.str(n, 0, 1)))(k) for k in cat.ATTR})
MAKE.update({
    "pac": lambda t, n: PropertyAndConditions(cat.ATTR["property"][0](t.str(n, 0, 1))),
    "source": lambda t, n: PerformedSource(t.str(n, 0, 1)),
    "file": lambda t, n: FileLink(t.str(n, 0, 1), "u"),
    "link": lambda t, n: LinkByUID(t.str(n, 0, 1), "i"),
})


def h_other_class(t, a):
    """Different classes, whatever their content (same number, same text, same set)."""
    b = t.choice("class", [k for k in MAKE if k != a])
    x, y = MAKE[a](t, "x"), MAKE[b](t, "y")
    t.check(t.no(x == y), "%s and %s" % (a, b))
    t.check(t.no(y == x), "%s and %s" % (b, a))
    t.check(x != y, "different")
    t.cover("other class")


def h_same_content(t, a):
    """Other classes with the same fields."""
    s = t.str("s", 0, 1)
    n, m = t.int("n", -10 ** 6, 10 ** 6), t.int("m", -10 ** 6, 10 ** 6)
    t.assume(n <= m)
    pairs = {
        "attributes": [cat.ATTR[k][0](s) for k in cat.ATTR],
        "integers": [cat.NominalInteger(n), NominalReal(n, ""), NominalReal(n, "m")],
        "ranges": [cat.UniformInteger(n, m), IntegerBounds(n, m), cat.UniformReal(n, m, ""),
                   RealBounds(n, m, ""), cat.NormalReal(n, m, "")],
        "texts": [cat.NominalCategorical(s), cat.Smiles(s), cat.DiscreteCategorical(s)],
        "sets": [cat.CategoricalBounds(["H"]), cat.CompositionBounds(["H"]),
                 cat.MolecularStructureBounds()],
        "molecules": [cat.EmpiricalFormula("C"), cat.Smiles("C"), cat.NominalCategorical("C")],
    }[a]
    for i, x in enumerate(pairs):
        for y in pairs[:i]:
            t.check(t.no(x == y), "another class")
            t.check(t.no(y == x), "another class")
    t.cover("other class")


def h_other(t, a):
    x = MAKE[a](t, "x")
    was = snapshot(x)
    k = t.pick("other", 8)
    s = t.str("s", 0, 1)
    y = [None, s, t.int("n"), (s, s, s), [s], x.as_dict(), ProcessRun("p"), type(x)][k] \
        if k != 5 else dict(x.as_dict())
    t.check(t.no(t.must(t.attempt(lambda: x == y), "another object")), "another object")
    t.check(t.no(t.must(t.attempt(lambda: y == x), "another object")), "another object")
    t.check(t.must(t.attempt(lambda: x != y), "another object"), "different")
    intact(t, x, was)
    t.cover("other object")


def cases(tier):
    th = tier == "thorough"
    out = [case("h_value", kind=k, weight=3) for k in cat.VALUE_KINDS]
    out += [case("h_bounds", kind=k, weight=3) for k in cat.BOUND_KINDS]
    out += [case("h_same", kind=k, owner="") for k in ("units", "scaled", "numbers", "cat", "dup",
                                                      "comp")]
    for k in cat.ATTR:
        for v in ("name", "notes", "value", "template", "origin", "file_links"):
            if th or v in ("name", "value") or k == "condition":
                out.append(case("h_attr", kind=k, vary=v, weight=3))
        kinds = cat.VALUE_KINDS if th else ["int", "real", "cat", "comp", "smiles"]
        for i, v in enumerate(kinds):
            for w in kinds[:i + 1]:
                if th or k == "property":
                    out.append(case("h_attr_values", kind=k, vk=v, wk=w, weight=2))
    out += [case("h_pac", vary=v, weight=4) for v in (("name", "notes", "file_links", "value") if th
                                                      else ("name", "notes"))]
    out += [case("h_source"), case("h_file"), case("h_link", lo=0, hi=2 if th else 1)]
    out += [case("h_other_class", a=a) for a in MAKE]
    out += [case("h_same_content", a=a) for a in ("attributes", "integers", "ranges", "texts", "sets",
                                                  "molecules")]
    out += [case("h_other", a=a) for a in MAKE]
    return out
