"""C25: Field setters enforce their types and change nothing when refusing."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalReal, NominalInteger, NominalCategorical, UniformReal, NormalReal,
                               UniformInteger, DiscreteCategorical, NominalComposition,
                               EmpiricalFormula, Smiles, InChI)
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate
from gemd.entity.object import ProcessRun, IngredientRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["every typed field of the 14 entity classes, 3 attribute classes, property-and-"
              "conditions, sources, values and bounds x ~45 kinds of argument (every GEMD class, "
              "None, texts of up to 2 characters, any int or float, lists, dictionaries, classes), "
              "given to the constructor, assigned first, or assigned over a previous value",
              "list fields: None, one element, and lists, tuples and iterators of 0-2 elements, with "
              "one of another kind first or last, or "
              "the list of another object, either of which is changed afterwards; template entries as templates, links and pairs",
              "numeric fields: any int in [-10^6, 10^6], any finite float of that size, infinities, nan"],
    "thorough": ["lists of up to 3 elements, every kind of wrong element in every kind of container"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "fields without a type of their own (notes, description, names of attributes, FileLink and "
    "LinkByUID fields, amounts of real values) are only given what they document"]
COVERS = {"all": ["accepted", "refused", "none", "single", "kept", "pair", "range refused", "number",
                  "two owners"]}


# ------------------------------------------------------------------- the pool of arguments
class Thing:
    pass


POOL = {
    "none": lambda t: None,
    "text": lambda t: t.str("text", 0, 2),
    "bool": lambda t: t.flag("truth"),
    "int": lambda t: t.int("n", -10 ** 6, 10 ** 6),
    "float": lambda t: t.real("x", -1e6, 1e6),
    "infinite": lambda t: t.choice("inf", [float("inf"), -float("inf"), float("nan")]),
    "bytes": lambda t: b"ab",
    "object": lambda t: Thing(),
    "dict": lambda t: {1: 2},
    "list": lambda t: [],
    "ints": lambda t: [t.int("n", 0, 9)],
    "function": lambda t: len,
    "link": lambda t: LinkByUID("a", t.str("text", 0, 2)),
    "file_link": lambda t: FileLink(t.str("text", 0, 2), "u"),
    "source": lambda t: PerformedSource(t.str("text", 0, 2)),
    "property": lambda t: Property(t.str("text", 0, 2)),
    "condition": lambda t: Condition(t.str("text", 0, 2)),
    "parameter": lambda t: Parameter(t.str("text", 0, 2)),
    "pac": lambda t: PropertyAndConditions(Property("p"), [Condition("c")]),
    "nominal_real": lambda t: NominalReal(t.real("x", 0.0, 1.0), ""),
    "uniform_real": lambda t: UniformReal(0.0, t.real("x", 0.0, 1.0), ""),
    "normal_real": lambda t: NormalReal(t.real("x", 0.0, 1.0), 0.5, ""),
    "nominal_integer": lambda t: NominalInteger(t.int("n")),
    "uniform_integer": lambda t: UniformInteger(0, t.int("n", 0, 9)),
    "nominal_categorical": lambda t: NominalCategorical(t.str("text", 0, 2)),
    "discrete_categorical": lambda t: DiscreteCategorical(t.str("text", 0, 2)),
    "nominal_composition": lambda t: NominalComposition({"a": 1.0}),
    "empirical_formula": lambda t: EmpiricalFormula("C"),
    "smiles": lambda t: Smiles(t.str("text", 0, 2)),
    "inchi": lambda t: InChI("InChI=1S/"),
    "integer_bounds": lambda t: IntegerBounds(0, t.int("n", 0, 9)),
    "real_bounds": lambda t: RealBounds(0, 1, ""),
    "categorical_bounds": lambda t: CategoricalBounds([t.str("text", 0, 2)]),
    "composition_bounds": lambda t: CompositionBounds(["H"]),
    "molecular_structure_bounds": lambda t: MolecularStructureBounds(),
}
ENTITIES = list(cat.CLASSES)
for _k in ENTITIES:
    POOL[_k] = (lambda k: lambda t: cat.minimal(k))(_k)
    POOL["class " + _k] = (lambda k: lambda t: cat.CLASSES[k][0])(_k)

VALUES = ["nominal_real", "uniform_real", "normal_real", "nominal_integer", "uniform_integer",
          "nominal_categorical", "discrete_categorical", "nominal_composition", "empirical_formula",
          "smiles", "inchi"]
CONTINUOUS = VALUES[:3]
BOUNDS_ = ["integer_bounds", "real_bounds", "categorical_bounds", "composition_bounds",
           "molecular_structure_bounds"]
# groups that are tried together (each path picks one of the group)
GROUPS = {"plain": ["none", "text", "bool", "int", "float", "infinite", "bytes", "object", "dict",
                    "list", "ints", "function"],
          "gemd": ["link", "file_link", "source", "property", "condition", "parameter", "pac"],
          "values": VALUES, "bounds": BOUNDS_, "entities": ENTITIES,
          "classes": ["class " + k for k in ("process_spec", "material_run", "property_template")]}


WAS = Property("was")


# ------------------------------------------------------------------------------- the fields
def ent(kind):
    return lambda **kw: cat.minimal(kind, **kw)


def build():
    """name -> (maker, field, accepted kinds (None stores None), other fields)"""
    out = {}

    def add(owner, make, field, ok):
        out["%s.%s" % (owner, field)] = (make, field, ok)

    runs = ["process_run", "material_run", "measurement_run", "ingredient_run"]
    specs = ["process_spec", "material_spec", "measurement_spec", "ingredient_spec"]
    for k in runs + specs:
        m = ent(k)
        if k != "ingredient_run":
            add(k, m, "name", ["text"])
        if k in runs:
            add(k, m, "spec", ["none", "link", k[:-4] + "_spec"])
        elif k != "ingredient_spec":
            add(k, m, "template", ["none", "link", k[:-5] + "_template"])
        if k in ("process_run", "measurement_run"):
            add(k, m, "source", ["none", "source"])
        if k[:10] == "ingredient":
            add(k, m, "material", ["none", "link", "material" + k[10:]])
            add(k, m, "process", ["none", "link", "process" + k[10:]])
            for q in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
                add(k, m, q, ["none"] + CONTINUOUS)
        if k[:8] == "material":
            add(k, m, "process", ["none", "link", "process" + k[8:]])
        if k == "measurement_run":
            add(k, m, "material", ["none", "link", "material_run"])
    for k in ("property", "condition", "parameter"):
        m = (lambda k: lambda **kw: cat.ATTR[k][0]("attr", **kw))(k)
        add(k, m, "value", ["none"] + VALUES)
        add(k, m, "template", ["none", "link", k + "_template"])
        add(k + "_template", ent(k + "_template"), "bounds", BOUNDS_)
    add("pac", lambda **kw: PropertyAndConditions(**dict({"property": WAS}, **kw)),
        "property", ["property"])
    for f in ("performed_by", "performed_date"):
        add("source", PerformedSource, f, ["none", "text"])
    add("nominal_categorical", NominalCategorical, "category", ["none", "text"])
    add("smiles", Smiles, "smiles", ["none", "text"])
    return out


ONE = build()


def build_lists():
    """name -> (maker, field, kind of the elements)"""
    out = {}

    def add(owner, make, field, kind):
        out["%s.%s" % (owner, field)] = (make, field, kind)

    for k in ENTITIES:
        m = ent(k)
        add(k, m, "tags", "text")
        if not k.endswith("_template"):
            add(k, m, "file_links", "file_link")
        if k in ("process_spec", "process_run", "measurement_spec", "measurement_run"):
            add(k, m, "conditions", "condition")
            add(k, m, "parameters", "parameter")
    add("measurement_run", ent("measurement_run"), "properties", "property")
    add("material_spec", ent("material_spec"), "properties", "pac")
    add("ingredient_spec", ent("ingredient_spec"), "labels", "text")
    for f in ("allowed_names", "allowed_labels"):
        add("process_template", ent("process_template"), f, "text")
    for k in ("property", "condition", "parameter"):
        m = (lambda k: lambda **kw: cat.ATTR[k][0]("attr", **kw))(k)
        add(k, m, "file_links", "file_link")
    add("pac", lambda **kw: PropertyAndConditions(**dict({"property": WAS}, **kw)),
        "conditions", "condition")
    return out


LISTS = build_lists()
RANGES = {"material_template.properties": "property", "measurement_template.properties": "property",
          "measurement_template.conditions": "condition",
          "measurement_template.parameters": "parameter",
          "process_template.conditions": "condition", "process_template.parameters": "parameter"}


# -------------------------------------------------------------------------------- checking
def state(x):
    """Everything the object shows: fields by identity, lists by the identity of their elements."""
    out = {}
    for f in dir(type(x)):
        if f.startswith("_") or not isinstance(getattr(type(x), f), property):
            continue
        if isinstance(x, (NominalInteger, UniformInteger)):
            out[f] = ("value", getattr(x, f))
            continue
        v = getattr(x, f)
        if isinstance(v, (list, tuple)):
            out[f] = ("list", [id(e) if not isinstance(e, (str, int, float)) else e for e in v], list(v))
        elif isinstance(v, dict):
            out[f] = ("dict", list(v.items()))
        elif isinstance(v, (str, int, float, set)):
            out[f] = ("value", v)
        else:
            out[f] = ("id", v)
    for f in ("notes", "description"):
        if hasattr(x, f):
            out[f] = ("id", getattr(x, f))
    return out


def same_state(t, a, b, but=None):
    if set(a) != set(b):
        return False
    res = []
    for f in a:
        if f == but:
            continue
        if a[f][0] != b[f][0]:
            return False
        if a[f][0] == "id":
            if a[f][1] is not b[f][1]:
                return False
        elif a[f][0] == "list":
            if len(a[f][1]) != len(b[f][1]):
                return False
            res += [x == y for x, y in zip(a[f][1], b[f][1])]
        else:
            res.append(a[f][1] == b[f][1])
    return t.all(*res)


DERIVED = {("ingredient_run", "spec"), ("run", "spec"), ("pac", "property")}


def derived(owner, field):
    """Fields that follow the assigned one."""
    if field == "spec":
        return ["template", "name", "labels"] if owner == "ingredient_run" else ["template"]
    if owner == "pac" and field == "property":
        return ["name", "template", "origin", "value"]
    return []


def put(t, owner, make, field, arg, how, previous):
    """(outcome, object or None, state before)"""
    if how == "init":
        out = t.attempt(make, **{field: arg})
        return out, out.value if out.ok else None, state(make())
    obj = make(**{field: previous}) if how == "replace" and previous is not None else make()
    before = state(obj)
    return t.attempt(setattr, obj, field, arg), obj, before


def refused(t, out, obj, before, how):
    t.must_raise(out, (TypeError, ValueError), "a kind the field does not take")
    t.cover("refused")
    if how != "init":
        t.check(same_state(t, before, state(obj)), "the object is as it was")
        t.cover("kept")


def h_one(t, at, group, how):
    make, field, ok = ONE[at]
    owner = at.split(".")[0]
    kind = t.choice("kind", GROUPS[group])
    arg = POOL[kind](t)
    prev = None
    if how == "replace":
        k = [k for k in ok if k != "none"][-1]
        prev = {"text": lambda: "before", "source": lambda: PerformedSource("before"),
                "property": lambda: Property("before")}.get(k, lambda: POOL[k](Fixed()))()
    out, obj, before = put(t, owner, make, field, arg, how, prev)
    if kind not in ok:
        refused(t, out, obj, before, how)
        return
    t.must(out, "a kind the field takes")
    got = getattr(obj, field)
    if kind == "text":
        t.check(isinstance(got, str) and got == arg, "stored as given")
    else:
        t.check(got is arg, "stored as given")
    after = state(obj)
    for f in [field] + derived(owner, field):
        before.pop(f, None)
        after.pop(f, None)
    t.check(same_state(t, before, after), "nothing else changes")
    t.cover("none" if kind == "none" else "accepted")


class Fixed:
    """Stands for the harness interface where a concrete previous value is wanted."""

    def str(self, *a):
        return "q"

    def real(self, n, lo, hi):
        return hi

    def int(self, n, lo=0, hi=9):
        return hi

    def flag(self, n):
        return True

    def choice(self, n, xs):
        return xs[0]


def fill(t, how_many, kind, i0=0):
    out = []
    for i in range(how_many):
        if kind == "text":
            out.append(t.str("e%d" % (i0 + i), 0, 1))
        elif kind == "pac":
            out.append(PropertyAndConditions(Property(t.str("e%d" % (i0 + i), 0, 1))))
        elif kind == "file_link":
            out.append(FileLink(t.str("e%d" % (i0 + i), 0, 1), "u"))
        else:
            out.append(cat.ATTR[kind][0](t.str("e%d" % (i0 + i), 0, 1)))
    return out


def contain(c, xs):
    return {"list": list, "tuple": tuple, "iterator": iter}[c](xs)


def elements_are(t, got, xs):
    if not isinstance(got, list) or len(got) != len(xs):
        return False
    return t.all(*[(isinstance(a, str) and a == b) if isinstance(b, str) else a is b
                   for a, b in zip(got, xs)])


def h_list(t, at, how, c, n):
    """What a list field takes."""
    make, field, kind = LISTS[at]
    owner = at.split(".")[0]
    prev = fill(Fixed(), 1, kind)
    if c == "none":
        xs, arg = [], None
        t.cover("none")
    elif c == "single":
        xs = fill(t, 1, kind)
        arg = xs[0]
        t.cover("single")
    else:
        xs = fill(t, n, kind)
        arg = contain(c, xs)
    out, obj, before = put(t, owner, make, field, arg, how, prev)
    t.must(out, "elements the field takes")
    t.check(elements_are(t, getattr(obj, field), xs), "stored as given, in order")
    t.check(same_state(t, before, state(obj), field), "nothing else changes")
    if c == "list":
        arg.append(fill(Fixed(), 1, kind)[0])
        t.check(elements_are(t, getattr(obj, field), xs), "a list of its own")
    other = make()
    t.check(len(getattr(other, field)) == 0, "other objects")
    t.cover("accepted")


def h_shared(t, at, how, n, end):
    """A list of one object given to another of the same kind: each keeps its own."""
    if at in RANGES:
        make, field, kind = ent(at.split(".")[0]), at.split(".")[1], RANGES[at]

        def some(n, i0=0):
            return [TCLS[kind](t.str("e%d" % (i0 + i), 0, 1), bounds=IntegerBounds(0, 9))
                    for i in range(n)]
    else:
        make, field, kind = LISTS[at]

        def some(n, i0=0):
            return fill(t, n, kind, i0)
    owner = at.split(".")[0]
    first = make(**{field: some(n)})
    given = getattr(first, field)
    xs = list(given)
    out, second, before = put(t, owner, make, field, given, how, some(1, 5))
    t.must(out, "elements the field takes")
    x = some(1, 8)[0]
    mine, kept = (first, second) if end == "first" else (second, first)
    t.must(t.attempt(getattr(mine, field).append, x), "append")
    was = state(kept)[field]
    t.check(t.all(len(was[2]) == n, *[a == b if isinstance(a, str) else a is b or a == b
                                      for a, b in zip(was[2], xs)]), "a list of its own")
    t.check(len(getattr(mine, field)) == n + 1, "appended")
    if n:
        t.must(t.attempt(getattr(kept, field).pop), "pop")
        t.check(len(getattr(mine, field)) == n + 1, "a list of its own: pop")
    t.cover("two owners")


def h_list_wrong(t, at, group, how, c, first):
    """One element of another kind, alone or among right ones."""
    make, field, kind = LISTS[at]
    owner = at.split(".")[0]
    bad = t.choice("kind", GROUPS[group])
    if bad == kind or (c == "single" and bad in ("none", "list")):
        t.cover("accepted")
        return
    wrong = POOL[bad](t)
    prev = fill(Fixed(), 2, kind)
    right = fill(t, 1, kind)
    arg = wrong if c == "single" else contain(c, [wrong] + right if first else right + [wrong])
    out, obj, before = put(t, owner, make, field, arg, how, prev)
    refused(t, out, obj, before, how)


# ------------------------------------------------------------------ entries of object templates
TCLS = {"property": PropertyTemplate, "condition": ConditionTemplate, "parameter": ParameterTemplate}


def entry(t, n, kind, shape):
    """(argument, template, bounds, fits)"""
    T = LinkByUID("a", t.str(n + ".id", 0, 1)) if shape.startswith("link") else \
        TCLS[kind]("t", bounds=IntegerBounds(0, 9))
    how = shape.split("+")[1:]
    if not how:
        return T, T, None, True
    if how[0] == "none":
        b, fits = None, True
    elif how[0] == "other":
        b, fits = CategoricalBounds(["x"]), shape.startswith("link")
    else:
        lo, hi = t.int(n + ".lo", -20, 20), t.int(n + ".hi", -20, 20)
        t.assume(lo <= hi)
        b = IntegerBounds(lo, hi)
        fits = shape.startswith("link") or t.is_true(t.all(lo >= 0, hi <= 9))
    t.cover("pair")
    return ([T, b] if how[-1] == "list" else (T, b)), T, b, fits


SHAPES = ["template", "link", "template+none", "template+int", "template+int+list", "template+other",
          "link+none+list", "link+int", "link+other"]


def entries_are(t, got, want):
    return isinstance(got, list) and len(got) == len(want) and all(
        len(g) == 2 and g[0] is T and g[1] is b for g, (T, b) in zip(got, want))


def h_ranges(t, at, how, c, shapes):
    owner, field = at.split(".")
    kind = RANGES[at]
    make = ent(owner)
    es = [entry(t, "e%d" % i, kind, s) for i, s in enumerate(shapes)]
    prev = [TCLS[kind]("before", bounds=IntegerBounds(0, 1))]
    if c == "none":
        arg = None
    elif c == "single":
        arg = es[0][0]
    else:
        arg = contain(c, [e[0] for e in es])
    out, obj, before = put(t, owner, make, field, arg, how, prev)
    if not all(e[3] for e in es):
        t.must_raise(out, ValueError, "a range the template does not allow")
        if how != "init":
            t.check(same_ranges(t, before, obj, field), "the object is as it was")
        t.cover("range refused")
        return
    t.must(out, "entries the field takes")
    t.check(entries_are(t, getattr(obj, field), [(e[1], e[2]) for e in es]), "stored as pairs")
    t.check(same_state(t, before, state(obj), field), "nothing else changes")
    t.cover("accepted")


def same_ranges(t, before, obj, field):
    return same_state(t, before, state(obj))


def h_ranges_wrong(t, at, group, how, c, pair, first):
    owner, field = at.split(".")
    kind = RANGES[at]
    make = ent(owner)
    bad = t.choice("kind", GROUPS[group])
    if bad in (kind + "_template", "link") or c == "single" and bad in ("none", "list"):
        t.cover("accepted")
        return
    if bad in BOUNDS_ and not pair and not first and c != "single":
        t.cover("accepted")         # a template and its range: one entry
        return
    wrong = POOL[bad](t)
    if pair == "second":
        if bad in ["none"] + BOUNDS_:
            t.cover("accepted")
            return
        wrong = (TCLS[kind]("t", bounds=IntegerBounds(0, 9)), wrong)
    elif pair == "three":
        wrong = (TCLS[kind]("t", bounds=IntegerBounds(0, 9)), IntegerBounds(0, 1), wrong)
    elif pair:
        wrong = (wrong, None if pair == "none" else IntegerBounds(0, 1))
    prev = [TCLS[kind]("before", bounds=IntegerBounds(0, 1))]
    right = TCLS[kind]("t", bounds=IntegerBounds(0, 9))
    arg = wrong if c == "single" else contain(c, [wrong, right] if first else [right, wrong])
    out, obj, before = put(t, owner, make, field, arg, how, prev)
    refused(t, out, obj, before, how)


# --------------------------------------------------------------------- numbers and collections
NUM = {
    "nominal_integer.nominal": (lambda: NominalInteger(7), "whole"),
    "uniform_integer.lower_bound": (lambda: UniformInteger(-5, 10 ** 7), "whole"),
    "uniform_integer.upper_bound": (lambda: UniformInteger(-10 ** 7, 5), "whole"),
    "integer_bounds.lower_bound": (lambda: IntegerBounds(-5, 10 ** 7), "whole"),
    "integer_bounds.upper_bound": (lambda: IntegerBounds(-10 ** 7, 5), "whole"),
    "real_bounds.lower_bound": (lambda: RealBounds(-5, 1e7, ""), "real"),
    "real_bounds.upper_bound": (lambda: RealBounds(-1e7, 5, ""), "real"),
}


def h_number(t, at, group):
    make, kind = NUM[at]
    field = at.split(".")[1]
    k = t.choice("kind", [k for k in GROUPS[group] if k != "bool"])
    arg = POOL[k](t)
    obj = make()
    before = state(obj)
    out = t.attempt(setattr, obj, field, arg)
    if k == "int" or k == "float" and (kind == "real" or t.is_true(t.is_int_valued(arg))):
        t.must(out, "a number the field takes")
        got = getattr(obj, field)
        t.check(isinstance(got, int if kind == "whole" else float) and got == arg, "stored")
        t.check(same_state(t, before, state(obj), field), "nothing else changes")
        t.cover("number")
    else:
        refused(t, out, obj, before, "set")


SETS = {"categorical_bounds.categories": CategoricalBounds,
        "composition_bounds.components": CompositionBounds}


def h_set(t, at, group, c, how):
    cls, field = SETS[at], at.split(".")[1]
    k = t.choice("kind", GROUPS[group])
    if c == "bare" and k == "list":
        k = "object"
    x = POOL[k](t)
    y = t.str("y", 0, 1)
    if c != "bare" and k in ("dict", "list", "ints"):
        x = 5                       # unhashable elements are refused by the set itself
    arg = x if c == "bare" else {"list": list, "tuple": tuple, "set": set}[c]([x, y])
    if how == "init":
        obj, before = None, None
        out = t.attempt(cls, arg)
        obj = out.value if out.ok else None
    else:
        obj = cls(["before"])
        before = state(obj)
        out = t.attempt(setattr, obj, field, arg)
    if c == "bare" and k in ("none", "ints"):
        if k == "none":
            t.must(out, "nothing")
            t.check(len(getattr(obj, field)) == 0, "empty")
            t.cover("none")
            return
    elif c != "bare" and k == "text":
        t.must(out, "texts")
        got = getattr(obj, field)
        t.check(t.all(x in got, y in got, *[t.any(g == x, g == y) for g in got]), "the texts given")
        t.cover("accepted")
        return
    t.must_raise(out, (TypeError, ValueError), "not a collection of texts")
    t.cover("refused")
    if obj is not None:
        t.check(same_state(t, before, state(obj)), "the object is as it was")


MORE = {"empirical_formula.formula": (lambda: EmpiricalFormula("H2O"), ["none"]),
        "inchi.inchi": (lambda: InChI("InChI=1S/C"), ["none"]),
        "discrete_categorical.probabilities": (lambda: DiscreteCategorical({"a": 0.5, "b": 0.5}),
                                               ["none"]),
        "nominal_composition.quantities": (lambda: NominalComposition({"a": 0.5}), ["none"])}


def h_more(t, at, group):
    """Fields whose texts and dictionaries are the subject of C23 and C03: other kinds."""
    make, ok = MORE[at]
    field = at.split(".")[1]
    k = t.choice("kind", [k for k in GROUPS[group] if k not in ("text", "dict", "list")] +
                 ["bad items"])
    arg = POOL[k](t) if k != "bad items" else {
        "empirical_formula": "Qq", "inchi": 5, "discrete_categorical": {5: 1.0},
        "nominal_composition": [1, 2]}[at.split(".")[0]]
    obj = make()
    before = state(obj)
    out = t.attempt(setattr, obj, field, arg)
    if k in ok:
        t.must(out, "nothing")
        t.check(not getattr(obj, field), "nothing stored")
        t.cover("none")
    else:
        refused(t, out, obj, before, "set")


def cases(tier):
    th = tier == "thorough"
    out = []
    for i, name in enumerate(ONE):
        for g in GROUPS:
            takes = set(GROUPS[g]) & set(ONE[name][2]) - {"none"}
            for how in ("init", "set", "replace") if th or takes else ("init", "replace"):
                out.append(case("h_one", at=name, group=g, how=how))
    C = ["list", "tuple", "iterator"]
    H = ["init", "set", "replace"]
    i = 0
    for name in LISTS:
        for how in H:
            for c, n in [("none", 0), ("single", 1), ("list", 0), ("list", 2), ("tuple", 2),
                         ("iterator", 2)] + ([("list", 3), ("tuple", 0), ("iterator", 3)] if th else []):
                out.append(case("h_list", at=name, how=how, c=c, n=n))
        for g in GROUPS:
            for how in H:
                if th or how == H[1 + i % 2]:
                    out.append(case("h_list_wrong", at=name, group=g, how=how, c="single", first=True))
                for c in C if th else [C[i % 3]]:
                    for first in (True, False) if th else (i % 4 > 1,):
                        if th or how == "replace" or i % 5 == 0:
                            out.append(case("h_list_wrong", at=name, group=g, how=how, c=c,
                                            first=first))
                i += 1
    for name in RANGES:
        for how in H:
            out.append(case("h_ranges", at=name, how=how, c="none", shapes=[]))
            for s in SHAPES:
                if s != "template+none" and s != "link+none+list":
                    out.append(case("h_ranges", at=name, how=how, c="single", shapes=[s]))
                out.append(case("h_ranges", at=name, how=how, c=C[i % 3], shapes=[s]))
                for s2 in SHAPES if th else [SHAPES[i % len(SHAPES)]]:
                    out.append(case("h_ranges", at=name, how=how, c=C[(i + 1) % 3], shapes=[s, s2]))
                i += 1
            for g in GROUPS if th or how != "set" else ():
                out.append(case("h_ranges_wrong", at=name, group=g, how=how, c="single", pair="",
                                first=True))
                for pair in ("", "none", "bounds", "second", "three"):
                    out.append(case("h_ranges_wrong", at=name, group=g, how=how, c=C[i % 3],
                                    pair=pair, first=i % 2 == 0))
                    i += 1
    for i, name in enumerate(list(LISTS) + list(RANGES)):
        for j, how in enumerate(H):
            for n in (0, 1, 2) if th else (1,):
                for e in ("first", "second") if th else (("first", "second")[(i + j) % 2],):
                    out.append(case("h_shared", at=name, how=how, n=n, end=e))
    for name in NUM:
        for g in GROUPS:
            out.append(case("h_number", at=name, group=g))
    for name in SETS:
        for g in GROUPS:
            for c in ("bare", "list", "tuple", "set"):
                for how in ("init", "set"):
                    out.append(case("h_set", at=name, group=g, c=c, how=how))
    for name in MORE:
        for g in GROUPS:
            out.append(case("h_more", at=name, group=g))
    return list({c["name"]: c for c in out}.values())
