"""Every concrete GEMD class with its fields, generators of symbolic field values and an
independent notion of what those values are (descriptions), compared by deq()."""
import itertools

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalInteger, UniformInteger, NominalReal, UniformReal, NormalReal,
                               NominalCategorical, DiscreteCategorical, NominalComposition,
                               EmpiricalFormula, Smiles, InChI)
from gemd.entity.template import (PropertyTemplate, ConditionTemplate, ParameterTemplate,
                                  MaterialTemplate, MeasurementTemplate, ProcessTemplate)
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                IngredientSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.source.performed_source import PerformedSource
from gemd.enumeration import Origin, SampleType

NONE = ("none",)


# ------------------------------------------------------------------ descriptions
def deq(t, a, b, tolerant=False):
    """Do two descriptions denote equal values?  tolerant: an empty multiset matches any."""
    if a[0] == "link" and b[0] == "ent":
        a, b = b, a
    if a[0] == "ent" and b[0] == "link":
        return t.any(*[t.all(s.lower() == b[1].lower(), u == b[2]) for s, u in a[2].items()]) \
            if a[2] else False
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "none":
        return True
    if k in ("str", "num", "lit"):
        return a[1] == b[1]
    if k == "link":
        return t.all(a[1] == b[1], a[2] == b[2])
    if k == "obj":
        return a[1] == b[1] and t.all(*[deq(t, a[2][f], b[2][f]) for f in a[2]])
    if k == "ent":
        if a[1] != b[1]:
            return False
        return t.all(ueq(t, a[2], b[2]), *[deq(t, a[3][f], b[3][f], bool(a[2])) for f in a[3]])
    if k == "seq":
        return len(a[1]) == len(b[1]) and t.all(*[deq(t, x, y) for x, y in zip(a[1], b[1])])
    if k == "ms":
        if tolerant and (not a[1] or not b[1]):
            return True
        return ms_eq(t, a[1], b[1])
    if k == "map":
        return len(a[1]) == len(b[1]) and t.all(*[
            t.any(*[t.all(deq(t, x, y), deq(t, v, w)) for y, w in b[1]]) for x, v in a[1]])
    if k == "set":
        return t.all(*([t.any(*[deq(t, x, y) for y in b[1]]) for x in a[1]] +
                       [t.any(*[deq(t, x, y) for y in a[1]]) for x in b[1]]))
    raise ValueError(k)


def ms_eq(t, xs, ys):
    if len(xs) != len(ys):
        return False
    if not xs:
        return True
    return t.any(*[t.all(*[deq(t, x, ys[i]) for x, i in zip(xs, p)])
                   for p in itertools.permutations(range(len(ys)))])


def ueq(t, a, b):
    """Same uids (scopes compared as written)."""
    if len(a) != len(b):
        return False
    return t.all(*[t.any(*[t.all(s == s2, u == u2) for s2, u2 in b.items()]) for s, u in a.items()])


# -------------------------------------------------------------------- generators
def g_text(t, n):
    s = t.str(n, 1, 1)
    return s, ("str", s)


def g_otext(t, n):
    if t.flag(n + "?"):
        return None, NONE
    s = t.str(n, 0, 1)
    return s, ("str", s)


def g_strs(t, n, most=2, kind="ms"):
    k = t.pick(n + "#", most + 1)
    xs = [t.str("%s.%d" % (n, i), 1, 1) for i in range(k)]
    return list(xs), (kind, [("str", x) for x in xs])


def g_tags(t, n):
    return g_strs(t, n)


def file_link(t, n):
    a, b = t.str(n + ".f", 1, 1), t.str(n + ".u", 1, 1)
    return FileLink(a, b), ("obj", "file_link", {"filename": ("str", a), "url": ("str", b)})


def g_files(t, n, most=2):
    k = t.pick(n + "#", most + 1)
    xs = [file_link(t, "%s.%d" % (n, i)) for i in range(k)]
    return [x for x, _ in xs], ("ms", [d for _, d in xs])


def g_uids(t, n):
    k = t.pick(n + "#", 3)
    d = {}
    for i in range(k):
        d["ab"[i]] = t.str("%s.%d" % (n, i), 1, 1)
    return dict(d), d


VALUE_KINDS = ["int", "uint", "real", "ureal", "normal", "cat", "dcat", "comp", "formula", "smiles",
               "inchi"]


def value(t, n, kind):
    """A value of the given kind with symbolic content, and its description."""
    if kind == "int":
        x = t.int(n)
        return NominalInteger(x), ("obj", "nominal_integer", {"nominal": ("num", x)})
    if kind == "uint":
        x, y = t.int(n + ".l"), t.int(n + ".u")
        t.assume(x <= y)
        return UniformInteger(x, y), ("obj", "uniform_integer",
                                      {"lower_bound": ("num", x), "upper_bound": ("num", y)})
    if kind in ("real", "ureal", "normal"):
        u = t.choice(n + ".units", ["m", ""])
        D = ("str", {"m": "meter", "": "dimensionless"}[u])
        if kind == "real":
            x = t.real(n)
            return NominalReal(x, u), ("obj", "nominal_real", {"nominal": ("num", x), "units": D})
        x, y = t.real(n + ".x"), t.real(n + ".y")
        if kind == "normal":
            return NormalReal(x, y, u), ("obj", "normal_real",
                                         {"mean": ("num", x), "std": ("num", y), "units": D})
        t.assume(x <= y)
        return UniformReal(x, y, u), ("obj", "uniform_real", {
            "lower_bound": ("num", x), "upper_bound": ("num", y), "units": D})
    if kind == "cat":
        s = t.str(n, 0, 1)
        return NominalCategorical(s), ("obj", "nominal_categorical", {"category": ("str", s)})
    if kind == "dcat":
        s, u = t.str(n + ".a", 1, 1), t.str(n + ".b", 1, 1)
        p = t.real(n + ".p", 0.25, 0.75)
        t.assume(s != u)
        q = 0.5
        if t.flag(n + ".one"):
            return DiscreteCategorical(s), ("obj", "discrete_categorical", {
                "probabilities": ("map", [(("str", s), ("num", 1.0))])})
        t.assume(p == q)
        return DiscreteCategorical({s: p, u: q}), ("obj", "discrete_categorical", {
            "probabilities": ("map", [(("str", s), ("num", p)), (("str", u), ("num", q))])})
    if kind == "comp":
        k = t.pick(n + "#", 3)
        ks = [t.str("%s.k%d" % (n, i), 1, 1) for i in range(k)]
        if k == 2:
            t.assume(ks[0] != ks[1])
        vs = [t.real("%s.v%d" % (n, i)) for i in range(k)]
        d = {}
        for a, b in zip(ks, vs):
            d[a] = b
        return NominalComposition(d), ("obj", "nominal_composition", {
            "quantities": ("map", [(("str", a), ("num", b)) for a, b in zip(ks, vs)])})
    if kind == "formula":
        s = t.choice(n, ["C", "(H2O)3", "CaTiO3"])
        return EmpiricalFormula(s), ("obj", "empirical_formula", {"formula": ("str", s)})
    if kind == "smiles":
        s = t.str(n, 0, 1)
        return Smiles(s), ("obj", "smiles", {"smiles": ("str", s)})
    if kind == "inchi":
        s = "InChI=1S/" + t.str(n, 0, 1)
        return InChI(s), ("obj", "inchi", {"inchi": ("str", s)})
    raise ValueError(kind)


BOUND_KINDS = ["int", "real", "cat", "comp", "mol"]


def bounds(t, n, kind):
    if kind == "int":
        x, y = t.int(n + ".l"), t.int(n + ".u")
        t.assume(x <= y)
        return IntegerBounds(x, y), ("obj", "integer_bounds", {
            "lower_bound": ("num", x), "upper_bound": ("num", y)})
    if kind == "real":
        u = t.choice(n + ".units", ["m", "s"])
        x, y = t.real(n + ".l"), t.real(n + ".u")
        t.assume(x <= y)
        return RealBounds(x, y, u), ("obj", "real_bounds", {
            "lower_bound": ("num", x), "upper_bound": ("num", y),
            "default_units": ("str", {"m": "meter", "s": "second"}[u])})
    if kind in ("cat", "comp"):
        k = t.pick(n + "#", 3)
        xs = [t.str("%s.%d" % (n, i), 1, 1) for i in range(k)]
        cls, f = (CategoricalBounds, "categories") if kind == "cat" else \
            (CompositionBounds, "components")
        return cls(list(xs)), ("obj", cls.typ, {f: ("set", [("str", x) for x in xs])})
    return MolecularStructureBounds(), ("obj", "molecular_structure_bounds", {})


ATTR = {"property": (Property, PropertyTemplate), "condition": (Condition, ConditionTemplate),
        "parameter": (Parameter, ParameterTemplate)}


def attribute(t, n, kind, vary="name"):
    """An attribute with one symbolic field."""
    cls, tcls = ATTR[kind]
    kw = {"name": "attr"}
    d = {"name": ("str", "attr"), "notes": NONE, "value": NONE, "template": NONE,
         "origin": ("lit", "unknown"), "file_links": ("seq", [])}
    if vary == "name":
        kw["name"], d["name"] = g_text(t, n + ".name")
    elif vary == "notes":
        kw["notes"], d["notes"] = g_otext(t, n + ".notes")
    elif vary == "value":
        if not t.flag(n + ".noval"):
            kw["value"], d["value"] = value(t, n + ".val", t.choice(n + ".vk", ["int", "cat", "real"]))
    elif vary == "origin":
        o = t.choice(n + ".origin", list(Origin))
        kw["origin"], d["origin"] = o, ("lit", o.value)
    elif vary == "file_links":
        fs, fd = g_files(t, n + ".files", 1)
        kw["file_links"], d["file_links"] = fs, ("seq", fd[1])
    elif vary == "template":
        kw["template"], d["template"] = ref(t, n + ".tmpl", kind + "_template")
    return cls(**kw), ("obj", kind, d)


def g_attrs(kind, vary="name", most=2):
    def gen(t, n):
        k = t.pick(n + "#", most + 1)
        xs = [attribute(t, "%s.%d" % (n, i), kind, vary) for i in range(k)]
        return [x for x, _ in xs], ("ms", [d for _, d in xs])
    return gen


def g_pacs(vary="name", most=2):
    def gen(t, n):
        k = t.pick(n + "#", most + 1)
        xs = [pac(t, "%s.%d" % (n, i), vary) for i in range(k)]
        return [x for x, _ in xs], ("ms", [d for _, d in xs])
    return gen


def pac(t, n, vary="name"):
    p, pd = attribute(t, n + ".p", "property", vary)
    k = t.pick(n + ".c#", 2)
    cs = [attribute(t, "%s.c%d" % (n, i), "condition", vary) for i in range(k)]
    return PropertyAndConditions(p, [c for c, _ in cs]), \
        ("obj", "property_and_conditions", {"property": pd, "conditions": ("seq", [d for _, d in cs])})


def g_ranges(kind):
    tkind = kind + "_template"

    def gen(t, n):
        k = t.pick(n + "#", 3)
        out, ds, ids = [], [], []
        for i in range(k):
            p = "%s.%d" % (n, i)
            r, d = ref(t, p, tkind, none=False, scopes=("a",))
            ident = d[2] if d[0] == "link" else d[2].get("a")
            if ident is not None:
                # one list does not refer to one id twice (links and entities: no transitivity)
                for other in ids:
                    t.assume(other != ident)
                ids.append(ident)
            if t.flag(p + ".b"):
                out.append((r, IntegerBounds(1, 2)))
                ds.append(("seq", [d, ("obj", "integer_bounds", {"lower_bound": ("num", 1),
                                                                 "upper_bound": ("num", 2)})]))
            else:
                out.append(r)
                ds.append(("seq", [d, NONE]))
        return out, ("ms", ds)
    return gen


def g_frac(t, n):
    if t.flag(n + "?"):
        return None, NONE
    x = t.real(n, 0.0, 1.0)
    return NominalReal(x, ""), ("obj", "nominal_real", {
        "nominal": ("num", x), "units": ("str", "dimensionless")})


def g_abs(t, n):
    if t.flag(n + "?"):
        return None, NONE
    x = t.real(n, 0.0, 1e30)
    u = t.choice(n + ".units", ["kg", "m"])
    return NominalReal(x, u), ("obj", "nominal_real", {
        "nominal": ("num", x), "units": ("str", {"kg": "kilogram", "m": "meter"}[u])})


def g_source(t, n):
    if t.flag(n + "?"):
        return None, NONE
    a, da = g_otext(t, n + ".by")
    b, db = g_otext(t, n + ".date")
    return PerformedSource(a, b), ("obj", "performed_source", {
        "performed_by": da, "performed_date": db})


def g_sample(t, n):
    m = t.choice(n, list(SampleType))
    return m, ("lit", m.value)


def g_bounds(t, n):
    return bounds(t, n, t.choice(n + ".kind", ["int", "cat"]))


def g_ref(kind):
    return lambda t, n: ref(t, n, kind)


def minimal(kind, **kw):
    """An entity of the kind with its required fields, and its description's fields."""
    cls = CLASSES[kind][0]
    full = dict(CLASSES[kind][1])
    full.update(kw)
    return cls(**full)


def ref(t, n, kind, none=True, scopes=("a", "A")):
    """A reference: None, a link, or an entity with symbolic notes/description and maybe a uid."""
    k = t.pick(n + "#ref", 4 if none else 3)
    if k == 0:
        s, i = t.choice(n + ".scope", list(scopes)), t.str(n + ".id", 1, 1)
        return LinkByUID(s, i), ("link", s, i)
    if k == 3:
        return None, NONE
    f = "notes" if "notes" in CLASSES[kind][2] else "description"
    x = t.str(n + ".txt", 1, 1)
    kw, uids = {f: x}, {}
    if k == 2:
        uids = {"a": t.str(n + ".uid", 1, 1)}
        kw["uids"] = dict(uids)
    return minimal(kind, **kw), ("ent", kind, uids, {f: ("str", x)})


COMMON = {"tags": g_tags}
OBJ = {"tags": g_tags, "notes": g_otext, "file_links": g_files}
QTY = {"mass_fraction": g_frac, "volume_fraction": g_frac, "number_fraction": g_frac,
       "absolute_quantity": g_abs}
ATMPL = dict(COMMON, name=g_text, description=g_otext, bounds=g_bounds)
C_, P_ = g_attrs("condition"), g_attrs("parameter")

CLASSES = {
    "property_template": (PropertyTemplate, {"name": "n", "bounds": IntegerBounds(0, 9)}, ATMPL),
    "condition_template": (ConditionTemplate, {"name": "n", "bounds": IntegerBounds(0, 9)}, ATMPL),
    "parameter_template": (ParameterTemplate, {"name": "n", "bounds": IntegerBounds(0, 9)}, ATMPL),
    "material_template": (MaterialTemplate, {"name": "n"}, dict(
        COMMON, name=g_text, description=g_otext, properties=g_ranges("property"))),
    "measurement_template": (MeasurementTemplate, {"name": "n"}, dict(
        COMMON, name=g_text, description=g_otext, properties=g_ranges("property"),
        conditions=g_ranges("condition"), parameters=g_ranges("parameter"))),
    "process_template": (ProcessTemplate, {"name": "n"}, dict(
        COMMON, name=g_text, description=g_otext, conditions=g_ranges("condition"),
        parameters=g_ranges("parameter"), allowed_names=g_strs, allowed_labels=g_strs)),
    "process_spec": (ProcessSpec, {"name": "n"}, dict(
        OBJ, name=g_text, template=g_ref("process_template"), conditions=C_, parameters=P_)),
    "process_run": (ProcessRun, {"name": "n"}, dict(
        OBJ, name=g_text, spec=g_ref("process_spec"), conditions=C_, parameters=P_,
        source=g_source)),
    "material_spec": (MaterialSpec, {"name": "n"}, dict(
        OBJ, name=g_text, template=g_ref("material_template"), process=g_ref("process_spec"),
        properties=g_pacs())),
    "material_run": (MaterialRun, {"name": "n"}, dict(
        OBJ, name=g_text, spec=g_ref("material_spec"), process=g_ref("process_run"),
        sample_type=g_sample)),
    "ingredient_spec": (IngredientSpec, {"name": "n"}, dict(
        OBJ, name=g_text, material=g_ref("material_spec"), process=g_ref("process_spec"),
        labels=g_strs, **QTY)),
    "ingredient_run": (IngredientRun, {}, dict(
        OBJ, material=g_ref("material_run"), process=g_ref("process_run"),
        spec=g_ref("ingredient_spec"), **QTY)),
    "measurement_spec": (MeasurementSpec, {"name": "n"}, dict(
        OBJ, name=g_text, template=g_ref("measurement_template"), conditions=C_, parameters=P_)),
    "measurement_run": (MeasurementRun, {"name": "n"}, dict(
        OBJ, name=g_text, spec=g_ref("measurement_spec"), material=g_ref("material_run"),
        properties=g_attrs("property"), conditions=C_, parameters=P_, source=g_source)),
}


# ---------------------------------------------------- what an object holds, against a description
def holds(t, got, d):
    """Is `got` exactly what the description says?  Lists in order, types included."""
    k = d[0]
    if k == "none":
        return got is None
    if k == "str":
        return isinstance(got, str) and got == d[1]
    if k == "num":
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == d[1]
    if k == "lit":
        return got == d[1] and str(got) == d[1]
    if k == "link":
        return isinstance(got, LinkByUID) and t.all(got.scope == d[1], got.id == d[2])
    if k == "obj":
        return type(got).typ == d[1] and t.all(*[holds(t, getattr(got, f), v)
                                                  for f, v in d[2].items()])
    if k == "ent":
        return getattr(type(got), "typ", None) == d[1] and t.all(
            *[holds(t, getattr(got, f), v) for f, v in d[3].items()])
    if k in ("seq", "ms"):
        return isinstance(got, (list, tuple)) and len(got) == len(d[1]) and \
            t.all(*[holds(t, x, y) for x, y in zip(got, d[1])])
    if k == "map":
        return len(got) == len(d[1]) and t.all(*[
            t.any(*[t.all(holds(t, x, a), holds(t, v, b)) for x, v in got.items()]) for a, b in d[1]])
    if k == "set":
        return t.all(*([t.any(*[holds(t, x, y) for y in d[1]]) for x in got] +
                       [t.any(*[holds(t, x, y) for x in got]) for y in d[1]]))
    raise ValueError(k)


def uids_are(t, got, want):
    """The uids are exactly `want` (scopes as written)."""
    return len(got) == len(want) and t.all(*[
        t.any(*[t.all(s == s2, u == u2) for s2, u2 in got.items()]) for s, u in want.items()])


def ids_in(d):
    """Every id of a link or entity in a description."""
    k = d[0]
    if k == "link":
        return [d[2]]
    if k == "ent":
        return list(d[2].values()) + [i for v in d[3].values() for i in ids_in(v)]
    if k == "obj":
        return [i for v in d[2].values() for i in ids_in(v)]
    if k in ("seq", "ms", "set"):
        return [i for v in d[1] for i in ids_in(v)]
    return []


def unambiguous(t, *ids):
    for i, x in enumerate(ids):
        for y in ids[:i]:
            t.assume(x != y)
