"""C21: Builders wire complete, consistent nodes, edges and attributes."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.builders import (make_node, add_edge, add_measurement, add_attribute, make_attribute,
                           make_value)
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.bounds.base_bounds import BaseBounds
from gemd.entity.value import (NominalReal, NominalInteger, NominalCategorical, EmpiricalFormula, InChI,
                               Smiles, UniformReal, NormalReal)
from gemd.entity.template import (PropertyTemplate, ConditionTemplate, ParameterTemplate,
                                  MaterialTemplate, MeasurementTemplate, ProcessTemplate)
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                IngredientSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["make_node: every name, process name (present, empty or absent) and template name of up "
              "to 2 characters, templates present or absent",
              "add_edge: 1-2 edges into a node; name absent or any text of up to 2 characters; each "
              "quantity absent, any float or int in its range, or a nominal, normal or uniform value; "
              "units present or absent; every way for input or output to lack spec, process or spec's "
              "process, or to hold links instead",
              "add_measurement: name and template present or absent; 0-3 attributes of all kinds, one "
              "maybe twice, in any order, and things that are none; a material measured before",
              "add_attribute: 11 targets x 3 kinds of template x values; material specs with 0-2 "
              "properties; make_attribute, make_value: 5 kinds of bounds x any int, float, text of up "
              "to 8 characters or ready-made value"],
    "thorough": ["3 edges, 4 attributes, texts of up to 12 characters"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS
COVERS = {"all": ["named process", "template name", "node name", "edge", "second edge", "number",
                  "whole number", "value", "units refused", "incomplete", "by link", "measurement",
                  "no name", "not an attribute", "attached", "does not fit", "condition of property",
                  "inchi", "smiles", "unknown bounds", "not an attribute template"]}


def otext(t, n, most=2):
    return t.str(n, 0, most) if t.flag(n + "?") else None


# ------------------------------------------------------------------------------------ nodes
def check_node(t, m, name, pname, pt, mt):
    t.check(type(m) is MaterialRun, "a material run")
    t.check(m.name == name, "the node's name")
    ms, pr = m.spec, m.process
    t.check(type(ms) is MaterialSpec and type(pr) is ProcessRun, "spec and process")
    ps = pr.spec
    t.check(type(ps) is ProcessSpec and ms.process is ps, "the process spec of both")
    t.check(ms.name == name, "the name of the material spec")
    t.check(t.all(pr.name == pname, ps.name == pname), "the process's name")
    t.check(pr.output_material is m and ps.output_material is ms, "outputs")
    t.check(ms.template is mt and m.template is mt, "material template")
    t.check(ps.template is pt and pr.template is pt, "process template")
    t.check(pr.ingredients == [] and ps.ingredients == [] and m.measurements == [], "nothing else")


def h_node(t):
    name = t.str("name", 0, 2)
    pname = otext(t, "pname")
    pt = ProcessTemplate(t.str("ptn", 0, 2)) if t.flag("pt") else None
    mt = MaterialTemplate(t.str("mtn", 0, 2)) if t.flag("mt") else None
    kw = {}
    if pname is not None or t.flag("explicit"):
        kw["process_name"] = pname
    if pt is not None or t.flag("explicit2"):
        kw["process_template"] = pt
    if mt is not None:
        kw["material_template"] = mt
    m = t.must(t.attempt(make_node, name, **kw), "make_node")
    if pname is not None:
        want = pname
        t.cover("named process")
    elif pt is not None:
        want = pt.name
        t.cover("template name")
    else:
        want = name
        t.cover("node name")
    check_node(t, m, name, want, pt, mt)
    other = t.must(t.attempt(make_node, name, **kw), "make_node")
    check_node(t, other, name, want, pt, mt)
    check_node(t, m, name, want, pt, mt)
    t.check(other is not m and other.spec is not m.spec and other.process is not m.process and
            other.process.spec is not m.process.spec, "a node of its own")


# ------------------------------------------------------------------------------------ edges
def quantity(t, n, kind, hi, units):
    """(argument, check of what is stored)"""
    if kind == "none":
        return None, lambda got: got is None
    if kind in ("float", "int"):
        x = t.real(n, 0.0, hi) if kind == "float" else t.int(n, 0, int(min(hi, 10 ** 9)))
        t.cover("number" if kind == "float" else "whole number")
        return x, lambda got: type(got) is NominalReal and t.all(
            got.nominal == x, got.units == units)
    x = t.real(n, 0.0, hi)
    u = "" if hi == 1.0 else "g"
    v = {"nominal": lambda: NominalReal(x, u), "normal": lambda: NormalReal(x, 0.0, u),
         "uniform": lambda: UniformReal(0.0, x, u)}[kind]()
    t.cover("value")
    return v, lambda got: got is v


QTY = ["mass_fraction", "number_fraction", "volume_fraction", "absolute_quantity"]


def check_edge(t, r, a, out_run_process, out_spec_process, name, want):
    t.check(type(r) is IngredientRun and type(r.spec) is IngredientSpec, "run and spec")
    t.check(r.material is a and r.process is out_run_process, "the runs are connected")
    t.check(r.spec.material is a.spec and r.spec.process is out_spec_process,
            "the specs are connected")
    t.check(t.all(r.name == name, r.spec.name == name), "the ingredient's name")
    for q in QTY:
        t.check(want[q](getattr(r, q)), q)
        t.check(getattr(r.spec, q) is None, q + " of the spec")
    t.check(r.labels == [] and r.spec.labels == [], "no labels")


def h_edge(t, kinds, edges=1):
    a, b = make_node("in"), make_node("out", process_name="mix")
    rs, checks = [], []
    for i in range(edges):
        src = a if i == 0 or t.flag("same%d" % i) else make_node("in2")
        kw, want = {}, {}
        name = otext(t, "name%d" % i)
        if name is not None:
            kw["name"] = name
        units = t.choice("units%d" % i, [("kg", "kilogram"), ("", "dimensionless")])
        for q, kind in zip(QTY, kinds if i == 0 else ["none", "float", "none", "none"]):
            ab = q == "absolute_quantity"
            x, want[q] = quantity(t, "%s%d" % (q, i), kind, 1e30 if ab else 1.0,
                                  units[1] if ab else "dimensionless")
            if x is not None:
                kw[q] = x
            if ab and kind in ("float", "int"):
                kw["absolute_units"] = units[0]
        r = t.must(t.attempt(add_edge, src, b, **kw), "add_edge")
        checks.append((r, src, b.process, b.spec.process,
                       src.name if name is None else name, want))
        rs.append(r)
        for c in checks:
            check_edge(t, *c)
        for got, want_ in ((b.process.ingredients, rs), (b.spec.process.ingredients,
                                                        [x.spec for x in rs])):
            t.check(len(got) == len(want_) and all(x is y for x, y in zip(got, want_)),
                    "exactly the edges of the node")
        for m, n in ((a, "in"), (src, "in")):
            t.check(m.process.ingredients == [] and m.process.spec.ingredients == [],
                    "the input's own process")
        t.check(a.spec.process is a.process.spec and b.spec.process is b.process.spec and
                b.process.output_material is b and b.spec.process.output_material is b.spec,
                "the nodes stay as they are")
        t.cover("edge" if i == 0 else "second edge")


def h_units(t, kind, units):
    """Units belong to an absolute quantity that is a number, and to nothing else."""
    a, b = make_node("in"), make_node("out")
    kw = {}
    if kind is not None:
        kw["absolute_quantity"], _ = quantity(t, "q", kind, 1e30, None)
    if units is not None:
        kw["absolute_units"] = units
    if t.flag("mass"):
        kw["mass_fraction"] = t.real("m", 0.0, 1.0)
    out = t.attempt(add_edge, a, b, **kw)
    number = kind in ("float", "int")
    if number == (units is not None):
        t.must(out, "units where they belong")
    else:
        t.must_raise(out, ValueError, "misplaced or missing units")
        t.cover("units refused")


def h_incomplete(t):
    a = make_node("in")
    k = t.choice("input", ["full", "no spec", "spec link", "no process", "bare spec"])
    if k == "no spec":
        a.spec = None
    elif k == "spec link":
        a.spec = LinkByUID("s", "x")
    elif k == "no process":
        a.process = None
    elif k == "bare spec":
        a.spec = MaterialSpec("lone")
    b = make_node("out")
    rp, sp = b.process, b.process.spec
    o = t.choice("output", ["full", "no spec", "spec link", "no process", "no spec process", "neither",
                            "process link", "spec process link"])
    if o == "no spec":
        b.spec = None
    elif o == "spec link":
        b.spec = LinkByUID("s", "y")
    if o in ("no process", "neither"):
        b.process = None
    elif o == "process link":
        b.process = LinkByUID("s", "p")
    if o in ("no spec process", "neither"):
        b.spec.process = None
    elif o == "spec process link":
        b.spec.process = LinkByUID("s", "q")
    out = t.attempt(add_edge, a, b, mass_fraction=t.real("m", 0.0, 1.0))
    bad = k == "no spec" or o in ("no spec", "spec link", "no process", "no spec process", "neither")
    if bad:
        t.must_raise(out, ValueError, "an incomplete material")
        t.check(rp.ingredients == [] and sp.ingredients == [], "nothing is connected")
        t.cover("incomplete")
        return
    r = t.must(out, "add_edge")
    t.check(r.material is a and r.process is b.process and r.spec.material is a.spec and
            r.spec.process is b.spec.process, "connected")
    t.check(r.name == a.name, "name")
    if "link" in k or "link" in o:
        t.cover("by link")


# ------------------------------------------------------------------------------ measurements
def attr(t, n, k):
    if k == "property":
        return Property(t.str(n, 0, 1), value=NominalInteger(t.int(n + ".v")))
    if k == "condition":
        return Condition(t.str(n, 0, 1))
    return Parameter(t.str(n, 0, 1))


def h_measurement(t, kinds, before):
    m = make_node("mat")
    old = [add_measurement(m, name="old%d" % i) for i in range(before)]
    name = otext(t, "name")
    tmpl = MeasurementTemplate(t.str("tn", 0, 2)) if t.flag("tmpl") else None
    xs = None if kinds is None else [attr(t, "a%d" % i, k) for i, k in enumerate(kinds)]
    if xs and t.flag("repeat"):
        xs.append(xs[0])
    kw = {}
    if name is not None:
        kw["name"] = name
    if tmpl is not None:
        kw["template"] = tmpl
    if xs is not None:
        kw["attributes"] = tuple(xs) if t.flag("tuple") else list(xs)
    out = t.attempt(add_measurement, m, **kw)
    if name is None and tmpl is None:
        t.must_raise(out, ValueError, "neither name nor template")
        t.check(len(m.measurements) == before, "nothing is attached")
        t.cover("no name")
        return
    r = t.must(out, "add_measurement")
    want = tmpl.name if name is None else name
    t.check(type(r) is MeasurementRun and type(r.spec) is MeasurementSpec, "run and spec")
    t.check(t.all(r.name == want, r.spec.name == want), "the measurement's name")
    t.check(r.material is m and r.spec.template is tmpl and r.template is tmpl, "links")
    t.check(len(m.measurements) == before + 1 and all(
        x is y for x, y in zip(m.measurements, old + [r])), "the material's measurements")
    for f, k in (("properties", Property), ("conditions", Condition), ("parameters", Parameter)):
        got, exp = getattr(r, f), [x for x in xs or [] if isinstance(x, k)]
        t.check(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), f)
        if k is not Property:
            t.check(list(getattr(r.spec, f)) == [], f + " of the spec")
    for o in old:
        t.check(o.material is m and list(o.properties) == [], "earlier measurements")
    t.cover("measurement")


def h_other_attributes(t):
    m = make_node("mat")
    bad = t.choice("bad", [PropertyAndConditions(Property("p")), NominalInteger(3), "text", 5,
                           PropertyTemplate("t", bounds=IntegerBounds(0, 1))])
    xs = [bad, Property("q")] if t.flag("first") else [Property("q"), bad]
    t.must_raise(t.attempt(add_measurement, m, name="n", attributes=xs), ValueError,
                 "not a property, condition or parameter")
    t.cover("not an attribute")


# --------------------------------------------------------------------------------- attributes
TEMPLATE = {"property": PropertyTemplate, "condition": ConditionTemplate,
            "parameter": ParameterTemplate}
CLASS = {"property": Property, "condition": Condition, "parameter": Parameter}
FIELD = {"property": "properties", "condition": "conditions", "parameter": "parameters"}


def raw(t, kind, most=4):
    """(bounds, primitive argument, check of the value that is made)"""
    if kind == "real":
        u, want = t.choice("units", [("m", "meter"), ("", "dimensionless"), ("degC", "degree_Celsius")])
        x = t.real("x") if t.flag("float") else t.int("xi", -10 ** 9, 10 ** 9)
        return RealBounds(-1e308, 1e308, u), x, lambda v: type(v) is NominalReal and t.all(
            v.nominal == x, v.units == want)
    if kind == "int":
        x = t.int("x")
        return IntegerBounds(-5, 5), x, lambda v: type(v) is NominalInteger and v.nominal == x
    if kind == "cat":
        x = t.str("x", 0, 2)
        return CategoricalBounds(["a", "b"]), x, \
            lambda v: type(v) is NominalCategorical and v.category == x
    if kind == "comp":
        x = t.choice("x", ["H2O", "C", "(CaO)3TiO2", "SiC0.5"])
        return CompositionBounds(["H", "O"]), x, \
            lambda v: type(v) is EmpiricalFormula and v.formula == x
    if kind == "mol":
        if t.flag("prefix"):
            x = "InChI=" + t.str("x", 0, most)
            t.cover("inchi")
            return MolecularStructureBounds(), x, \
                lambda v: type(v) is InChI and v.inchi == x
        x = t.str("y", 0, most + 4)
        p = "InChI="
        if len(x) >= len(p):
            t.assume(x[:len(p)] != p)
        t.cover("smiles")
        return MolecularStructureBounds(), x, lambda v: type(v) is Smiles and v.smiles == x
    raise ValueError(kind)


def h_value(t, kind, most):
    b, x, ok = raw(t, kind, most)
    v = t.must(t.attempt(make_value, x, b), "make_value")
    t.check(ok(v), "the value the bounds call for")


class OtherBounds(BaseBounds, typ="c21_other_bounds"):
    def contains(self, bounds):
        return True

    def union(self, *others):
        return self

    def update(self, *others):
        pass


def h_unfit_value(t):
    k = t.choice("k", ["bounds", "none", "class", "int", "int float", "cat", "comp"])
    if k in ("bounds", "none", "class"):
        b = {"bounds": OtherBounds(), "none": None, "class": RealBounds}[k]
        x = t.int("x") if t.flag("n") else t.str("s", 0, 1)
        t.must_raise(t.attempt(make_value, x, b), ValueError, "bounds of another kind")
        t.cover("unknown bounds")
    elif k == "int":
        t.must_raise(t.attempt(make_value, t.str("s", 0, 1), IntegerBounds(0, 1)),
                     (TypeError, ValueError), "a text for an integer")
    elif k == "int float":
        x = t.real("x", -1e15, 1e15)
        out = t.attempt(make_value, x, IntegerBounds(0, 1))
        if out.ok:
            t.check(out.value.nominal == x, "a whole number")
        else:
            t.must_raise(out, (TypeError, ValueError), "not whole")
            t.check(t.no(t.is_int_valued(x)), "refused only if not whole")
    elif k == "cat":
        t.must_raise(t.attempt(make_value, t.int("x"), CategoricalBounds(["a"])),
                     (TypeError, ValueError), "a number for a category")
    else:
        t.must_raise(t.attempt(make_value, t.int("x"), CompositionBounds(["a"])),
                     (TypeError, ValueError), "a number for a formula")


def made(t, kind, bkind, ready):
    """(template, argument, check of the attribute)"""
    b, x, ok = raw(t, bkind, 1)
    if bkind == "mol":
        x = "CC"
        ok = lambda v: type(v) is Smiles and v.smiles == "CC"
    name = t.str("tname", 0, 2)
    tmpl = TEMPLATE[kind](name, bounds=b)
    if ready:
        x, _ = cat.value(t, "val", t.choice("vk", ["int", "normal", "cat", "formula"]))
        ok = lambda v: v is x

    def check(a):
        t.check(type(a) is CLASS[kind], "the kind the template calls for")
        t.check(a.template is tmpl, "the template")
        t.check(a.name == name, "the template's name")
        t.check(ok(a.value), "the value")
        t.check(a.notes is None and a.origin == "unknown" and a.file_links == [], "nothing else")
    return tmpl, x, check


def h_attribute(t, kind, bkind, ready):
    tmpl, x, check = made(t, kind, bkind, ready)
    check(t.must(t.attempt(make_attribute, tmpl, x), "make_attribute"))


def h_no_template(t):
    bad = t.choice("bad", [ProcessTemplate("p"), None, IntegerBounds(0, 1), "text",
                           LinkByUID("a", "b"), PropertyTemplate, Property("p")])
    x = t.choice("x", [3, "a", NominalInteger(2)])
    if t.flag("attach"):
        p = ProcessRun("p")
        out = t.attempt(add_attribute, p, bad, x)
        t.check(list(p.conditions) == [] and list(p.parameters) == [], "nothing attached")
    else:
        out = t.attempt(make_attribute, bad, x)
    t.must_raise(out, ValueError, "not an attribute template")
    t.cover("not an attribute template")


HAS = {"process_spec": ["condition", "parameter"], "process_run": ["condition", "parameter"],
       "measurement_spec": ["condition", "parameter"],
       "measurement_run": ["property", "condition", "parameter"],
       "material_run": [], "ingredient_spec": [], "ingredient_run": [], "material_template": [],
       "process_template": [], "measurement_template": [], "material_spec": ["property", "condition"]}


def lists(x):
    """What the target holds: every list of attributes, by identity."""
    out = {}
    for f in ("properties", "conditions", "parameters"):
        if hasattr(x, f):
            out[f] = [y for y in getattr(x, f)]
    return out


def same(a, b):
    return set(a) == set(b) and all(len(a[f]) == len(b[f]) and
                                    all(x is y for x, y in zip(a[f], b[f])) for f in a)


def h_add(t, target, kind, bkind, ready):
    tmpl, x, check = made(t, kind, bkind, ready)
    if target.endswith("_template"):
        obj = cat.CLASSES[target][0]("target")
    else:
        obj = cat.minimal(target)
        if kind in HAS[target] and target != "material_spec" and t.flag("one before"):
            getattr(obj, FIELD[kind]).append(CLASS[kind]("before"))
    before = lists(obj)
    out = t.attempt(add_attribute, obj, tmpl, x)
    after = lists(obj)
    if kind not in HAS[target]:
        t.must_raise(out, ValueError, "a kind the target does not have")
        t.check(same(before, after), "nothing attached")
        t.cover("does not fit")
        return
    a = t.must(out, "add_attribute")
    check(a)
    before[FIELD[kind]] = before[FIELD[kind]] + [a]
    t.check(same(before, after), "attached, last, and nothing else")
    t.cover("attached")


def h_add_matspec(t, kind, bkind, n, ready):
    tmpl, x, check = made(t, kind, bkind, ready)
    m = MaterialSpec("m")
    for i in range(n):
        p = Property("p%d" % i)
        m.properties.append(PropertyAndConditions(p, [Condition("c")] * t.pick("c%d" % i, 2)))
    ps = list(m.properties)
    cs = [list(p.conditions) for p in ps]
    out = t.attempt(add_attribute, m, tmpl, x)
    if kind == "parameter" or kind == "condition" and n == 0:
        t.must_raise(out, ValueError, "no parameters, and no condition without a property")
        t.cover("does not fit")
    else:
        a = t.must(out, "add_attribute")
        check(a)
        if kind == "condition":
            cs[-1].append(a)
            t.cover("condition of property")
        else:
            last = m.properties[-1]
            t.check(type(last) is PropertyAndConditions and last.property is a and
                    list(last.conditions) == [] and all(last is not p for p in ps),
                    "a property with no conditions")
            ps.append(last)
            cs.append([])
            t.cover("attached")
    t.check(len(m.properties) == len(ps) and all(x is y for x, y in zip(m.properties, ps)),
            "the properties")
    t.check(all(len(p.conditions) == len(c) and all(x is y for x, y in zip(p.conditions, c))
                for p, c in zip(ps, cs)), "the conditions of each property")


def cases(tier):
    th = tier == "thorough"
    out = [case("h_node"), case("h_incomplete"), case("h_other_attributes"), case("h_unfit_value"),
           case("h_no_template")]
    qk = ["none", "float", "int", "nominal", "normal", "uniform"]
    for i in range(4):
        for k in qk[i > 0:]:
            kinds = ["none"] * 4
            kinds[i] = k
            out.append(case("h_edge", kinds=kinds, edges=1))
    for k in range(6):
        kinds = [qk[(k + j) % 6] for j in range(4)]
        out.append(case("h_edge", kinds=kinds, edges=1))
    out.append(case("h_edge", kinds=["float", "int", "nominal", "float"], edges=2))
    if th:
        out.append(case("h_edge", kinds=["int", "none", "nominal", "int"], edges=3))
    for k in [None] + qk[1:]:
        for u in (None, "kg", "", "m"):
            out.append(case("h_units", kind=k, units=u))
    K = ["property", "condition", "parameter"]
    seqs = [None, []] + [[a] for a in K] + [[a, b] for a in K for b in K] + \
        [[a, b, c] for a in K for b in K for c in K]
    if th:
        seqs += [[a, b, c, d] for a in K for b in K for c in K for d in K]
    for ks in seqs:
        for before in ((0, 2) if ks is None or len(ks) < 2 else (1,)):
            out.append(case("h_measurement", kinds=ks, before=before))
    B = ["real", "int", "cat", "comp", "mol"]
    for b in B:
        out.append(case("h_value", kind=b, most=8 if th else 4))
        for k in K:
            out.append(case("h_attribute", kind=k, bkind=b, ready=False))
    for k in K:
        out.append(case("h_attribute", kind=k, bkind="int", ready=True))
        out.append(case("h_attribute", kind=k, bkind="real", ready=True))
        for i, target in enumerate(HAS):
            if target != "material_spec":
                for j in range(5 if th else 2):
                    out.append(case("h_add", target=target, kind=k, bkind=B[(i + j) % 5],
                                    ready=j == 1))
        for n in range(3):
            for b in B if th else ["real", "cat"]:
                for ready in (False, True):
                    out.append(case("h_add_matspec", kind=k, bkind=b, n=n, ready=ready))
    return out
