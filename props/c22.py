"""C22: all_dependencies lists exactly the entities an object refers to."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import IntegerBounds
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate
from gemd.entity.object import (ProcessRun, MaterialRun, IngredientRun, IngredientSpec, MeasurementRun,
                                MaterialSpec, ProcessSpec)
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["all 14 classes: every reference field absent, a link (symbolic id) or an entity "
              "(which itself refers to others), each list of attributes or template entries with 0-2 "
              "elements with or without template (entity, link, or the same as another's); all "
              "fields at once",
              "soft links (ingredients, measurements, output material) present"],
    "thorough": ["lists of 0-3 elements"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "references are told apart by identity (entities) or scope and id (links)"]
COVERS = {"all": ["entity", "link", "none", "attribute", "range", "shared", "condition of property",
                  "soft"]}

SINGLE = {"process_spec": ["template"], "material_spec": ["template", "process"],
          "ingredient_spec": ["material", "process"], "measurement_spec": ["template"],
          "process_run": ["spec"], "material_run": ["spec", "process"],
          "ingredient_run": ["spec", "material", "process"],
          "measurement_run": ["spec", "material"]}
LISTS = {"process_spec": ["conditions", "parameters"], "measurement_spec": ["conditions", "parameters"],
         "process_run": ["conditions", "parameters"],
         "measurement_run": ["properties", "conditions", "parameters"],
         "material_template": ["properties"], "process_template": ["conditions", "parameters"],
         "measurement_template": ["properties", "conditions", "parameters"]}
TARGET = {("process_spec", "template"): "process_template", ("material_spec", "template"): "material_template",
          ("measurement_spec", "template"): "measurement_template",
          ("process_run", "spec"): "process_spec", ("material_run", "spec"): "material_spec",
          ("ingredient_run", "spec"): "ingredient_spec", ("measurement_run", "spec"): "measurement_spec"}
ATT = {"properties": (Property, PropertyTemplate), "conditions": (Condition, ConditionTemplate),
       "parameters": (Parameter, ParameterTemplate)}


def far(kind):
    """An entity that refers to others itself."""
    x = cat.minimal(kind)
    if kind.endswith("_run"):
        skind = kind[:-4] + "_spec"
        x.spec = far(skind)
    elif kind in ("process_spec", "material_spec", "measurement_spec"):
        x.template = far(kind[:-5] + "_template")
    elif kind == "process_template":
        x.parameters.append(ParameterTemplate("far", bounds=IntegerBounds(0, 1)))
    elif kind == "material_template":
        x.properties.append(PropertyTemplate("far", bounds=IntegerBounds(0, 1)))
    if kind in ("material_spec", "material_run"):
        x.process = cat.minimal("process" + kind[8:])
    return x


def target(kind, field):
    if (kind, field) in TARGET:
        return TARGET[(kind, field)]
    return field + ("_spec" if kind.endswith("_spec") else "_run")


def single(t, kind, field):
    k = t.pick(field, 3)
    if k == 0:
        t.cover("none")
        return None
    if k == 1:
        t.cover("link")
        return LinkByUID("a", t.str(field + ".id", 1, 1))
    t.cover("entity")
    return far(target(kind, field))


def template(t, name, field, pool):
    """None, a new template, a link, or one that is used already"""
    k = t.pick(name, 4 if pool else 3)
    if k == 0:
        return None
    if k == 1:
        return ATT[field][1](name, bounds=IntegerBounds(0, 9))
    if k == 2:
        return LinkByUID("a", t.str(name + ".id", 1, 1))
    t.cover("shared")
    return pool[0]


def h_object(t, kind, most, which=None):
    x = cat.minimal(kind)
    want = []
    for f in SINGLE.get(kind, []):
        r = single(t, kind, f)
        if r is not None:
            setattr(x, f, r)
            want.append(r)
    for f in LISTS.get(kind, []):
        if which is not None and f != which:
            continue
        pool = []
        for i in range(t.pick("#" + f, most + 1)):
            r = template(t, "%s%d" % (f, i), f, pool)
            if kind.endswith("_template"):
                if r is None:
                    r = ATT[f][1]("d", bounds=IntegerBounds(0, 9))
                getattr(x, f).append((r, IntegerBounds(1, 2)) if t.flag("r%s%d" % (f, i)) else r)
                t.cover("range")
            else:
                getattr(x, f).append(ATT[f][0]("n", template=r))
                t.cover("attribute")
            if r is not None:
                pool.append(r)
                want.append(r)
    if kind == "material_spec":
        pool, cpool = [], []
        for i in range(t.pick("#properties", 2) + (1 if most > 2 else 0)):
            p = Property("p", template=template(t, "p%d" % i, "properties", pool))
            cs = []
            for j in range(t.pick("#c%d" % i, most + 1)):
                c = Condition("c", template=template(t, "c%d%d" % (i, j), "conditions", cpool))
                cs.append(c)
                if c.template is not None:
                    cpool.append(c.template)
                    want.append(c.template)
                    t.cover("condition of property")
            x.properties.append(PropertyAndConditions(p, cs))
            if p.template is not None:
                pool.append(p.template)
                want.append(p.template)
    if t.flag("soft"):
        if kind == "process_run":
            IngredientRun(process=x), MaterialRun("m", process=x)
        elif kind == "process_spec":
            IngredientSpec("i", process=x), MaterialSpec("m", process=x)
        elif kind == "material_run":
            MeasurementRun("m", material=x), IngredientRun(material=x)
        else:
            t.assume(False)
        t.cover("soft")
    before = snap(x, kind)
    got = t.must(t.attempt(x.all_dependencies), "all_dependencies")
    t.check(isinstance(got, set), "a set")
    got = list(got)
    for w in want:
        t.check(t.any(*[same(t, g, w) for g in got]), "a reference is missing")
    for g in got:
        t.check(isinstance(g, (BaseEntity, LinkByUID)), "only entities and links")
        t.check(t.any(*[same(t, g, w) for w in want]), "not a direct reference")
    t.check(snap(x, kind) == before, "nothing is changed")


def same(t, a, b):
    if isinstance(a, LinkByUID) and isinstance(b, LinkByUID):
        return t.all(a.scope == b.scope, a.id == b.id)
    return a is b


def snap(x, kind):
    return [id(getattr(x, f)) for f in SINGLE.get(kind, [])] + \
        [[id(e) for e in getattr(x, f)] for f in LISTS.get(kind, [])] + [len(x.uids), len(x.tags)] + \
        [[id(e) for e in getattr(x, f, [])] for f in ("ingredients", "measurements", "properties")]


def h_attribute_template(t, kind):
    x = cat.minimal(kind, tags=[t.str("t", 1, 1)])
    got = t.must(t.attempt(x.all_dependencies), "all_dependencies")
    t.check(isinstance(got, set) and len(got) == 0, "an attribute template refers to nothing")


def cases(tier):
    most = 3 if tier == "thorough" else 2
    out = []
    for kind in cat.CLASSES:
        if kind in ("property_template", "condition_template", "parameter_template"):
            out.append(case("h_attribute_template", kind=kind))
            continue
        fs = LISTS.get(kind, [])
        if len(fs) > 1:
            out.append(case("h_object", kind=kind, most=1, weight=5))
            for f in fs:
                out.append(case("h_object", kind=kind, most=most, which=f, weight=2))
        else:
            out.append(case("h_object", kind=kind, most=most, weight=3))
    return out
