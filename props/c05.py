"""C05: Object templates constrain every attribute put on an object."""
from props.common import case, ENGINE_ASSUMPTIONS, Ranges, value_of, OTHER
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.template import (PropertyTemplate, ConditionTemplate, ParameterTemplate,
                                  ProcessTemplate, MaterialTemplate, MeasurementTemplate)
from gemd.entity.object import (ProcessRun, ProcessSpec, MeasurementRun, MeasurementSpec,
                                MaterialSpec)
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

BOUNDS = {
    "quick": ["every object kind and attribute list; object templates with up to 2 entries "
              "(template or link, narrowed or not); attributes matched by template, link or name",
              "an attribute that enters twice, with its value, its template's bounds or the object "
              "template's entry changed in between",
              "every way of entering the list; up to 2 attributes entering at once; 3 levels",
              "bounds with symbolic endpoints (integers in [-2^60, 2^60], finite floats) or "
              "one-character categories; values symbolic, inside or outside, and of another kind; "
              "attribute names symbolic (1 character)"],
    "thorough": ["as quick, with every combination of entry, matching and way of entering for "
                 "every object kind"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["finite floats as reals (comparisons only: exact)",
                                    "attributes carry a value"]
COVERS = {"all": ["inside", "fatal", "warning", "ignored", "free", "narrow accepted",
                  "narrow refused"]}
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
ATTR = {"properties": (Property, PropertyTemplate), "conditions": (Condition, ConditionTemplate),
        "parameters": (Parameter, ParameterTemplate)}
OBJ = {"ProcessRun": (ProcessRun, ProcessSpec, ProcessTemplate),
       "ProcessSpec": (ProcessSpec, None, ProcessTemplate),
       "MeasurementRun": (MeasurementRun, MeasurementSpec, MeasurementTemplate),
       "MeasurementSpec": (MeasurementSpec, None, MeasurementTemplate),
       "MaterialSpec": (MaterialSpec, None, MaterialTemplate)}
FIELDS = {"ProcessRun": ["conditions", "parameters"], "ProcessSpec": ["conditions", "parameters"],
          "MeasurementRun": ["properties", "conditions", "parameters"],
          "MeasurementSpec": ["conditions", "parameters"], "MaterialSpec": ["properties"]}
WAYS = ["ctor", "ctor1", "assign", "assign1", "append", "extend", "insert", "setitem"]


class Setup:
    def __init__(self, t, obj, field, entry, kind, wiring):
        self.t, self.field, self.kind = t, field, kind
        self.cls, self.scls, self.tcls = OBJ[obj]
        self.acls, self.atcls = ATTR[field]
        self.pac = obj == "MaterialSpec"
        self.full = Ranges(t, kind, "T")
        self.T = self.atcls("a", bounds=self.full.bounds, uids={"s": "T"})
        self.decoy_r = Ranges(t, "cat" if kind != "cat" else "int", "D")
        self.decoy = self.atcls("b", bounds=self.decoy_r.bounds, uids={"s": "D"})
        self.narrow = None
        if "n" in entry:
            self.narrow = Ranges(t, kind, "N")
            if kind in ("int", "real"):
                t.assume(t.all(self.full.lo <= self.narrow.lo, self.narrow.hi <= self.full.hi))
            else:
                t.assume(t.all(*[t.any(*[x == y for y in self.full.cats])
                                 for x in self.narrow.cats]))
        es = []
        if "d" in entry:
            es.append([self.decoy, None])
        first = LinkByUID("s", "T") if "l" in entry else self.T
        self.linked = "l" in entry
        if "t" in entry or "l" in entry:
            es.append([first, self.narrow.bounds if self.narrow else None])
        self.has = "t" in entry or "l" in entry
        self.has_decoy = "d" in entry
        self.otempl = self.tcls("obj", **{field: es})
        self.kw = {}
        self.active = True
        if self.scls is None:
            if wiring == "link":
                self.kw["template"], self.active = LinkByUID("s", "O"), False
            elif wiring == "none":
                self.active = False
            else:
                self.kw["template"] = self.otempl
        else:
            if wiring == "link":
                self.kw["spec"], self.active = LinkByUID("s", "O"), False
            elif wiring == "none":
                self.active = False
            elif wiring == "speclink":
                self.kw["spec"] = self.scls("spec", template=LinkByUID("s", "O"))
                self.active = False
            else:
                self.kw["spec"] = self.scls("spec", template=self.otempl)

    def attr(self, i, match, other):
        """(attribute, verdict): verdict None if nothing constrains it."""
        t = self.t
        v, d = value_of(t, "v%d" % i, OTHER[self.kind] if other else self.kind)
        if match == "name":
            name = t.str("name%d" % i, 1, 1)
            a = self.acls(name, value=v)
        elif match == "template":
            a = self.acls("x", value=v, template=self.T)
        elif match == "twin":      # an equal template, another object
            a = self.acls("x", value=v, template=self.atcls("a", bounds=self.full.bounds,
                                                            uids={"s": "T"}))
        elif match == "link":
            a = self.acls("x", value=v, template=LinkByUID("s", "T"))
        else:                      # a template the object template does not mention
            a = self.acls("a", value=v, template=self.atcls("zzz", bounds=self.decoy_r.bounds,
                                                            uids={"s": "Z"}))
        hit = None
        if self.active:
            if match == "name":
                if self.has_decoy and t.is_true(name == "b"):
                    hit = self.decoy_r
                elif self.has and not self.linked and t.is_true(name == "a"):
                    hit = self.narrow or self.full
            elif match in ("template", "twin", "link") and self.has:
                hit = self.narrow or (None if self.linked else self.full)
        ok = None if hit is None else t.is_true(hit.permits(d))
        if self.pac:
            a = PropertyAndConditions(a)
        return a, ok


def h_enter(t, obj, field, way, entry, match, kind="int", wiring="direct", other=False, n=1):
    set_validation_level(WarningLevel.IGNORE)
    s = Setup(t, obj, field, entry, kind, wiring)
    many = [s.attr(i, match, other and i == 0) for i in range(n)]
    attrs, oks = [a for a, _ in many], [ok for _, ok in many]
    old = s.acls("old")
    if s.pac:
        old = PropertyAndConditions(old)
    seed = [] if way.startswith("ctor") else [old]
    level = t.choice("level", LEVELS)
    bad = any(ok is False for ok in oks)
    if way.startswith("ctor"):
        set_validation_level(level)
        n0 = t.warnings()
        arg = attrs[0] if way == "ctor1" else attrs
        out = t.attempt(lambda: s.cls("o", **{field: arg}, **s.kw))
        now = getattr(out.value, field) if out.ok else None
        want = list(attrs)
    else:
        o = s.cls("o", **{field: list(seed)}, **s.kw)
        lst = getattr(o, field)
        set_validation_level(level)
        n0 = t.warnings()
        if way == "assign":
            out, want = t.attempt(setattr, o, field, attrs), attrs
        elif way == "assign1":
            out, want = t.attempt(setattr, o, field, attrs[0]), attrs
        elif way == "append":
            out, want = t.attempt(lst.append, attrs[0]), [old] + attrs
        elif way == "extend":
            out, want = t.attempt(lst.extend, attrs), [old] + attrs
        elif way == "insert":
            out, want = t.attempt(lst.insert, 0, attrs[0]), attrs + [old]
        else:
            out, want = t.attempt(lst.__setitem__, 0, attrs[0]), attrs
        now = getattr(o, field)
    k = t.warnings() - n0
    if bad and level == WarningLevel.FATAL:
        t.must_raise(out, ValueError, "attribute outside the permitted bounds at FATAL")
        t.cover("fatal")
        want = seed
        if way.startswith("ctor"):
            return
    else:
        t.must(out, "attribute")
        if bad and level == WarningLevel.WARNING:
            t.check(k >= 1, "no warning")
            t.cover("warning")
        else:
            t.check(k == 0, "warned without cause")
            t.cover("ignored" if bad else ("free" if oks[0] is None else "inside"))
    t.check(len(now) == len(want) and all(x is y for x, y in zip(now, want)),
            "the list holds something else")


def h_later(t, obj, field, kind="int"):
    """The template that counts is the one in force when the attribute enters."""
    set_validation_level(WarningLevel.IGNORE)
    s = Setup(t, obj, field, "t", kind, "direct")
    o = s.cls("o")
    a, ok = s.attr(0, "template", False)
    holder = "template" if s.scls is None else "spec"
    swap = t.choice("swap", ["on", "off", "on-off"])
    if swap != "off":
        setattr(o, holder, s.kw[holder])
    if swap != "on":
        setattr(o, holder, None)
    set_validation_level(WarningLevel.FATAL)
    out = t.attempt(getattr(o, field).append, a)
    if swap == "on" and ok is False:
        t.must_raise(out, ValueError, "attribute outside the permitted bounds")
        t.check(len(getattr(o, field)) == 0, "refused, but stored")
    else:
        t.must(out, "attribute")
        t.check(getattr(o, field)[0] is a, "not stored")
    set_validation_level(WarningLevel.WARNING)


def h_again(t, obj, field, change):
    """Entering again after a change is checked as if for the first time."""
    set_validation_level(WarningLevel.IGNORE)
    s = Setup(t, obj, field, "t", "int", "direct")
    o = s.cls("o", **s.kw)
    v0, _ = value_of(t, "v0", "int")
    a = s.acls("x", value=v0, template=s.T)
    x = PropertyAndConditions(a) if s.pac else a
    lst = getattr(o, field)
    l0 = t.choice("level0", LEVELS)
    set_validation_level(l0)
    first = t.attempt(lst.append, x)
    set_validation_level(WarningLevel.IGNORE)
    if not first.ok:
        lst.append(x)
    v1, d1 = value_of(t, "v1", "int")
    rng = s.full
    if change == "value":
        a.value = v1
    elif change == "bounds":
        a.value, rng = v1, Ranges(t, "int", "R")
        s.T.bounds = rng.bounds
    else:
        a.value, rng = v1, Ranges(t, "int", "R")
        t.assume(t.all(s.full.lo <= rng.lo, rng.hi <= s.full.hi))
        setattr(s.otempl, field, [[s.T, rng.bounds]])
    ok = t.is_true(rng.permits(d1))
    level = t.choice("level", LEVELS)
    way = t.choice("way", ["append", "setitem", "assign"])
    set_validation_level(level)
    n0 = t.warnings()
    out = {"append": lambda: t.attempt(lst.append, x),
           "setitem": lambda: t.attempt(lst.__setitem__, 0, x),
           "assign": lambda: t.attempt(setattr, o, field, [x])}[way]()
    k = t.warnings() - n0
    set_validation_level(WarningLevel.WARNING)
    if ok or level != WarningLevel.FATAL:
        t.must(out, "attribute")
        t.check(len(getattr(o, field)) == (2 if way == "append" else 1), "not stored")
        t.check(k == 0 if ok or level == WarningLevel.IGNORE else k >= 1, "warnings")
    else:
        t.must_raise(out, ValueError, "attribute outside the permitted bounds the second time")
        t.check(len(getattr(o, field)) == 1, "refused, but stored")


def h_narrow(t, tcls, field, way, kind, linked=False, other=False):
    """Object templates refuse narrowed bounds that the attribute template does not contain."""
    T = {"P": ProcessTemplate, "Ma": MaterialTemplate, "Me": MeasurementTemplate}[tcls]
    atcls = ATTR[field][1]
    full, nar = Ranges(t, kind, "T"), Ranges(t, OTHER[kind] if other else kind, "N")
    A, B = atcls("a", bounds=full.bounds), atcls("b", bounds=full.bounds)
    if linked:
        A = LinkByUID("s", "T")
    if other:
        ok = False
    elif kind in ("int", "real"):
        ok = t.all(full.lo <= nar.lo, nar.hi <= full.hi)
    elif kind == "mol":
        ok = True
    else:
        ok = t.all(*[t.any(*[x == y for y in full.cats]) for x in nar.cats])
    ok = linked or t.is_true(ok)
    pair = (A, nar.bounds) if t.flag("tuple") else [A, nar.bounds]
    if way == "ctor":
        out = t.attempt(lambda: T("o", **{field: [pair]}))
        now, want = (getattr(out.value, field) if out.ok else None), [(A, nar.bounds)]
        if not ok:
            t.must_raise(out, ValueError, "narrowed bounds not contained")
            t.cover("narrow refused")
            return
    else:
        o = T("o", **{field: [B]})
        lst = getattr(o, field)
        out = {"assign": lambda: t.attempt(setattr, o, field, [pair]),
               "assign1": lambda: t.attempt(setattr, o, field, pair),
               "append": lambda: t.attempt(lst.append, pair),
               "extend": lambda: t.attempt(lst.extend, [pair]),
               "insert": lambda: t.attempt(lst.insert, 1, pair),
               "setitem": lambda: t.attempt(lst.__setitem__, 0, pair)}[way]()
        now = getattr(o, field)
        new, old = (A, nar.bounds), (B, None)
        want = [new] if way in ("assign", "assign1", "setitem") else [old, new]
        if not ok:
            t.must_raise(out, ValueError, "narrowed bounds not contained")
            t.cover("narrow refused")
            want = [old]
    if ok:
        t.must(out, "narrowed bounds that are contained")
        t.cover("narrow accepted")
    t.check(len(now) == len(want), "entries")
    for x, y in zip(now, want):
        t.check(len(x) == 2 and x[0] is y[0] and x[1] is y[1], "entry")


def cases(tier):
    out = []
    th = tier == "thorough"
    entries = ["t", "tn", "l", "ln", "d", "dt", "dtn", ""]
    matches = ["template", "twin", "link", "name", "foreign"]
    allf = [(o, f) for o in OBJ for f in FIELDS[o]]
    seen = set()

    def add(**a):
        key = tuple(sorted(a.items()))
        if key not in seen:
            seen.add(key)
            out.append(case("h_enter", **a))
    for n, (o, f) in enumerate(allf):
        for w in WAYS:
            add(obj=o, field=f, way=w, entry="t", match="template")
            add(obj=o, field=f, way=w, entry="tn", match="template")
        for m in matches:
            for e in entries:
                for w in WAYS if th else ["append" if len(e + m) % 2 else "assign"]:
                    add(obj=o, field=f, way=w, entry=e, match=m)
                    if th:
                        add(obj=o, field=f, way=w, entry=e, match=m, other=True)
        for w in ("ctor", "assign", "extend"):
            add(obj=o, field=f, way=w, entry="tn", match="template", n=2)
            add(obj=o, field=f, way=w, entry="dt", match="name", n=2)
        for wi in ("link", "none", "speclink"):
            add(obj=o, field=f, way="assign", entry="tn", match="template", wiring=wi)
        for k in ("real", "cat"):
            for e in ("t", "tn"):
                add(obj=o, field=f, way="append", entry=e, match="template", kind=k)
        add(obj=o, field=f, way="append", entry="t", match="template", other=True)
        out.append(case("h_later", obj=o, field=f))
        for ch in ("value", "bounds", "entry"):
            out.append(case("h_again", obj=o, field=f, change=ch))
    for tc, fs in (("P", ["conditions", "parameters"]), ("Ma", ["properties"]),
                   ("Me", ["properties", "conditions", "parameters"])):
        for f in fs:
            for w in ("ctor", "assign", "assign1", "append", "extend", "insert", "setitem"):
                for k in (("int", "real", "cat", "comp", "mol") if th else ("int",)):
                    out.append(case("h_narrow", tcls=tc, field=f, way=w, kind=k))
            for k in ("real", "cat", "comp"):
                out.append(case("h_narrow", tcls=tc, field=f, way="append", kind=k, other=True))
            out.append(case("h_narrow", tcls=tc, field=f, way="append", kind="real"))
            out.append(case("h_narrow", tcls=tc, field=f, way="append", kind="cat"))
            out.append(case("h_narrow", tcls=tc, field=f, way="append", kind="int", linked=True))
    names, uniq = set(), []
    for c in out:
        if c["name"] not in names:
            names.add(c["name"])
            uniq.append(c)
    return uniq
