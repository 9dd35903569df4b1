"""C04: Attribute values are checked against their template at the set level."""
from props.common import case, ENGINE_ASSUMPTIONS, Ranges, value_of, OTHER
from gemd.entity.attribute import Property, Condition, Parameter
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

BOUNDS = {
    "quick": ["an attribute of each kind, built with or without value and template, then up to 2 "
              "assignments of a value or template, in any order, each at any of the 3 levels",
              "bounds of each kind with symbolic endpoints / one-character categories; values "
              "symbolic: every integer in [-2^60, 2^60], every finite float, every Latin-1 "
              "character; also values of another kind and of other units, None, links"],
    "thorough": ["as quick, with 3 assignments"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["finite floats as reals (comparisons only: exact)"]
COVERS = {"all": ["inside", "fatal", "warning", "ignored", "unchecked"]}
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
ATTR = {"property": (Property, PropertyTemplate), "condition": (Condition, ConditionTemplate),
        "parameter": (Parameter, ParameterTemplate)}


def h_attr(t, attr, kind, ops, start):
    cls, tcls = ATTR[attr]
    ranges = [Ranges(t, kind, "A"), Ranges(t, kind if "B" in ops else "mol", "B")]
    templates = [tcls("A", bounds=ranges[0].bounds), tcls("B", bounds=ranges[1].bounds)]
    link = LinkByUID("scope", "id")
    cur = {"v": None, "vd": None, "t": None, "r": None}

    def thing(op, i):
        """(field, object, description/range)"""
        if op == "v":
            return ("value",) + value_of(t, "v%s" % i, kind)
        if op == "w":       # another kind, or other units
            k = "real" if kind == "real" and t.flag("units%s" % i) else OTHER[kind]
            return ("value",) + value_of(t, "v%s" % i, k, "s")
        if op == "u":
            return ("value",) + value_of(t, "v%s" % i, "uni")
        if op == "-":
            return "value", None, None
        if op == "A":
            return "template", templates[0], ranges[0]
        if op == "B":
            return "template", templates[1], ranges[1]
        if op == "L":
            return "template", link, None
        return "template", None, None

    def verdict(vd, r):
        """None: nothing to check."""
        if vd is None or r is None:
            return None
        return t.is_true(r.permits(vd))

    def judge(out, level, ok, what, n0):
        """Was the outcome right?  Returns whether the change took place."""
        n = t.warnings() - n0
        if ok is None or ok:
            t.must(out, what)
            t.check(n == 0, what + ": warned without cause")
            t.cover("unchecked" if ok is None else "inside")
            return True
        if level == WarningLevel.FATAL:
            t.must_raise(out, ValueError, what + " out of bounds at FATAL")
            t.cover("fatal")
            return False
        t.must(out, what + " out of bounds below FATAL")
        if level == WarningLevel.WARNING:
            t.check(n >= 1, what + ": no warning")
            t.cover("warning")
        else:
            t.check(n == 0, what + ": warned at IGNORE")
            t.cover("ignored")
        return True

    lv = t.choice("level.c", LEVELS)
    set_validation_level(lv)
    kw = {}
    for i, op in enumerate(start):
        f, o, d = thing(op, "c%d" % i)
        kw[f] = o
        if f == "value":
            cur["v"], cur["vd"] = o, d
        else:
            cur["t"], cur["r"] = o, d
    n0 = t.warnings()
    out = t.attempt(lambda: cls("x", **kw))
    if not judge(out, lv, verdict(cur["vd"], cur["r"]), "construction", n0):
        return
    a = out.value

    def intact(what):
        t.check(a.value is cur["v"] and a.template is cur["t"], what)
    intact("construction stored something else")
    for i, op in enumerate(ops):
        lv = t.choice("level%d" % i, LEVELS)
        set_validation_level(lv)
        f, o, d = thing(op, i)
        n0 = t.warnings()
        out = t.attempt(setattr, a, f, o)
        if f == "value":
            ok = verdict(d, cur["r"])
        else:
            ok = verdict(cur["vd"], d)
        if judge(out, lv, ok, f + " assignment", n0):
            if f == "value":
                cur["v"], cur["vd"] = o, d
            else:
                cur["t"], cur["r"] = o, d
            intact(f + " assignment stored something else")
        else:
            intact("refused, but changed")


def h_refused_types(t, attr):
    cls, tcls = ATTR[attr]
    r = Ranges(t, "int", "A")
    v, d = value_of(t, "v", "int")
    t.assume(r.permits(d))
    T = tcls("A", bounds=r.bounds)
    a = cls("x", value=v, template=T)
    set_validation_level(t.choice("level", LEVELS))
    others = [x for k, x in ATTR.items() if k != attr]
    bad = t.choice("bad", [("value", 3), ("value", "x"), ("value", r.bounds), ("template", 3),
                           ("template", r.bounds), ("template", v),
                           ("template", others[0][1]("o", bounds=r.bounds)),
                           ("template", others[1][1]("o", bounds=r.bounds))])
    t.must_raise(t.attempt(setattr, a, bad[0], bad[1]), TypeError, "wrong type")
    t.check(a.value is v and a.template is T, "refused, but changed")


def cases(tier):
    out = []
    th = tier == "thorough"
    step = ["v", "w", "-", "A", "B", "L", "0"]
    for s in ("", "v", "A", "vA", "wA", "L", "vL") if th else ("", "vA", "L"):
        for x in step:
            for y in step:
                for z in ("v", "A", "L", "") if th else ("",):
                    out.append(case("h_attr", attr="parameter", kind="int", ops=x + y + z,
                                    start=s, weight=3))
    for n, kind in enumerate(("real", "cat", "comp", "mol")):
        attr = ("property", "condition")[n % 2]
        for s in ("", "v", "A", "vA", "wA", "L", "vL") if th else ("", "vA"):
            for ops in (x + y for x in step for y in step) if th else \
                    ("vA", "Av", "Aw", "wA", "vB", "Lv", "0v", "-A"):
                out.append(case("h_attr", attr=attr, kind=kind, ops=ops, start=s))
    for attr in ATTR:
        for ops in ("uA", "Au", "vA", "Aw", "Lv"):
            out.append(case("h_attr", attr=attr, kind="int", ops=ops + "B", start=""))
        out.append(case("h_refused_types", attr=attr))
    return out
