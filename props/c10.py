"""C10: Validated lists only ever hold accepted, triggered elements."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.valid_list import ValidList
from gemd.entity.setters import validate_list
from gemd.entity.object import (ProcessSpec, ProcessRun, MaterialRun, MaterialSpec, MeasurementRun,
                                IngredientSpec)
from gemd.entity.template import (ProcessTemplate, MaterialTemplate, MeasurementTemplate,
                                  PropertyTemplate, ConditionTemplate, ParameterTemplate)
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.file_link import FileLink

BOUNDS = {
    "quick": ["lists of up to 2 initial elements (list, tuple, generator, single element or None), "
              "then 1-2 operations of append, extend, insert, item assignment, slice assignment "
              "(start, stop in {None,-1,0,1,3}, step in {None,-1,2}), += and self-extension with "
              "up to 2 elements given as list, tuple or generator; elements symbolic strings or "
              "integers of an accepted type, or one of another type; accepted types str, (str, "
              "int), (list, tuple, str); no trigger, or one that replaces the elements equal to a "
              "symbolic value and raises for those equal to another",
              "every list-valued field of the entities from generators of 2 elements"],
    "thorough": ["2-3 operations"],
}
ASSUMPTIONS = list(ENGINE_ASSUMPTIONS)
COVERS = {"all": ["refused", "replaced", "trigger raised", "generator", "size mismatch", "field"]}

TYPES = {"str": str, "strint": (str, int), "seq": [list, tuple, str], "one": [int]}


class Boom(Exception):
    pass


def element(t, name, types):
    """(element, accepted)"""
    k = t.pick(name + "#k", 2)
    if k == 1:
        return (5.5 if types != "one" else "text"), False
    if types == "one":
        return t.int(name), True
    if types == "seq":
        return t.choice(name + "#s", [["l"], t.str(name, 1, 1)]), True
    if types == "strint" and t.flag(name + "#isint"):
        return t.int(name), True
    return t.str(name, 1, 1), True


class Model:
    def __init__(self, t, types, trigger):
        self.t, self.types, self.calls = t, types, []
        self.kind = trigger
        self.a = self.b = None
        if trigger != "none":
            mk = t.int if types == "one" else (lambda n: t.str(n, 1, 1))
            self.a, self.b = mk("replaced"), mk("forbidden")
        self.new = (0 if types == "one" else "")      # a falsy replacement is one as well

    def trigger(self):
        if self.kind == "none":
            return None

        def f(x):
            self.calls.append(x)
            if self.t.is_true(x == self.b):
                raise Boom()
            if self.t.is_true(x == self.a):
                return self.new
        return f

    def stored(self, xs):
        """What the trigger makes of the elements; None if it raises."""
        out = []
        for x in xs:
            if self.kind != "none":
                if self.t.is_true(x == self.b):
                    return None
                if self.t.is_true(x == self.a):
                    self.t.cover("replaced")
                    x = self.new
            out.append(x)
        return out

    def called(self, xs, what):
        t = self.t
        if self.kind != "none":
            t.check(len(self.calls) == len(xs), what + ": calls of the trigger")
            for x, y in zip(self.calls, xs):
                t.check(x is y or x == y, what + ": argument of the trigger")


def same(t, l, m, what):
    t.check(isinstance(l, ValidList), what + ": type")
    t.check(len(l) == len(m), what + ": length")
    for x, y in zip(list(l), m):
        t.check(x is y or (type(x) == type(y) and x == y), what + ": elements")


def untouched(t, src, xs):
    """The list given as a source belongs to the caller."""
    if type(src) is list:
        t.check(len(src) == len(xs), "the list passed in: length")
        for x, y in zip(src, xs):
            t.check(x is y, "the list passed in: elements")


def source(t, name, xs, rich=True):
    k = t.choice(name, ["list", "gen", "tuple"][:3 if rich else 2])
    if k == "list":
        return list(xs)
    if k == "tuple":
        return tuple(xs)
    t.cover("generator")
    return (x for x in xs)


def outcome(t, M, out, xs, oks, what):
    """Judge an operation that stores xs; the elements as stored, or None if it must be refused."""
    if not all(oks):
        t.must_raise(out, TypeError, what + " of another type")
        t.cover("refused")
        return None
    st = M.stored(xs)
    if st is None:
        t.must_raise(out, Boom, what + ": exception of the trigger")
        t.cover("trigger raised")
    return st


def elements(t, name, types, hi):
    n = t.pick(name + "#n", hi + 1)
    xs = [element(t, "%s.%d" % (name, i), types) for i in range(n)]
    return [x for x, _ in xs], [k for _, k in xs]


def h_list(t, types, trigger, ops, initial):
    M = Model(t, types, trigger)
    fn = M.trigger()
    if initial == "free":
        xs, oks = elements(t, "init", types, 2)
        how = t.choice("how", ["ctor", "validate"])
        src = source(t, "src", xs)
        out = t.attempt(ValidList, src, TYPES[types], fn) if how == "ctor" else \
            t.attempt(validate_list, src, TYPES[types], trigger=fn)
        untouched(t, src, xs)
        st = outcome(t, M, out, xs, oks, "construction")
        if st is None:
            return
        l = t.must(out, "construction")
        M.called(xs, "construction")
    else:
        xs = [9, 8] if types == "one" else ["w", "v"]
        if trigger != "none":
            t.assume(t.all(*[x != y for x in xs for y in (M.a, M.b)]))
        l, st = ValidList(list(xs), TYPES[types], fn), list(xs)
    same(t, l, st, "after construction")
    m = st
    rich = len(ops) < 2
    for n, op in enumerate(ops):
        p = "o%d" % n
        M.calls.clear()
        if op in ("append", "insert", "set"):
            x, ok = element(t, p, types)
            i = 0 if op == "append" else t.choice(p + "#i", range(-3, 4) if rich else [-1, 1, 9])
            out = t.attempt(l.append, x) if op == "append" else \
                t.attempt(l.insert, i, x) if op == "insert" else t.attempt(l.__setitem__, i, x)
            if op == "set" and ok and not -len(m) <= i < len(m):
                t.check(not out.ok and isinstance(out.exc, (IndexError, Boom)), "index")
                same(t, l, m, "after a wrong index")
                continue
            st = outcome(t, M, out, [x], [ok], op)
            if st is not None:
                t.must(out, op)
                M.called([x], op)
                if op == "append":
                    m.append(st[0])
                elif op == "insert":
                    m.insert(i, st[0])
                else:
                    m[i] = st[0]
        elif op in ("extend", "iadd", "slice"):
            xs, oks = elements(t, p, types, 2 if rich else 1)
            if t.flag(p + "#self"):
                src, xs, oks = l, list(l), [True] * len(l)
            else:
                src = source(t, p + "#src", xs, rich)
            if op == "slice":
                sl = slice(t.choice(p + "#a", [None, -1, 0, 1, 3] if rich else [None, 1]),
                           t.choice(p + "#b", [None, -1, 0, 3] if rich else [None, -1]),
                           t.choice(p + "#c", [None, -1, 2] if rich else [None, 2]))
                out = t.attempt(l.__setitem__, sl, src)
                untouched(t, src, xs)
                trial = list(m)
                fits = t.attempt(trial.__setitem__, sl, list(xs)).ok
                if not fits and all(oks):
                    t.cover("size mismatch")
                    t.check(not out.ok and isinstance(out.exc, (ValueError, Boom)),
                            "slice of another size")
                    same(t, l, m, "after a slice of another size")
                    continue
            else:
                out = t.attempt(l.extend if op == "extend" else l.__iadd__, src)
                untouched(t, src, xs)
            st = outcome(t, M, out, xs, oks, op)
            if st is not None:
                v = t.must(out, op)
                M.called(xs, op)
                if op == "slice":
                    m[sl] = st
                else:
                    m.extend(st)
                    if op == "iadd":
                        t.check(v is l, "+= keeps the list")
        elif op == "bad":
            x = t.choice(p, [5, None, 2.5])
            which = t.choice(p + "#w", ["extend", "iadd"])
            t.must_raise(t.attempt(l.extend if which == "extend" else l.__iadd__, x), TypeError,
                         "not iterable")
        same(t, l, m, "after %s" % op)


def tmpl(cls, n):
    return cls(n, bounds=IntegerBounds(0, 9))


FIELDS = {
    "tags": (lambda: ProcessSpec("p"), "tags", lambda t, n: t.str(n, 1, 1)),
    "file_links": (lambda: MaterialRun("m"), "file_links", lambda t, n: FileLink(t.str(n, 1, 1), "u")),
    "labels": (lambda: IngredientSpec("m"), "labels", lambda t, n: t.str(n, 1, 1)),
    "conditions": (lambda: ProcessRun("m"), "conditions", lambda t, n: Condition(t.str(n, 1, 1))),
    "parameters": (lambda: ProcessSpec("m"), "parameters", lambda t, n: Parameter(t.str(n, 1, 1))),
    "properties": (lambda: MeasurementRun("m"), "properties", lambda t, n: Property(t.str(n, 1, 1))),
    "props and conds": (lambda: MaterialSpec("m"), "properties",
                        lambda t, n: PropertyAndConditions(Property(t.str(n, 1, 1)))),
    "attribute file_links": (lambda: Property("m"), "file_links",
                             lambda t, n: FileLink(t.str(n, 1, 1), "u")),
    "conds of a property": (lambda: PropertyAndConditions(Property("m")), "conditions",
                            lambda t, n: Condition(t.str(n, 1, 1))),
    "allowed_names": (lambda: ProcessTemplate("m"), "allowed_names", lambda t, n: t.str(n, 1, 1)),
    "allowed_labels": (lambda: ProcessTemplate("m"), "allowed_labels", lambda t, n: t.str(n, 1, 1)),
    "template properties": (lambda: MaterialTemplate("m"), "properties",
                            lambda t, n: tmpl(PropertyTemplate, t.str(n, 1, 1))),
    "template conditions": (lambda: MeasurementTemplate("m"), "conditions",
                            lambda t, n: tmpl(ConditionTemplate, t.str(n, 1, 1))),
    "template parameters": (lambda: ProcessTemplate("m"), "parameters",
                            lambda t, n: tmpl(ParameterTemplate, t.str(n, 1, 1))),
}


def h_field(t, field):
    """Every list-valued field holds what an iterable (one-shot or not) yields."""
    make, attr, elem = FIELDS[field]
    o = make()
    n = t.pick("n", 3)
    xs = [elem(t, "e%d" % i) for i in range(n)]
    ranges = field.startswith("template")
    given = xs
    if ranges:
        form = t.choice("form", ["template", "pair", "list"])
        if form == "pair":
            given = [(x, IntegerBounds(1, 2)) for x in xs]
        elif form == "list":
            given = [[x, None] for x in xs]
    how = t.choice("how", ["assign", "extend", "iadd"])
    src = source(t, "src", given)
    if how == "assign":
        t.must(t.attempt(setattr, o, attr, src), "assignment")
    elif how == "extend":
        t.must(t.attempt(getattr(o, attr).extend, src), "extend")
    else:
        t.must(t.attempt(getattr(o, attr).__iadd__, src), "+=")
    got = getattr(o, attr)
    t.check(len(got) == n, "number of elements")
    t.cover("field")
    for x, g, y in zip(got, given, xs):
        if ranges:
            t.check(len(x) == 2 and x[0] is y, "template of the entry")
            t.check((x[1] is None) == (form != "pair"), "bounds of the entry")
            if form == "pair":
                t.check(x[1] is g[1], "bounds of the entry")
        else:
            t.check(x is y, "element")
    for mk in (lambda: 3, lambda: [4.5], lambda: (z for z in [4.5])):
        t.must_raise(t.attempt(getattr(o, attr).extend, mk()), TypeError, "another type")
        t.check(len(getattr(o, attr)) == n, "after a refused extend")
        t.must_raise(t.attempt(setattr, o, attr, mk()), TypeError, "another type")
        t.check(getattr(o, attr) is got and len(got) == n, "after a refused assignment")
    if n and not (ranges and form == "list"):
        if ranges:
            t.must(t.attempt(setattr, o, attr, given[0]), "a single entry")
        else:
            t.must(t.attempt(setattr, o, attr, xs[0]), "a single element")
        t.check(len(getattr(o, attr)) == 1, "a single element")
    t.must(t.attempt(setattr, o, attr, None), "None")
    t.check(len(getattr(o, attr)) == 0, "None clears the list")


def h_single(t, types):
    """validate_list: None and single elements."""
    t.check(len(validate_list(None, TYPES[types])) == 0, "None is an empty list")
    if types != "seq":
        x = t.int("x") if types == "one" else t.str("x", 0, 2)
        same(t, validate_list(x, TYPES[types]), [x], "single element")
    for bad in ({}, 5):
        if isinstance(bad, dict):
            t.must_raise(t.attempt(ValidList, [], bad), TypeError, "dict of types")
        t.must_raise(t.attempt(ValidList, [], [bad]), TypeError, "not a type")
        t.must_raise(t.attempt(ValidList, [], str, bad), TypeError, "trigger not callable")


OPS = ["append", "extend", "insert", "set", "slice", "iadd", "bad"]


def cases(tier):
    out = []
    for types in TYPES:
        out.append(case("h_single", types=types))
        for trig in ("none", "some"):
            out.append(case("h_list", types=types, trigger=trig, ops=[], initial="free"))
            for op in OPS:
                out.append(case("h_list", types=types, trigger=trig, ops=[op], initial="two",
                                weight=3))
            if tier == "quick" and (types != "strint"):
                continue
            for op in OPS[:-1]:
                for op2 in OPS[:-1]:
                    out.append(case("h_list", types=types, trigger=trig, ops=[op, op2],
                                    initial="two", weight=9))
    for f in FIELDS:
        out.append(case("h_field", field=f))
    return out
