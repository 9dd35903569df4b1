"""C03: Bounds and distributions are never ill-formed."""
from fractions import Fraction

from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.bounds import IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds
from gemd.entity.value import UniformInteger, NominalInteger, DiscreteCategorical

BOUNDS = {
    "quick": ["construction followed by up to 2 assignments, each of: every float64 (NaN and "
              "infinities included), every integer in [-2^60, 2^60] (real bounds: [-2^53, 2^53]), None, a string, a list",
              "category/component collections of up to 2 elements (strings of length <= 1 or "
              "non-strings) as list, tuple, set, or a refused container",
              "up to 3 probabilities, every float64 each"],
    "thorough": ["as quick, up to 3 assignments"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "finite floats are modelled as reals: comparisons, int() and integrality exactly, sums with a "
    "relative rounding error of at most 2^-53 per operation (no overflow)"]
COVERS = {"all": ["accepted", "refused", "sum accepted", "sum refused"]}


def thing(t, name, kind, lim=2 ** 60):
    if kind == "float":
        return t.anyfloat(name)
    if kind == "int":
        return t.int(name, -lim, lim)
    return {"none": None, "str": t.str(name, 0, 1) if kind == "str" else "", "list": [1]}[kind]


def numeric(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def good(t, x, integral):
    """Would x do as an endpoint, order aside?"""
    if not numeric(x):
        return False
    if not t.isfinite(x):
        return False
    return t.is_int_valued(x) if integral else True


def h_endpoints(t, cls, kinds):
    """Construct, then assign; the model is the pair (lo, hi)."""
    integral = cls != "RealBounds"
    make = {"IntegerBounds": IntegerBounds, "UniformInteger": UniformInteger,
            "RealBounds": lambda a, b: RealBounds(a, b, "m")}[cls]
    lim = 2 ** 60 if integral else 2 ** 53
    x, y = thing(t, "c.lo", kinds[0], lim), thing(t, "c.hi", kinds[1], lim)
    ok = good(t, x, integral) and good(t, y, integral) and x <= y
    r = t.attempt(make, x, y)
    if not ok:
        t.must_raise(r, Exception, "ill-formed construction")
        t.cover("refused")
        return
    b = t.must(r, "well-formed construction")
    t.cover("accepted")
    lo, hi = x, y

    def intact(what):
        t.check(t.all(b.lower_bound == lo, b.upper_bound == hi), what)
        want = int if integral else float
        t.check(type(b.lower_bound) is want and type(b.upper_bound) is want,
                what + ": type of the endpoints")
    intact("constructed with other endpoints")
    for i, k in enumerate(kinds[2:]):
        v = thing(t, "v%d" % i, k, lim)
        lower = t.flag("side%d" % i)
        ok = good(t, v, integral) and (v <= hi if lower else v >= lo)
        r = t.attempt(setattr, b, "lower_bound" if lower else "upper_bound", v)
        if ok:
            t.must(r, "assignment of a well-formed endpoint")
            if lower:
                lo = v
            else:
                hi = v
            intact("assigned another value")
            t.cover("accepted")
        else:
            t.must_raise(r, Exception, "ill-formed assignment")
            intact("refused, but changed")
            t.cover("refused")
    if cls == "RealBounds":
        for bad in (None, "not_a_unit", 3):
            t.must_raise(t.attempt(setattr, b, "default_units", bad), Exception, "bad units")
            t.check(b.default_units == "meter", "refused, but units changed")


def h_nominal(t, kinds):
    x = thing(t, "c", kinds[0])
    r = t.attempt(NominalInteger, x)
    if not good(t, x, True):
        t.must_raise(r, Exception, "ill-formed nominal integer")
        t.cover("refused")
        return
    n = t.must(r, "well-formed nominal integer")
    t.check(n.nominal == x, "nominal integer holds another value")
    t.check(type(n.nominal) is int, "nominal integer holds a non-integer")
    for i, k in enumerate(kinds[1:]):
        v = thing(t, "v%d" % i, k)
        r = t.attempt(setattr, n, "nominal", v)
        if good(t, v, True):
            t.must(r, "well-formed assignment")
            x = v
            t.cover("accepted")
        else:
            t.must_raise(r, Exception, "ill-formed assignment")
            t.cover("refused")
        t.check(n.nominal == x, "nominal integer holds another value")
        t.check(type(n.nominal) is int, "nominal integer holds a non-integer")


def collection(t, p, elems, shape):
    xs = [t.str("%s%d" % (p, i), 1, 1) if e == "s" else {"i": 3, "n": None, "b": b"x"}[e]
          for i, e in enumerate(elems)]
    if shape == "dict":
        return xs, {x: 1 for x in xs}
    if shape == "str":
        return xs, "ab"
    if shape == "int":
        return xs, 5
    if shape == "none":
        return [], None
    return xs, {"list": list, "tuple": tuple, "set": set}[shape](xs)


def h_collections(t, cls, first, second):
    c = CategoricalBounds if cls == "categories" else CompositionBounds
    xs, arg = collection(t, "a", *first)
    r = t.attempt(c, arg)
    ok = first[1] in ("list", "tuple", "set", "none") and all(isinstance(x, str) for x in xs)
    if not ok:
        t.must_raise(r, Exception, "ill-formed construction")
        t.cover("refused")
        return
    b = t.must(r, "well-formed construction")

    def intact(what):
        s = getattr(b, cls)
        t.check(isinstance(s, set), what + ": not a set")
        t.check(t.all(*([x in s for x in xs] + [t.any(*[x == y for y in xs]) for x in s])), what)
    intact("constructed with another collection")
    ys, arg = collection(t, "b", *second)
    r = t.attempt(setattr, b, cls, arg)
    if second[1] in ("list", "tuple", "set", "none") and all(isinstance(x, str) for x in ys):
        t.must(r, "well-formed assignment")
        xs = ys
        intact("assigned another collection")
        t.cover("accepted")
    else:
        t.must_raise(r, Exception, "ill-formed assignment")
        intact("refused, but changed")
        t.cover("refused")


def total(t, vs):
    s = t.q(0.0)
    for v in vs:
        s = s + t.q(v)
    return s


def h_probabilities(t, n, again):
    keys = ["a", "b", "c"][:n]
    d = DiscreteCategorical({"old": 1.0}) if again else None
    ps = [t.anyfloat("p%d" % i) for i in range(n)]
    arg = {k: v for k, v in zip(keys, ps)}
    r = t.attempt(setattr, d, "probabilities", arg) if again else \
        t.attempt(DiscreteCategorical, arg)
    if not all(t.isfinite(p) for p in ps):
        t.must_raise(r, Exception, "non-finite probabilities")
        t.cover("sum refused")
    else:
        off = abs(total(t, ps) - 1)
        # rounding in the sum: 1e-15 of the magnitudes
        slack = Fraction(1, 10 ** 15)
        for p in ps:
            slack = slack + abs(t.q(p)) * Fraction(1, 10 ** 14)
        tol = Fraction(1e-9)
        if r.ok:
            t.check(off <= slack + tol, "probabilities do not sum to 1")
            t.cover("sum accepted")
            v = d.probabilities if again else r.value.probabilities
            t.check(len(v) == n and t.all(*[v[k] == p for k, p in zip(keys, ps)]),
                    "other probabilities stored")
            return
        t.check(isinstance(r.exc, ValueError), "refused with %s" % type(r.exc).__name__)
        t.check(off >= -slack + tol, "probabilities that sum to 1 refused")
        t.cover("sum refused")
    if again:
        t.check(d.probabilities == {"old": 1.0}, "refused, but changed")


def h_probability_keys(t, bad):
    d = DiscreteCategorical({"old": 1.0})
    s = t.str("s", 0, 2)
    if bad == "str":
        d.probabilities = s
        t.check(d.probabilities == {s: 1.0}, "single category")
        t.cover("accepted")
        return
    arg = {"int": {3: 1.0}, "none": {None: 1.0}, "mixed": {s: 0.5, 3: 0.5}, "list": [s],
           "number": 4, "empty": {}, "text": {s: "x"}}[bad]
    t.must_raise(t.attempt(setattr, d, "probabilities", arg), Exception, "ill-formed probabilities")
    t.check(d.probabilities == {"old": 1.0}, "refused, but changed")
    t.cover("refused")


def cases(tier):
    out = []
    th = tier == "thorough"
    for cls in ("IntegerBounds", "UniformInteger", "RealBounds"):
        for ks in (["int", "int", "int", "float"], ["float", "float", "float", "int"],
                   ["int", "float", "int"], ["none", "int"], ["int", "none"], ["str", "int"],
                   ["int", "str"], ["int", "int", "none", "int"], ["int", "int", "str"],
                   ["int", "int", "list"], ["float", "int", "none"],
                   ["int", "int", "int", "int"]) + \
                ((["float", "float", "float", "float"], ["int", "float", "int", "float", "int"])
                 if th else ()):
            out.append(case("h_endpoints", cls=cls, kinds=ks, weight=len(ks)))
    for ks in (["int", "float"], ["float", "int", "float"], ["none"], ["str"], ["int", "none"],
               ["int", "str"], ["int", "list"]):
        out.append(case("h_nominal", kinds=ks))
    firsts = [("ss", "list"), ("s", "set"), ("", "none"), ("si", "list"), ("n", "tuple"),
              ("s", "dict"), ("s", "str"), ("", "int")]
    seconds = [("s", "list"), ("ss", "tuple"), ("ss", "set"), ("si", "list"), ("is", "tuple"),
               ("sn", "set"), ("b", "list"), ("", "none"), ("s", "dict"), ("s", "str"),
               ("", "int"), ("", "list")]
    for cls in ("categories", "components"):
        for f in firsts[3:]:
            out.append(case("h_collections", cls=cls, first=f, second=("s", "list")))
        for f in firsts[:3]:
            for s in seconds:
                out.append(case("h_collections", cls=cls, first=f, second=s))
    for n in (1, 2, 3):
        for again in (False, True):
            out.append(case("h_probabilities", n=n, again=again))
    for bad in ("str", "int", "none", "mixed", "list", "number", "empty", "text"):
        out.append(case("h_probability_keys", bad=bad))
    return out
