"""C01: Bounds containment is exactly set inclusion."""
from fractions import Fraction
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalInteger, UniformInteger, NominalReal, NormalReal,
                               UniformReal, NominalCategorical, DiscreteCategorical,
                               NominalComposition, EmpiricalFormula, Smiles, InChI)

BOUNDS = {
    "quick": ["integer endpoints: all integers in [-2^60, 2^60]; real endpoints, same unit: every "
              "finite float64", "real endpoints, other unit: all reals in [-1e9, 1e9] over 7 unit "
              "pairs, IEEE rounding modelled as |error| <= 2^-53 relative per operation",
              "category/component sets: up to 2x2 strings of length <= 2 over Latin-1",
              "all pairs of bounds and value kinds"],
    "thorough": ["as quick; sets up to 3x3 strings of length <= 3; 14 unit pairs"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "pint parses the concrete unit strings used (its conversion arithmetic on the symbolic "
    "magnitude is executed)"]
COVERS = {"all": ["contained", "not contained", "other kind", "unit contained",
                  "unit not contained"]}

# unit of A, unit of B, scale s and offset o: x [B] = x * s + o [A]   (exact rationals)
PAIRS = [("meter", "centimeter", (1, 100), (0, 1)), ("centimeter", "meter", (100, 1), (0, 1)),
         ("kelvin", "degC", (1, 1), (5463, 20)), ("degC", "kelvin", (1, 1), (-5463, 20)),
         ("gram", "kilogram", (1000, 1), (0, 1)), ("", "percent", (1, 100), (0, 1)),
         ("second", "hour", (3600, 1), (0, 1)),
         ("hour", "second", (1, 3600), (0, 1)), ("kilogram", "gram", (1, 1000), (0, 1)),
         ("degC", "degF", (5, 9), (-160, 9)), ("percent", "", (100, 1), (0, 1)),
         ("meter", "inch", (127, 5000), (0, 1)), ("joule", "kilojoule", (1000, 1), (0, 1)),
         ("meter / second", "kilometer / hour", (5, 18), (0, 1))]
INCOMPATIBLE = [("meter", "second"), ("", "meter"), ("kelvin", "gram"), ("radian", ""),
                ("mole", "gram"), ("bit", "")]


def int_bounds(t, p):
    lo, hi = t.int(p + ".lo"), t.int(p + ".hi")
    t.assume(lo <= hi)
    return IntegerBounds(lo, hi), lo, hi


def real_pair(t, p):
    lo, hi = t.real(p + ".lo"), t.real(p + ".hi")
    t.assume(lo <= hi)
    return lo, hi


def verdict(t, got, want, msg):
    t.check(type(got) is bool, msg + ": not a bool")
    t.check(t.iff(got, want), msg)
    t.cover("contained" if got else "not contained")


def h_integer(t, other):
    a, lo, hi = int_bounds(t, "a")
    if other == "bounds":
        b, x, y = int_bounds(t, "b")
    elif other == "nominal":
        x = y = t.int("b.x")
        b = NominalInteger(x)
    else:
        x, y = t.int("b.x"), t.int("b.y")
        t.assume(x <= y)
        b = UniformInteger(x, y)
    verdict(t, a.contains(b), t.all(lo <= x, y <= hi), "integer inclusion")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi), "contains changed the bounds")
    if other == "nominal":
        t.check(b.nominal == x, "contains changed the operand")
    else:
        t.check(t.all(b.lower_bound == x, b.upper_bound == y), "contains changed the operand")


def h_real(t, other):
    lo, hi = real_pair(t, "a")
    a = RealBounds(lo, hi, "meter")
    x, y = real_pair(t, "b")
    if other == "bounds":
        b = RealBounds(x, y, "meter")
    elif other == "uniform":
        b = UniformReal(x, y, "meter")
    else:
        y = x
        b = NominalReal(x, "meter") if other == "nominal" else NormalReal(x, 1.0, "meter")
    verdict(t, a.contains(b), t.all(lo <= x, y <= hi), "real inclusion")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi, a.default_units == "meter"),
            "contains changed the bounds")
    if other in ("bounds", "uniform"):
        t.check(t.all(b.lower_bound == x, b.upper_bound == y), "contains changed the operand")
    else:
        t.check((b.nominal if other == "nominal" else b.mean) == x,
                "contains changed the operand")
    t.check((b.default_units if other == "bounds" else b.units) == "meter",
            "contains changed the operand's units")


def h_real_units(t, pair, other):
    ua, ub, (sn, sd), (on, od) = PAIRS[pair]
    lim = 1e9
    lo, hi = t.real("a.lo", -lim, lim), t.real("a.hi", -lim, lim)
    x, y = t.real("b.lo", -lim, lim), t.real("b.hi", -lim, lim)
    t.assume(lo <= hi)
    t.assume(x <= y)
    a = RealBounds(lo, hi, ua)
    b = RealBounds(x, y, ub) if other == "bounds" else UniformReal(x, y, ub)
    na, nb = a.default_units, (b.default_units if other == "bounds" else b.units)
    got = True if a.contains(b) else False
    # exact values in A's units; slack for rounding: 1e-12 of the magnitudes involved
    S, O = Fraction(sn, sd), Fraction(on, od)
    bx, by, al, ah = t.q(x) * S + O, t.q(y) * S + O, t.q(lo), t.q(hi)
    slack = (abs(bx) + abs(by) + abs(al) + abs(ah) + abs(O) + abs(O / S)) * Fraction(1, 10 ** 12) \
        + Fraction(1, 10 ** 290)
    if got:
        t.check(t.all(al <= bx + slack, by <= ah + slack),
                "contained across units although it reaches outside")
        t.cover("unit contained")
    else:
        t.check(t.any(al > bx - slack, by > ah - slack),
                "not contained across units although it lies inside")
        t.cover("unit not contained")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi, b.lower_bound == x,
                  b.upper_bound == y), "contains changed an operand")
    t.check(a.default_units == na and (b.default_units if other == "bounds" else b.units) == nb,
            "contains changed units")


def h_real_incompatible(t, pair):
    ua, ub = INCOMPATIBLE[pair]
    lo, hi = real_pair(t, "a")
    x, y = real_pair(t, "b")
    for p, q in ((ua, ub), (ub, ua)):
        r = RealBounds(lo, hi, p).contains(RealBounds(x, y, q))
        t.check(r is False, "contained in bounds with incompatible units")
        t.check(RealBounds(lo, hi, p).contains(NominalReal(x, q)) is False,
                "value contained in bounds with incompatible units")


def strs(t, p, n, maxlen):
    return [t.str("%s%d" % (p, i), 0 if i == 0 else 1, maxlen) for i in range(n)]


def h_sets(t, kind, na, nb, other, maxlen):
    A = strs(t, "a", na, maxlen)
    B = strs(t, "b", nb, maxlen)
    if kind == "categorical":
        a = CategoricalBounds(A)
        if other == "bounds":
            b = CategoricalBounds(set(B))
        elif other == "nominal":
            b = NominalCategorical(B[0])
        else:
            for i in range(nb):
                for j in range(i):
                    t.assume(B[i] != B[j])
            b = DiscreteCategorical({x: 1.0 / nb for x in B})
        held = a.categories
    else:
        a = CompositionBounds(A)
        b = CompositionBounds(B) if other == "bounds" else \
            NominalComposition({x: 1.0 for x in B})
        held = a.components
    want = t.all(*[t.any(*[x == y for y in A]) for x in B])
    verdict(t, a.contains(b), want, "set inclusion")
    now = a.categories if kind == "categorical" else a.components
    t.check(now is held, "contains replaced the set")
    t.check(t.all(*([x in now for x in A] + [t.any(*[x == y for y in A]) for x in now])),
            "contains changed the set")
    if other == "bounds":
        now = b.categories if kind == "categorical" else b.components
        t.check(t.all(*([x in now for x in B] + [t.any(*[x == y for y in B]) for x in now])),
                "contains changed the operand")


def h_formula(t, formula, elements):
    A = [t.choice("a%d" % i, ["C", "H", "O", "Na", "c"]) for i in range(3)]
    a = CompositionBounds(set(A))
    verdict(t, a.contains(EmpiricalFormula(formula)), all(e in A for e in elements),
            "formula inclusion")


def things(t):
    """One of every kind, with symbolic content."""
    x, n, s = t.real("x"), t.int("n"), t.str("s", 1, 1)
    return {
        "integer": [IntegerBounds(n, n), NominalInteger(n), UniformInteger(n, n)],
        "real": [RealBounds(x, x, ""), NominalReal(x, ""), NormalReal(x, 1.0, ""),
                 UniformReal(x, x, "")],
        "categorical": [CategoricalBounds({s}), NominalCategorical(s),
                        DiscreteCategorical({s: 1.0}), CategoricalBounds()],
        "composition": [CompositionBounds({s}), NominalComposition({s: 1.0}),
                        EmpiricalFormula("C"), CompositionBounds()],
        "molecular": [MolecularStructureBounds(), Smiles("C"), InChI("InChI=1S/CH4/h1H4")],
    }


def h_cross(t, kind):
    k = things(t)
    a = k[kind][0]
    for other, objs in k.items():
        for b in objs:
            if other != kind:
                t.check(a.contains(b) is False, "%s contains %s" % (kind, type(b).__name__))
                t.cover("other kind")
            elif kind == "molecular":
                t.check(a.contains(b) is True, "molecular bounds do not contain %s"
                        % type(b).__name__)
    t.check(a.contains(None) is False, "None is contained")
    for bad in (t.float("f"), t.str("bad", 0, 1), [a], {}, object(), type(a), True):
        t.must_raise(t.attempt(a.contains, bad), TypeError, "%s.contains(%s)"
                     % (kind, type(bad).__name__))


def cases(tier):
    thorough = tier == "thorough"
    out = [case("h_integer", other=o) for o in ("bounds", "nominal", "uniform")]
    out += [case("h_real", other=o) for o in ("bounds", "nominal", "normal", "uniform")]
    for p in range(len(PAIRS) if thorough else 7):
        for o in ("bounds", "uniform"):
            out.append(case("h_real_units", pair=p, other=o))
    out += [case("h_real_incompatible", pair=p) for p in range(len(INCOMPATIBLE))]
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)]
    if thorough:
        sizes += [(3, 2), (2, 3), (3, 3)]
    for kind in ("categorical", "composition"):
        for na, nb in sizes:
            ml = (3 if na + nb < 5 else 2) if thorough else 2
            out.append(case("h_sets", kind=kind, na=na, nb=nb, other="bounds", maxlen=ml,
                            weight=na + nb))
        out.append(case("h_sets", kind=kind, na=2, nb=1, other="nominal", maxlen=2))
    for nb in (1, 2):
        out.append(case("h_sets", kind="categorical", na=2, nb=nb, other="discrete", maxlen=2))
    for f, els in (("CH4", ["C", "H"]), ("NaCHO2", ["Na", "C", "H", "O"]), ("C", ["C"])):
        out.append(case("h_formula", formula=f, elements=els))
    out += [case("h_cross", kind=k)
            for k in ("integer", "real", "categorical", "composition", "molecular")]
    return out
