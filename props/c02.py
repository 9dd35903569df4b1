"""C02: Bounds union is the least bounds covering all operands; update applies it."""
from fractions import Fraction

from props.common import case, ENGINE_ASSUMPTIONS
from props.c01 import PAIRS, INCOMPATIBLE
from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalInteger, UniformInteger, NominalReal, NormalReal,
                               UniformReal, NominalCategorical, DiscreteCategorical,
                               NominalComposition, EmpiricalFormula, Smiles, InChI)

BOUNDS = {
    "quick": ["up to 3 operands, each bounds or value; integer endpoints: all integers in "
              "[-2^60, 2^60]; real endpoints, same unit: every finite float64; other units: reals "
              "in [-1e9, 1e9] over 7 unit pairs with bounded rounding error",
              "sets: 1-2 strings in A and up to 2 operands with 1-2 strings of length <= 2"],
    "thorough": ["as quick; 14 unit pairs; sets with up to 3 strings"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "pint parses the concrete unit strings used (its arithmetic on the symbolic magnitude is "
    "executed)"]
COVERS = {"all": ["widened", "same", "refused", "unit"]}


def least(t, xs, got, below):
    """got is the least (greatest) of xs."""
    return t.all(t.any(*[got == x for x in xs]),
                 *[(got <= x) if below else (got >= x) for x in xs])


def h_integer(t, kinds):
    lo, hi = t.int("lo"), t.int("hi")
    t.assume(lo <= hi)
    a = IntegerBounds(lo, hi)
    los, his, ops = [lo], [hi], []
    for i, k in enumerate(kinds):
        x = t.int("x%d" % i)
        y = x if k == "N" else t.int("y%d" % i)
        t.assume(x <= y)
        ops.append({"B": lambda: IntegerBounds(x, y), "U": lambda: UniformInteger(x, y),
                    "N": lambda: NominalInteger(x)}[k]())
        los.append(x)
        his.append(y)
    def judge(u, what):
        t.check(type(u) is IntegerBounds, what + ": kind of the result")
        t.check(least(t, los, u.lower_bound, True), what + ": lower bound")
        t.check(least(t, his, u.upper_bound, False), what + ": upper bound")

    u = a.union(*ops)
    judge(u, "union")
    t.check(u is not a and all(u is not o for o in ops), "union returned an operand")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi), "union changed A")
    for k, o, x, y in zip(kinds, ops, los[1:], his[1:]):
        t.check(o.nominal == x if k == "N" else t.all(o.lower_bound == x, o.upper_bound == y),
                "union changed an operand")
    t.check(a.update(*ops) is None, "update returned something")
    judge(a, "update")
    for k, o, x, y in zip(kinds, ops, los[1:], his[1:]):
        t.check(o.nominal == x if k == "N" else t.all(o.lower_bound == x, o.upper_bound == y),
                "update changed an operand")
    t.cover("same" if t.all(a.lower_bound == lo, a.upper_bound == hi) else "widened")


def h_real(t, kinds):
    lo, hi = t.real("lo"), t.real("hi")
    t.assume(lo <= hi)
    a = RealBounds(lo, hi, "gram")
    los, his, ops = [lo], [hi], []
    for i, k in enumerate(kinds):
        x = t.real("x%d" % i)
        y = x if k in "NM" else t.real("y%d" % i)
        t.assume(x <= y)
        ops.append({"B": lambda: RealBounds(x, y, "gram"), "U": lambda: UniformReal(x, y, "gram"),
                    "N": lambda: NominalReal(x, "gram"), "M": lambda: NormalReal(x, 1., "gram")}[k]())
        los.append(x)
        his.append(y)

    def judge(u, what):
        t.check(type(u) is RealBounds, what + ": kind of the result")
        t.check(u.default_units == "gram", what + ": units")
        t.check(least(t, los, u.lower_bound, True), what + ": lower bound")
        t.check(least(t, his, u.upper_bound, False), what + ": upper bound")

    def intact(what):
        for k, o, x, y in zip(kinds, ops, los[1:], his[1:]):
            if k == "N":
                t.check(o.nominal == x, what + " changed an operand")
            elif k == "M":
                t.check(t.all(o.mean == x, o.std == 1.), what + " changed an operand")
            else:
                t.check(t.all(o.lower_bound == x, o.upper_bound == y), what + " changed an operand")

    u = a.union(*ops)
    judge(u, "union")
    intact("union")
    t.check(u is not a and all(u is not o for o in ops), "union returned an operand")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi), "union changed A")
    t.check(a.update(*ops) is None, "update returned something")
    judge(a, "update")
    intact("update")
    t.cover("same" if t.all(a.lower_bound == lo, a.upper_bound == hi) else "widened")


def h_units(t, pair, extra):
    """Operands in another unit (and one in A's own): the result is in A's units."""
    ua, ub, (sn, sd), (on, od) = PAIRS[pair]
    lim = 1e9
    lo, hi = t.real("lo", -lim, lim), t.real("hi", -lim, lim)
    x, y = t.real("x", -lim, lim), t.real("y", -lim, lim)
    t.assume(lo <= hi)
    t.assume(x <= y)
    a, b = RealBounds(lo, hi, ua), RealBounds(x, y, ub)
    na, nb = a.default_units, b.default_units
    S, O = Fraction(sn, sd), Fraction(on, od)
    los, his = [t.q(lo), t.q(x) * S + O], [t.q(hi), t.q(y) * S + O]
    ops = [b]
    if extra:
        z = t.real("z", -lim, lim)
        ops.append(NominalReal(z, ua))
        los.append(t.q(z))
        his.append(t.q(z))
    slack = (sum([abs(v) for v in los + his], abs(O) + abs(O / S))) * Fraction(1, 10 ** 12) \
        + Fraction(1, 10 ** 290)

    def judge(u, what):
        t.check(u.default_units == na, what + ": units")
        l, h = t.q(u.lower_bound), t.q(u.upper_bound)
        t.check(t.all(*[l <= v + slack for v in los]), what + ": lower bound not low enough")
        t.check(t.any(*[l >= v - slack for v in los]), what + ": lower bound too low")
        t.check(t.all(*[h >= v - slack for v in his]), what + ": upper bound not high enough")
        t.check(t.any(*[h <= v + slack for v in his]), what + ": upper bound too high")

    judge(a.union(*ops), "union")
    t.check(t.all(a.lower_bound == lo, a.upper_bound == hi, a.default_units == na),
            "union changed A")
    t.check(t.all(b.lower_bound == x, b.upper_bound == y, b.default_units == nb),
            "union changed an operand")
    a.update(*ops)
    judge(a, "update")
    t.check(t.all(b.lower_bound == x, b.upper_bound == y, b.default_units == nb),
            "update changed an operand")
    t.cover("unit")


def content(b):
    return b.categories if isinstance(b, CategoricalBounds) else b.components


def exactly(t, s, items):
    return t.all(*([x in s for x in items] + [t.any(*[x == y for y in items]) for x in s]))


def h_sets(t, kind, na, shapes, maxlen):
    A = [t.str("a%d" % i, 1, maxlen) for i in range(na)]
    cls = CategoricalBounds if kind == "categorical" else CompositionBounds
    a = cls(A)
    ops, items = [], []
    for i, sh in enumerate(shapes):
        n = int(sh[1])
        B = [t.str("b%d%d" % (i, j), 1, maxlen) for j in range(n)]
        if sh[0] == "B":
            ops.append(cls(B))
        elif kind == "categorical" and n == 1:
            ops.append(NominalCategorical(B[0]))
        elif kind == "categorical":
            for p in range(n):
                for q in range(p):
                    t.assume(B[p] != B[q])
            ops.append(DiscreteCategorical({x: 1.0 / n for x in B}))
        else:
            ops.append(NominalComposition({x: 2.0 for x in B}))
        items.append(B)
    everything = A + [x for B in items for x in B]

    def intact(what, also_a=True):
        if also_a:
            t.check(exactly(t, content(a), A), what + " changed A")
        for o, B in zip(ops, items):
            if isinstance(o, cls):
                t.check(exactly(t, content(o), B), what + " changed an operand")
            elif isinstance(o, NominalComposition):
                t.check(len(o.quantities) <= len(B), what + " changed an operand")

    u = a.union(*ops)
    t.check(type(u) is cls, "kind of the result")
    t.check(exactly(t, content(u), everything), "union: content")
    intact("union")
    content(u).add("added later")
    intact("editing the union")
    t.check(a.update(*ops) is None, "update returned something")
    t.check(exactly(t, content(a), everything), "update: content")
    intact("update", False)
    content(a).add("added later")
    intact("editing A after update", False)
    t.cover("widened" if len(content(a)) > na + 1 else "same")


def one_of_each(t):
    x, n, s = t.real("x"), t.int("n"), t.str("s", 1, 1)
    return {
        "integer": [IntegerBounds(n, n), NominalInteger(n), UniformInteger(n, n)],
        "real": [RealBounds(x, x, "gram"), NominalReal(x, "gram"), NormalReal(x, 1.0, "gram"),
                 UniformReal(x, x, "gram")],
        "categorical": [CategoricalBounds({s}), NominalCategorical(s),
                        DiscreteCategorical({s: 1.0})],
        "composition": [CompositionBounds({s}), NominalComposition({s: 1.0}),
                        EmpiricalFormula("C")],
        "molecular": [MolecularStructureBounds(), Smiles("C"), InChI("InChI=1S/CH4/h1H4")],
    }, x, n, s


def h_refuse(t, kind, other):
    """An operand of another kind anywhere in the list: exception, nothing changes."""
    k, x, n, s = one_of_each(t)
    a = k[kind][0]
    m, y, w = t.int("m"), t.real("y"), t.str("w", 1, 1)
    good = {"integer": IntegerBounds(m, m), "real": RealBounds(y, y, "gram"),
            "categorical": CategoricalBounds([w]), "composition": CompositionBounds([w]),
            "molecular": MolecularStructureBounds()}[kind]
    bad = k[other][1:] + [k[other][0]] if other != "nothing" else [None, w, y, object()]
    for b in bad:
        for ops in ([b], [good, b], [b, good]):
            for what in ("union", "update"):
                r = t.attempt(getattr(a, what), *ops)
                t.must_raise(r, Exception, "%s of %s bounds with %s" %
                             (what, kind, type(b).__name__))
                if kind == "integer":
                    t.check(t.all(a.lower_bound == n, a.upper_bound == n), "refused, but changed")
                elif kind == "real":
                    t.check(t.all(a.lower_bound == x, a.upper_bound == x,
                                  a.default_units == "gram"), "refused, but changed")
                elif kind != "molecular":
                    t.check(exactly(t, content(a), [s]), "refused, but changed")
                t.cover("refused")


def h_incompatible(t, pair):
    ua, ub = INCOMPATIBLE[pair]
    lo, hi = t.real("lo"), t.real("hi")
    x, y = t.real("x"), t.real("y")
    t.assume(lo <= hi)
    for p, q in ((ua, ub), (ub, ua)):
        a = RealBounds(lo, hi, p)
        u = a.default_units
        for ops in ([NominalReal(x, q)], [NominalReal(y, p), RealBounds(x, x, q)]):
            for what in ("union", "update"):
                t.must_raise(t.attempt(getattr(a, what), *ops), Exception, what)
                t.check(t.all(a.lower_bound == lo, a.upper_bound == hi, a.default_units == u),
                        "refused, but changed")
                t.cover("refused")


def h_molecular(t):
    a = MolecularStructureBounds()
    for ops in ([], [MolecularStructureBounds()], [Smiles(t.str("s", 1, 1)), InChI("InChI=1S/CH4/h1H4")]):
        u = a.union(*ops)
        t.check(type(u) is MolecularStructureBounds and u is not a, "molecular union")
        a.update(*ops)
        t.check(a == MolecularStructureBounds(), "molecular update")


def cases(tier):
    th = tier == "thorough"
    out = [case("h_integer", kinds=k, weight=len(k))
           for k in ("", "B", "N", "U", "BN", "NU", "BUN", "BBB")]
    out += [case("h_real", kinds=k, weight=len(k))
            for k in ("", "B", "N", "M", "U", "BN", "UM", "BUN", "BBB")]
    for p in range(len(PAIRS) if th else 7):
        for extra in (False, True):
            out.append(case("h_units", pair=p, extra=extra))
    for kind in ("categorical", "composition"):
        for na, shapes in ((1, []), (1, ["B1"]), (1, ["B2"]), (2, ["B1"]), (1, ["V1"]),
                           (1, ["V2"]), (1, ["B1", "V1"]), (0, ["B1", "B1"])) + \
                (((2, ["B2"]), (2, ["B1", "V1"]), (3, ["B1"])) if th else ()):
            out.append(case("h_sets", kind=kind, na=na, shapes=shapes, maxlen=2,
                            weight=na + len(shapes)))
    kinds = ["integer", "real", "categorical", "composition", "molecular"]
    for k in kinds:
        for o in kinds + ["nothing"]:
            if o != k:
                out.append(case("h_refuse", kind=k, other=o))
    out += [case("h_incompatible", pair=p) for p in range(len(INCOMPATIBLE))]
    out.append(case("h_molecular"))
    return out
