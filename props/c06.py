"""C06: Ingredient quantities are validated at the set level."""
from fractions import Fraction

from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.object import IngredientRun, IngredientSpec
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger,
                               NominalCategorical, UniformInteger)
from gemd.entity.bounds import RealBounds
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

BOUNDS = {
    "quick": ["constructor or 1-2 assignments of each of the four quantities on runs and specs, "
              "3 levels; nominal, uniform and normal values with every finite float64 as "
              "magnitude; units '', 'dimensionless', '%', 'g/kg', 'kg', 'm', 'mol'; None and "
              "refused types"],
    "thorough": ["as quick, up to 3 assignments and all pairs of quantities"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "finite floats as reals: comparisons exact; unit conversion with relative error <= 2^-53 per "
    "operation, so that magnitudes within 1e-12 (relative) of a limit after conversion may go "
    "either way"]
COVERS = {"all": ["good", "fatal", "warning", "ignored", "type", "none"]}
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
SCALE = {"": Fraction(1), "dimensionless": Fraction(1), "percent": Fraction(1, 100),
         "g/kg": Fraction(1, 1000), "kg": None, "m": None, "mol": None, "1/s": None}
FIELDS = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]


def quantity(t, name, kind, units):
    """(value, lower, upper)"""
    if kind == "uniform":
        a, b = t.real(name + ".l"), t.real(name + ".u")
        t.assume(a <= b)
        return UniformReal(a, b, units), a, b
    x = t.real(name)
    if kind == "normal":
        return NormalReal(mean=x, std=1.0, units=units), x, x
    return NominalReal(x, units), x, x


def verdict(t, field, lo, hi, units):
    """True: fine, False: not, None: too close to a limit to call after conversion."""
    s = SCALE[units]
    if field == "absolute_quantity":
        return t.is_true(t.all(s is None, lo >= 0))
    if s is None:
        return False
    if s == 1:
        return t.is_true(t.all(lo >= 0, hi <= 1))
    eps = Fraction(1, 10 ** 12)
    if t.is_true(t.all(lo >= 0, t.q(hi) * s <= 1 - eps)):
        return True
    if t.is_true(t.any(lo < 0, t.q(hi) * s >= 1 + eps)):
        # converted tiny negatives may round to zero
        if t.is_true(t.all(t.q(lo) > Fraction(-1, 2 ** 1000), t.q(hi) * s < 1)):
            return None
        return False
    return None


def judge(t, out, level, ok, n0):
    """Returns whether the value had to be stored (None: either)."""
    n = t.warnings() - n0
    if ok is None:
        return out.ok
    if ok:
        t.must(out, "valid quantity")
        t.check(n == 0, "warned without cause")
        t.cover("good")
        return True
    if level == WarningLevel.FATAL:
        t.must_raise(out, ValueError, "invalid quantity at FATAL")
        t.cover("fatal")
        return False
    t.must(out, "invalid quantity below FATAL")
    if level == WarningLevel.WARNING:
        t.check(n >= 1, "no warning")
        t.cover("warning")
    else:
        t.check(n == 0, "warned at IGNORE")
        t.cover("ignored")
    return True


def make(cls, **kw):
    return IngredientRun(**kw) if cls == "run" else IngredientSpec("i", **kw)


def h_ctor(t, cls, field, kind, units):
    v, lo, hi = quantity(t, "v", kind, units)
    level = t.choice("level", LEVELS)
    set_validation_level(level)
    n0 = t.warnings()
    out = t.attempt(lambda: make(cls, **{field: v}))
    if judge(t, out, level, verdict(t, field, lo, hi, units), n0):
        for f in FIELDS:
            t.check(getattr(out.value, f) is (v if f == field else None), "stored in " + f)


def h_assign(t, cls, steps):
    """steps: list of (field, kind, units)"""
    set_validation_level(WarningLevel.WARNING)
    o = make(cls)
    cur = {f: None for f in FIELDS}
    for i, (field, kind, units) in enumerate(steps):
        level = t.choice("level%d" % i, LEVELS)
        set_validation_level(level)
        n0 = t.warnings()
        if kind == "none":
            t.must(t.attempt(setattr, o, field, None), "None")
            t.check(t.warnings() == n0, "warned about None")
            cur[field] = None
            t.cover("none")
        elif kind == "bad":
            b = t.choice("bad%d" % i, [0.5, "0.5", NominalInteger(1), NominalCategorical("x"),
                                       UniformInteger(0, 1), RealBounds(0, 1, ""), [], 0, "", {},
                                       False])
            t.must_raise(t.attempt(setattr, o, field, b), TypeError, "not a continuous value")
            t.cover("type")
        else:
            v, lo, hi = quantity(t, "v%d" % i, kind, units)
            out = t.attempt(setattr, o, field, v)
            if judge(t, out, level, verdict(t, field, lo, hi, units), n0):
                cur[field] = v
        for f in FIELDS:
            t.check(getattr(o, f) is cur[f], "%s holds something else" % f)


def cases(tier):
    th = tier == "thorough"
    out = []
    for cls in ("run", "spec"):
        for f in FIELDS:
            for kind in ("nominal", "uniform", "normal"):
                for u in ("", "percent", "kg", "g/kg", "mol", "dimensionless", "1/s"):
                    if kind != "nominal" and u in ("mol", "dimensionless", "1/s") and not th:
                        continue
                    out.append(case("h_ctor", cls=cls, field=f, kind=kind, units=u))
            good = "m" if f == "absolute_quantity" else ""
            bad = "" if f == "absolute_quantity" else "m"
            other = FIELDS[(FIELDS.index(f) + 1) % 4]
            for steps in ([(f, "nominal", good), (f, "nominal", bad)],
                          [(f, "nominal", good), (f, "bad", "")],
                          [(f, "nominal", good), (f, "none", ""), (f, "bad", "")],
                          [(f, "uniform", good), (f, "uniform", good)],
                          [(f, "nominal", good), (other, "nominal", "kg")],
                          [(f, "nominal", good), (other, "bad", "")],
                          [(f, "nominal", "percent"), (other, "none", "")]):
                out.append(case("h_assign", cls=cls, steps=steps))
            if th:
                for g in FIELDS:
                    for h in FIELDS:
                        for u in ("", "kg"):
                            out.append(case("h_assign", cls=cls, steps=[
                                (f, "nominal", u), (g, "uniform", ""), (h, "nominal", "kg")]))
    return out
