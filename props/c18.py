"""C18: Unit conversion is affine, consistent and refuses incompatible units."""
import os
import shutil
import tempfile
from fractions import Fraction as F

from props.common import case, ENGINE_ASSUMPTIONS
from gemd.units import (convert_units, get_base_units, parse_units, change_definitions_file,
                        IncompatibleUnitsError)

# unit: (scale, offset) to the family's reference, exactly (SI brochure / international yard and
# pound / ITS); reference value = scale * (x + offset)
PI = F(3141592653589793238462643383279502884197, 10 ** 39)
LB = F(45359237, 10 ** 8)
G0 = F(980665, 10 ** 5)
INCH = F(254, 10 ** 4)
FAMILIES = {
    "length": {"m": 1, "cm": F(1, 100), "km": 1000, "inch": INCH, "mile": 63360 * INCH,
               "micrometer": F(1, 10 ** 6), "angstrom": F(1, 10 ** 10)},
    "temperature": {"K": 1, "degC": (1, F(27315, 100)), "degF": (F(5, 9), F(45967, 100)),
                    "degR": F(5, 9), "mK": F(1, 1000)},
    "mass": {"kg": 1, "g": F(1, 1000), "mg": F(1, 10 ** 6), "lb": LB, "ounce": LB / 16},
    "time": {"s": 1, "ms": F(1, 1000), "minute": 60, "hour": 3600, "day": 86400,
             "year": F(31557600)},
    "pressure": {"Pa": 1, "kPa": 1000, "bar": 10 ** 5, "psi": LB * G0 / INCH ** 2, "atm": 101325,
                 "torr": F(101325, 760), "kg/m/s^2": 1},
    "energy": {"J": 1, "cal": F(4184, 1000), "eV": F(1602176634, 10 ** 28), "kW*hour": 3600000,
               "N m": 1},
    "angle": {"radian": 1, "degree": PI / 180, "turn": 2 * PI},
    "plain": {"": 1, "percent": F(1, 100), "ppm": F(1, 10 ** 6), "m/m": 1, "cm/m": F(1, 100),
              "kg/g": 1000},
    "count": {"count": 1, "count*m/m": 1},
    "information": {"bit": 1, "byte": 8, "kilobyte": 8000},
    "amount": {"mol": 1, "mmol": F(1, 1000)},
    "density": {"kg/m^3": 1, "g/mL": 1000, "g/(10 mL)": 100, "lb/(2.5 gallon)": LB / (231 * INCH ** 3 * F(5, 2)),
                "mg/(1e3 L)": F(1, 10 ** 6)},
    "rate": {"1/s": 1, "hertz": 1, "1/(2.5 hours)": F(1, 9000), "1/minute": F(1, 60)},
    "heating": {"K/s": 1, "degC/minute": F(1, 60), "degF/hour": F(5, 9) / 3600,
                "K/(10 s)": F(1, 10)},
    "angular rate": {"radian/s": 1, "rpm": PI / 30, "degree/minute": PI / 10800},
    "count rate": {"count/s": 1, "count/(5 minutes)": F(1, 300)},
    "interval": {"delta_degC": 1, "delta_degF": F(5, 9), "kelvin": 1},
}
SAMEDIM = [("plain", "angle"), ("plain", "count"), ("plain", "information"), ("angle", "count"),
           ("angle", "information"), ("count", "information"), ("rate", "angular rate"),
           ("rate", "count rate"), ("angular rate", "count rate")]

BOUNDS = {
    "quick": ["%d units in %d families (offset, scaled and compound units included): every ordered "
              "pair within a family, there and back, and through a third unit; for every real "
              "magnitude in [-1e15, 1e15]" % (sum(len(f) for f in FAMILIES.values()), len(FAMILIES)),
              "every ordered pair of units from two different families is refused",
              "base units, scale and offset of every unit",
              "changing the definitions file and back"],
    "thorough": ["every triple of units within a family"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "pint parses the concrete unit strings and supplies each unit's factor; its arithmetic on the "
    "symbolic magnitude is executed over the reals, so rounding is outside (and results are compared "
    "with the exact definitions to a relative 1e-9)",
    "logarithmic units (decibel and the like) are outside: they are not affine"]
COVERS = {"all": ["converted", "offset", "same unit", "incompatible", "same dimension", "base",
                  "definitions"]}


def affine(spec):
    return (F(spec[0]), F(spec[1])) if isinstance(spec, tuple) else (F(spec), F(0))


def expected(family, a, b):
    """(scale, offset) with converted = scale * x + offset"""
    (s1, o1), (s2, o2) = affine(FAMILIES[family][a]), affine(FAMILIES[family][b])
    return s1 / s2, s1 * o1 / s2 - o2


REL, TINY = F(1, 10 ** 9), F(1, 10 ** 290)


def near(t, d, x, scale, off):
    """|d| <= 1e-9 (|scale x| + off), exactly"""
    D, X = d, t.q(x)
    pos, neg = X * (abs(scale) * REL) + (off * REL + TINY), X * (-abs(scale) * REL) + (off * REL + TINY)
    return t.all(t.implies(X >= 0, t.all(D <= pos, D >= pos * -1)),
                 t.implies(X <= 0, t.all(D <= neg, D >= neg * -1)))


def close(t, got, x, scale, off):
    """got is scale * x + off up to rounding"""
    return near(t, t.q(got) - (t.q(x) * scale + off), x, scale, abs(off))


def h_pair(t, family, a, b):
    x, y = t.real("x", -1e15, 1e15), t.real("y", -1e15, 1e15)
    u = t.must(t.attempt(convert_units, x, a, b), "conversion")
    v = t.must(t.attempt(convert_units, y, a, b), "conversion")
    s, o = expected(family, a, b)
    if a == b:
        t.check(u == x, "the same unit")
        t.cover("same unit")
    t.check(close(t, u, x, s, o), "the units' scale and offset")
    t.cover("offset" if o else "converted")
    slack = abs(o) * REL + TINY + s * 10 ** 7
    t.check(t.implies(x < y, t.q(u) <= t.q(v) + slack), "order is preserved")
    back = t.must(t.attempt(convert_units, u, b, a), "conversion back")
    t.check(near(t, t.q(back) - t.q(x), x, F(1), abs(o / s)), "there and back")


def h_via(t, family, a, b, c):
    x = t.real("x", -1e15, 1e15)
    u = t.must(t.attempt(convert_units, x, a, b), "conversion")
    v = t.must(t.attempt(convert_units, u, b, c), "conversion")
    w = t.must(t.attempt(convert_units, x, a, c), "conversion")
    s, o = expected(family, a, c)
    _, o1 = expected(family, a, b)
    s2, _ = expected(family, b, c)
    t.check(near(t, t.q(v) - t.q(w), x, s, abs(o) + abs(o1 * s2)), "through an intermediate unit")


def h_incompatible(t, one, two):
    x = t.real("x")
    for a in FAMILIES[one]:
        for b in FAMILIES[two]:
            for p, q in ((a, b), (b, a)):
                out = t.attempt(convert_units, x, p, q)
                t.must_raise(out, IncompatibleUnitsError, "incompatible units")
    t.cover("incompatible")
    if (one, two) in SAMEDIM:
        t.cover("same dimension")


def h_base(t, family):
    x = t.real("x", -1e15, 1e15)
    for a in FAMILIES[family]:
        base, scale, off = t.must(t.attempt(get_base_units, a), "base units")
        u = t.must(t.attempt(convert_units, x, a, str(base)), "to base units")
        t.check(close(t, u, x, F(scale), F(off)), "base units")
        again = t.must(t.attempt(get_base_units, parse_units(a, return_unit=True)), "of a Unit")
        t.check(again[0] == base and again[1] == scale and again[2] == off, "of a Unit")
        b2, s2, o2 = get_base_units(str(base))
        t.check(b2 == base and abs(s2 - 1) < 1e-12 and o2 == 0, "base units are their own")
        if family == "interval":
            continue
        for b in FAMILIES[family]:
            t.check(get_base_units(b)[0] == base, "one base unit in a family")
        t.cover("base")


OLD = "meter = [length]\nsecond = [time] = s\nzork = 3 * meter\ninch = 21 * meter\n"
NEW = "meter = [length]\nsecond = [time] = s\nzork = 5 * meter\nplim = 7 * second\ninch = 35 * meter\n"


def h_definitions(t):
    """Conversions follow the definitions file that is in force."""
    x = t.real("x", -1e6, 1e6)
    where = tempfile.mkdtemp(prefix="c18-")
    here = os.getcwd()
    try:
        for name, text in (("old.txt", OLD), ("new.txt", NEW)):
            with open(os.path.join(where, name), "w") as f:
                f.write(text)
        order = ["old", "new"] if t.flag("order") else ["new", "old"]
        inch = get_base_units("inch")
        for name in order:
            t.must(t.attempt(change_definitions_file, os.path.join(where, name + ".txt")), "change")
            k = {"old": 3, "new": 5}[name]
            t.check(convert_units(1.0, "zork", "meter") == k, "conversion follows the file")
            t.check(convert_units(x, "zork", "meter") == k * x, "conversion follows the file (any x)")
            t.check(get_base_units("zork")[1] == k, "base units follow the file")
            t.check(get_base_units("inch")[1:] == (k * 7, 0), "base units of a unit of every file")
            t.check(convert_units(x, "inch", "meter") == 7 * k * x, "a unit of every file")
            t.check(parse_units("zork") == "zork", "parsed")
            out = t.attempt(parse_units, "plim")
            t.check(out.ok == (name == "new"), "units of the other file")
            t.must_raise(t.attempt(convert_units, x, "zork", "second"), IncompatibleUnitsError,
                         "incompatible in this file")
            t.check(os.getcwd() == here, "the working directory")
        bad = t.attempt(change_definitions_file, os.path.join(where, "missing.txt"))
        t.must_raise(bad, FileNotFoundError, "a missing file")
        t.check(convert_units(x, "zork", "meter") == {"old": 3, "new": 5}[order[1]] * x,
                "a missing file changes nothing")
        for u, f in (("zork", 1), ("inch", 7)):
            t.check(get_base_units(u)[1] == {"old": 3, "new": 5}[order[1]] * f,
                    "a missing file changes nothing")
        t.check(os.getcwd() == here, "the working directory")
    finally:
        os.chdir(here)
        shutil.rmtree(where)
        change_definitions_file()
    for f in (parse_units, get_base_units):
        t.check(not t.attempt(f, "zork").ok, "the default file again: a unit it does not have")
    t.check(not t.attempt(convert_units, x, "zork", "meter").ok,
            "the default file again: a unit it does not have")
    again = get_base_units("inch")
    t.check(str(again[0]) == str(inch[0]) and again[1:] == inch[1:], "the default file again")
    t.check(close(t, convert_units(x, "inch", "cm"), x, F(254, 100), F(0)), "the default file again")
    t.cover("definitions")


def cases(tier):
    out = []
    th = tier == "thorough"
    for f, us in FAMILIES.items():
        us = list(us)
        for i, a in enumerate(us):
            for j, b in enumerate(us):
                out.append(case("h_pair", family=f, a=a, b=b))
                for k, c in enumerate(us):
                    if len({a, b, c}) == 3 and (th or (i + 2 * j + 3 * k) % 5 == 0):
                        out.append(case("h_via", family=f, a=a, b=b, c=c))
        out.append(case("h_base", family=f))
    names = list(FAMILIES)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if {a, b} != {"interval", "temperature"}:
                out.append(case("h_incompatible", one=a, two=b))
    out.append(case("h_definitions"))
    return out
