"""C23: Molecular and formula values are normalised without loss."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.value import InChI, Smiles, EmpiricalFormula
from gemd.entity.bounds import CompositionBounds, MolecularStructureBounds

BOUNDS = {
    "quick": ["InChI: every Latin-1 text of up to 12 characters; the prefixes InChI=1S/, InChI and "
              "1S/ in every casing (each letter free) followed by any text of up to 9 characters of "
              "the letters, digits and signs of InChI (so that the prefix can recur)",
              "SMILES: every text of up to 4 characters",
              "formulas: every text of up to 4 characters, and of 5 characters without lower-case "
              "letters; bounds of texts of up to 3",
              "re-assignments over a previous text; non-texts; None"],
    "thorough": ["InChI: any text of up to 20 characters; prefixes followed by up to 11; formulas of "
                 "up to 5 characters; bounds of up to 4"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["characters: Latin-1 without \u00b5, \u00df and \u00ff"]
COVERS = {"all": ["1S", "inchi", "plain", "exact", "recurs", "refused formula", "formula",
                  "two elements", "refused type", "none", "smiles", "bounds"]}

ELEMENTS = ("H D T He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga "
            "Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm "
            "Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th "
            "Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
            ).split()
UPPER, LOWER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz"


def caseless(t, s, i, word):
    """word stands at position i of s, in any casing"""
    if len(s) < i + len(word):
        return False
    return t.all(*[t.any(s[i + k] == c.lower(), s[i + k] == c.upper()) for k, c in enumerate(word)])


def normal(t, got, s):
    """got is s with its prefix normalised, by an independent account."""
    one, inchi = caseless(t, s, 0, "1s/"), caseless(t, s, 0, "inchi")
    t.check(isinstance(got, str), "a text")
    if t.is_true(one):
        t.check(got == "InChI=1S" + s[2:], "prefix 1S/")
        t.cover("1S")
    elif t.is_true(inchi):
        t.check(got == "InChI" + s[5:], "prefix InChI")
        t.cover("inchi")
        if t.is_true(got == s):
            t.cover("exact")
    else:
        t.check(got == "InChI=1S/" + s, "no prefix")
        t.cover("plain")


def inchi(t, s, how):
    if how == "construct":
        x = t.must(t.attempt(InChI, s), "accepted")
    else:
        x = InChI("InChI=1S/old")
        t.must(t.attempt(setattr, x, "inchi", s), "accepted")
    got = x.inchi
    normal(t, got, s)
    x.inchi = got
    t.check(x.inchi == got, "normalising again changes nothing")
    t.check(isinstance(x._to_bounds(), MolecularStructureBounds), "bounds")


def h_inchi_any(t, n, how):
    inchi(t, t.str("s", n, n), how)


def h_inchi_prefix(t, prefix, n, how):
    p = ""
    for i, c in enumerate(prefix):
        p = p + (t.choice("c%d" % i, [c.lower(), c.upper()]) if c.isalpha() and i < 2 + n % 2 else c)
    s = p + t.str("s", n, n, "1sS/iInNcChH=")
    if n > 2 and t.is_true(s[len(p) + 1] == p[0]):
        t.cover("recurs")
    inchi(t, s, how)


def h_smiles(t, n):
    s = t.str("s", n, n)
    x = t.must(t.attempt(Smiles, s), "accepted")
    t.check(isinstance(x.smiles, str) and x.smiles == s, "verbatim")
    r = t.str("r", 0, 1)
    x.smiles = r
    t.check(x.smiles == r, "verbatim")
    t.cover("smiles")


def among(t, c, chars):
    """c is one of a contiguous range of characters"""
    return t.all(c >= chars[0], c <= chars[-1])


def symbols(t, s):
    """[(start, length)] of the element symbols of s, deciding which characters are letters."""
    out, i, n = [], 0, len(s)
    while i < n:
        if t.is_true(among(t, s[i], UPPER)):
            j = i + 1
            while j < n and t.is_true(among(t, s[j], LOWER)):
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def known(t, s, i, k):
    return t.any(*[t.all(*[s[i + m] == c for m, c in enumerate(e)]) for e in ELEMENTS if len(e) == k])


def h_formula(t, n, how, alphabet=None):
    s = t.str("s", n, n) if alphabet is None else t.str("s", n, n, alphabet)
    if how == "construct":
        out = t.attempt(EmpiricalFormula, s)
        x = out.value if out.ok else None
    else:
        x = EmpiricalFormula("NaCl")
        out = t.attempt(setattr, x, "formula", s)
    syms = symbols(t, s)
    ok = t.all(*[known(t, s, i, k) for i, k in syms])
    if not out.ok:
        t.must_raise(out, ValueError, "unknown element")
        t.check(t.no(ok), "refused although every element is known")
        t.check(x is None or x.formula == "NaCl", "a refused formula changes nothing")
        t.cover("refused formula")
        return
    t.check(ok, "accepted with an unknown element")
    t.check(isinstance(x.formula, str) and x.formula == s, "verbatim")
    if len(syms) > 1:
        t.cover("two elements")
    t.cover("formula")


def h_formula_bounds(t, n, alphabet):
    s = t.str("s", n, n, alphabet)
    x = t.attempt(EmpiricalFormula, s)
    if not x.ok:
        return
    syms = symbols(t, s)
    b = t.must(t.attempt(x.value._to_bounds), "bounds")
    t.check(type(b) is CompositionBounds, "composition bounds")
    comps = list(b.components)
    t.check(all(isinstance(c, str) for c in comps), "texts")
    for i, k in syms:
        t.check(t.any(*[c == s[i:i + k] for c in comps]), "every element is a component")
    for c in comps:
        t.check(t.any(*[c == s[i:i + k] for i, k in syms]), "every component is an element")
    t.cover("bounds")


def h_elements(t):
    from gemd.entity.value import empirical_formula
    e = EmpiricalFormula.all_elements()
    t.check(sorted(e) == sorted(ELEMENTS), "the known elements")
    s = t.str("s", 0, 2)
    k = t.choice("e", ELEMENTS)
    x = t.must(t.attempt(EmpiricalFormula, k + "2"), "every element")
    t.check(list(x._to_bounds().components) == [k], "its component")


def h_other(t, cls):
    cls, f = {"inchi": (InChI, "inchi"), "smiles": (Smiles, "smiles"),
              "formula": (EmpiricalFormula, "formula")}[cls]
    old = "InChI=1S/C" if cls is InChI else "C"
    bad = t.choice("bad", [5, 0, 1.5, True, [], ["C"], ("C",), b"C", {"C": 1}, object])
    x = cls(old)
    t.must_raise(t.attempt(setattr, x, f, bad), TypeError, "not a text")
    t.check(getattr(x, f) == old, "unchanged")
    t.must_raise(t.attempt(cls, bad), TypeError, "not a text")
    t.cover("refused type")
    t.check(getattr(cls(), f) is None and getattr(cls(None), f) is None, "none by default")
    setattr(x, f, None)
    t.check(getattr(x, f) is None, "cleared")
    t.cover("none")


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(21 if th else 13):
        for how in ("construct", "assign"):
            out.append(case("h_inchi_any", n=n, how=how, weight=n))
    for p in ("1S/", "InChI", "InChI=1S/"):
        for n in range(12 if th else 10):
            out.append(case("h_inchi_prefix", prefix=p, n=n, how="assign" if n % 2 else "construct",
                            weight=n))
    for n in range(5 if not th else 7):
        out.append(case("h_smiles", n=n))
    for n in range(5 if not th else 6):
        for how in ("construct", "assign"):
            out.append(case("h_formula", n=n, how=how, weight=2 * n))
    out.append(case("h_formula", n=5, how="assign", alphabet="CHONXZJ()25 .", weight=5))
    for n in range(4 if not th else 5):
        out.append(case("h_formula_bounds", n=n, alphabet="CHONalreX2(", weight=2 * n))
    out.append(case("h_elements"))
    for c in ("inchi", "smiles", "formula"):
        out.append(case("h_other", cls=c))
    return out
