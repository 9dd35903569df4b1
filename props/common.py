"""Helpers shared by the harnesses."""


def case(fn, name=None, weight=1, **args):
    d = dict(fn=fn, name=name or fn + ("" if not args else
                                       "[" + ",".join("%s=%s" % kv for kv in sorted(args.items()) if kv[0] not in ("rest",)) + "]"),
             args=args, weight=weight)
    return d


def opt(d, **k):
    """Attach runner options to a case."""
    d.update(k)
    return d


ENGINE_ASSUMPTIONS = [
    "CPython semantics of the rewritten constructs (AST rewriting of gemd's current source); the "
    "repository's own tests pass under the rewriting, and sampled paths of every run are replayed "
    "on the unmodified code with identical outcomes",
    "z3 4.x is sound for QF_BV/QF_FP/LRA; C-implemented builtins behave as modelled in sx/",
    "logging, warnings and uuid4 are replaced by recording stubs; message texts are not evaluated",
    "native sets iterate in insertion order",
]


def same_sets(t, s, items):
    """The set s holds exactly the strings `items`."""
    return t.all(*([x in s for x in items] + [t.any(*[x == y for y in items]) for x in s]))


# ------------------------------------------------------------- bounds with an oracle
class Ranges:
    """A template's bounds, symbolic values for it and an independent containment oracle."""

    def __init__(self, t, kind, p):
        from gemd.entity.bounds import (IntegerBounds, RealBounds, CategoricalBounds,
                                        CompositionBounds, MolecularStructureBounds)
        self.t, self.kind = t, kind
        if kind == "int":
            self.lo, self.hi = t.int(p + ".lo"), t.int(p + ".hi")
            t.assume(self.lo <= self.hi)
            self.bounds = IntegerBounds(self.lo, self.hi)
        elif kind == "real":
            self.lo, self.hi = t.real(p + ".lo"), t.real(p + ".hi")
            t.assume(self.lo <= self.hi)
            self.bounds = RealBounds(self.lo, self.hi, "m")
        elif kind == "cat":
            self.cats = [t.str(p + ".c%d" % i, 1, 1) for i in range(2)]
            self.bounds = CategoricalBounds(list(self.cats))
        elif kind == "comp":
            self.cats = [t.str(p + ".c%d" % i, 1, 1) for i in range(2)]
            self.bounds = CompositionBounds(list(self.cats))
        elif kind == "mol":
            self.bounds = MolecularStructureBounds()

    def permits(self, desc):
        """desc: ('int', x) | ('uni', lo, hi) | ('real', x, unit) | ('cat', s) | ('comp', s)..."""
        t, k = self.t, desc[0]
        if self.kind == "int":
            if k == "int":
                return t.all(self.lo <= desc[1], desc[1] <= self.hi)
            return k == "uni" and t.all(self.lo <= desc[1], desc[2] <= self.hi)
        if self.kind == "real":
            if k == "real":
                return desc[2] == "m" and t.all(self.lo <= desc[1], desc[1] <= self.hi)
            return False
        if self.kind == "cat":
            return k == "cat" and t.any(*[desc[1] == c for c in self.cats])
        if self.kind == "comp":
            return k == "comp" and t.any(*[desc[1] == c for c in self.cats])
        return k == "mol"


def value_of(t, name, k, sub=None):
    """(value object, description) of the named kind with symbolic content."""
    from gemd.entity.value import (NominalInteger, UniformInteger, NominalReal,
                                   NominalCategorical, NominalComposition, Smiles)
    if k == "int":
        x = t.int(name)
        return NominalInteger(x), ("int", x)
    if k == "uni":
        x, y = t.int(name + ".l"), t.int(name + ".u")
        t.assume(x <= y)
        return UniformInteger(x, y), ("uni", x, y)
    if k == "real":
        x = t.real(name)
        return NominalReal(x, sub or "m"), ("real", x, sub or "m")
    if k == "cat":
        s = t.str(name, 1, 1)
        return NominalCategorical(s), ("cat", s)
    if k == "comp":
        s = t.str(name, 1, 1)
        return NominalComposition({s: 1.0}), ("comp", s)
    return Smiles(smiles="CC"), ("mol",)


OTHER = {"int": "cat", "real": "int", "cat": "real", "comp": "cat", "mol": "comp"}
