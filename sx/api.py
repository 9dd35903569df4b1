"""What harnesses see.  The same harness runs symbolically (SymT) and concretely (ConT)."""
import logging
import warnings


MAXF = 1.7976931348623157e308


class Violation(Exception):
    pass


class Skip(BaseException):
    """Concrete run: the inputs do not meet an assumption."""


class Raised:
    """Outcome of a call: .exc is None or the exception, .value the result."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "ok" if self.ok else type(self.exc).__name__


class TBase:
    def attempt(self, fn, *a, **k):
        """Run fn; exceptions derived from Exception are an outcome."""
        try:
            return Raised(fn(*a, **k))
        except Exception as exc:          # engine control flow derives from BaseException
            return Raised(None, exc)

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def anyfloat(self, name):
        """Every float64: a finite one (symbolic), NaN or an infinity."""
        k = self.pick(name + "#kind", 4)
        if k == 0:
            return self.real(name)
        return [float("nan"), float("inf"), float("-inf")][k - 1]

    def flag(self, name):
        return self.pick(name, 2) == 1

    def must(self, out, msg):
        """The call had to succeed."""
        if out.exc is not None:
            self.fail("%s: raised %s" % (msg, type(out.exc).__name__))
        return out.value

    def must_raise(self, out, types, msg):
        if out.exc is None:
            self.fail("%s: accepted" % msg)
        elif not isinstance(out.exc, types):
            self.fail("%s: raised %s" % (msg, type(out.exc).__name__))

    def fail(self, msg):
        self.check(False, msg)


class ConT(TBase):
    """Concrete execution on the unmodified code with recorded inputs."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.labels = []
        self.checked = 0
        self.records = []
        self.handler = _Handler(self.records)
        root = logging.getLogger()
        root.addHandler(self.handler)
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: self.records.append(("warnings", logging.WARNING))

    def close(self):
        logging.getLogger().removeHandler(self.handler)
        self._w.__exit__(None, None, None)

    def _get(self, name, kind, default):
        v = self.inputs.get(name)
        if v is None:
            return default
        if v[0] == "float":
            return float.fromhex(v[1]) if isinstance(v[1], str) else float(v[1])
        if v[0] == "str":
            return "".join(map(chr, v[1]))
        return v[1]

    def int(self, name, lo=-2 ** 60, hi=2 ** 60, bv=False):
        return int(self._get(name, "int", lo if lo > 0 else (0 if hi >= 0 else hi)))

    def float(self, name, finite=False, lo=None, hi=None):
        v = float(self._get(name, "float", 0.0))
        return v

    def real(self, name, lo=-MAXF, hi=MAXF):
        return float(self._get(name, "float", lo if lo > 0 else (0.0 if hi >= 0 else hi)))

    def bool(self, name):
        return bool(self._get(name, "bool", False))

    def pick(self, name, n):
        v = int(self._get(name, "int", 0))
        if not 0 <= v < n:
            raise Skip()
        return v

    def str(self, name, lo, hi, alphabet=None):
        v = self._get(name, "str", None)
        if v is None:
            v = (alphabet[0] if alphabet else "a") * lo
        return v

    def check(self, cond, msg):
        self.checked += 1
        if not cond:
            raise Violation(msg)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def cover(self, label):
        self.labels.append(label)

    def warnings(self):
        return len([r for r in self.records if r[1] >= logging.WARNING])

    def all(self, *xs):
        return all(bool(x) for x in xs)

    def any(self, *xs):
        return any(bool(x) for x in xs)

    def no(self, x):
        return not x

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def is_true(self, x):
        return bool(x)

    def hash_eq(self, a, b):
        return hash(a) == hash(b)

    def q(self, x):
        """The exact rational value of a number."""
        from fractions import Fraction
        return Fraction(x)

    def isnan(self, x):
        return x != x

    def isfinite(self, x):
        import math
        return math.isfinite(x)

    def is_int_valued(self, x):
        return x == int(x)


class _Handler(logging.Handler):
    def __init__(self, out):
        super().__init__(0)
        self.out = out

    def emit(self, record):
        if not record.name.startswith("pint"):
            self.out.append((record.name, record.levelno))


def make_sym():
    import z3
    from . import values as v
    from . import containers as c
    from . import engine as e

    class SymT(TBase):
        symbolic = True

        def __init__(self, eng):
            self.e = eng

        def _in(self, name, kind, term):
            if name in self.e.inputs:
                raise RuntimeError("duplicate input " + name)
            self.e.inputs[name] = (kind, term)
            self.e.keep.setdefault(name, term)

        def int(self, name, lo=-2 ** 60, hi=2 ** 60, bv=False):
            """A Python int; bv: bit-vector encoding, for code that mixes ints and floats."""
            if not bv:
                t = z3.Int(name)
                self._in(name, "int", t)
                self.e.assume(z3.And(t >= lo, t <= hi))
                return v.SymInt(t, "z")
            t = z3.BitVec(name, v.IW)
            self._in(name, "int", t)
            self.e.assume(z3.And(t >= z3.BitVecVal(lo, v.IW), t <= z3.BitVecVal(hi, v.IW)))
            return v.SymInt(t)

        def float(self, name, finite=False, lo=None, hi=None):
            t = z3.FP(name, v.F64)
            self._in(name, "float", t)
            if finite:
                self.e.assume(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
            if lo is not None:
                self.e.assume(z3.fpGEQ(t, v.fpval(lo)))
            if hi is not None:
                self.e.assume(z3.fpLEQ(t, v.fpval(hi)))
            return v.SymFloat(t)

        def real(self, name, lo=-MAXF, hi=MAXF):
            """A finite float; comparisons are exact, arithmetic carries a rounding error."""
            t = z3.Real(name)
            self._in(name, "real", t)
            self.e.assume(z3.And(t >= v.frac(lo), t <= v.frac(hi)))
            return v.SymReal(t)

        def bool(self, name):
            t = z3.Bool(name)
            self._in(name, "bool", t)
            return v.SymBool(t)

        def pick(self, name, n):
            t = z3.BitVec(name, 8)
            self._in(name, "choice", t)
            if n == 1:
                self.e.assume(t == 0)
                return 0
            self.e.assume(z3.ULT(t, n))
            return self.e.pin(t, lambda m: m.as_long(), lambda a, b: a == b, "choice",
                              complete=True)

        def str(self, name, lo, hi, alphabet=None):
            n = lo if lo == hi else lo + self.pick(name + "#len", hi - lo + 1)
            cs = [z3.BitVec("%s[%d]" % (name, i), v.CW) for i in range(n)]
            self._in(name, "str", cs)
            key = ("str", name, n, alphabet)
            if key not in self.e.memo:
                self.e.memo[key] = [z3.simplify(
                    z3.And(z3.ULT(x, 256), x != 0xDF, x != 0xB5, x != 0xFF) if alphabet is None
                    else v.mkset(x, alphabet)) for x in cs]
            for c in self.e.memo[key]:
                self.e.assume(c, True)
            return v.mkstr(cs)

        def check(self, cond, msg):
            if type(cond) is v.SymBool:
                cond = cond.t
            elif not isinstance(cond, bool):
                cond = True if cond else False
            self.e.check(cond, msg)

        def assume(self, cond):
            if type(cond) is v.SymBool:
                self.e.assume(cond.t)
            elif not cond:
                raise e.PathAbort("assume")

        def cover(self, label):
            self.e.labels.append(label)

        def warnings(self):
            return len([r for r in self.e.logs if r[1] >= logging.WARNING])

        def all(self, *xs):
            return v.and_(*xs)

        def any(self, *xs):
            return v.or_(*xs)

        def no(self, x):
            return v.not_(x)

        def iff(self, a, b):
            if type(a) is v.SymBool or type(b) is v.SymBool:
                return v.mkbool(v.z3_bool(a) == v.z3_bool(b))
            return bool(a) == bool(b)

        def implies(self, a, b):
            return v.or_(v.not_(a), b)

        def is_true(self, x):
            return v.truth(x)

        def hash_eq(self, a, b):
            """Equal hashes; symbolic content is compared through the structure hashed."""
            ha, hb = c.hash_value(a), c.hash_value(b)
            return c.sig_eq(_Sig(ha), _Sig(hb))

        def q(self, x):
            return Q(v.real_term(x))

        def isnan(self, x):
            from .intercept import m_isnan
            return m_isnan(x)

        def isfinite(self, x):
            from .intercept import m_isfinite
            return m_isfinite(x)

        def is_int_valued(self, x):
            if type(x) is v.SymInt or isinstance(x, int):
                return True
            return x.is_integer()

    def term(x):
        return x.t if type(x) is Q else v.real_term(x)

    class Q:
        """Exact rational arithmetic for oracles (no rounding)."""

        def __init__(self, t):
            self.t = t

        def __add__(self, o):
            return Q(self.t + term(o))
        __radd__ = __add__

        def __sub__(self, o):
            return Q(self.t - term(o))

        def __rsub__(self, o):
            return Q(term(o) - self.t)

        def __mul__(self, o):
            return Q(self.t * term(o))
        __rmul__ = __mul__

        def __truediv__(self, o):
            return Q(self.t / term(o))

        def __neg__(self):
            return Q(-self.t)

        def __abs__(self):
            return Q(z3.If(self.t >= 0, self.t, -self.t))

        def __le__(self, o):
            return v.mkbool(self.t <= term(o))

        def __lt__(self, o):
            return v.mkbool(self.t < term(o))

        def __ge__(self, o):
            return v.mkbool(self.t >= term(o))

        def __gt__(self, o):
            return v.mkbool(self.t > term(o))

    class _Sig:
        """Stands for a hash number."""

        def __init__(self, h):
            self.h = h

        def __hash__(self):
            return self.h

    return SymT
