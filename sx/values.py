"""Symbolic scalars: booleans, integers, IEEE floats, rounded reals, strings."""
import math
import sys
from fractions import Fraction

import z3

from . import engine as _e

F64 = z3.Float64()
RNE = z3.RNE()
IW = 80                         # width of symbolic integers; inputs are bounded by 2**60
CW = 16                         # width of a character


class SymBase:
    """Marker base of all symbolic scalars."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value escapes")


def eng():
    return _e.ENGINE


def site():
    """Where in gemd (or the harness) are we?  For the record of pins."""
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "/sx/" not in fn and ("gemd" in fn or "/props/" in fn):
            return "%s:%d" % (fn.split("/repo/")[-1].split("/verif/")[-1], f.f_lineno)
        f = f.f_back
    return "?"


# ---------------------------------------------------------------------- SymBool
class SymBool(SymBase):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.t, True)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.t == z3_bool(o))
        return bool(self) == o

    def __ne__(self, o):
        return not_(self == o)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.And(self.t, z3_bool(o)))
        return bool(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Or(self.t, z3_bool(o)))
        return bool(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.t, z3_bool(o)))
        return bool(self) ^ o
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __repr__(self):
        return "<SymBool>"


def z3_bool(x):
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def not_(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    if x is NotImplemented:
        return x
    return not x


def and_(*xs):
    """Lazy conjunction of bools / SymBools."""
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    return mkbool(z3.And(*ts)) if ts else True


def or_(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    return mkbool(z3.Or(*ts)) if ts else False


def truth(x):
    return True if x else False


# --------------------------------------------------------------------- numbers
def fpval(f):
    return z3.FPVal(f, F64)


BIG = 2.0 ** (IW - 1)


def int_repr(x):
    """('bv', term) or ('fp', term) for int-like x (int, SymInt)."""
    if type(x) is SymInt:
        return x.k, x.t
    x = int(x)
    if -(1 << (IW - 2)) < x < (1 << (IW - 2)):
        return "bv", z3.BitVecVal(x, IW)
    if x == int(float(x)):
        return "fp", fpval(float(x))
    raise OverflowError


def _cmp_bv_fp(op, i, f):
    """i op f exactly, as Python compares int with float."""
    lim = fpval(2.0 ** (IW - 2))
    nan = z3.fpIsNaN(f)
    toobig = z3.fpGEQ(f, lim)
    toosmall = z3.fpLEQ(f, z3.fpNeg(lim))
    fl = z3.fpToSBV(z3.RTN(), f, z3.BitVecSort(IW))
    ce = z3.fpToSBV(z3.RTP(), f, z3.BitVecSort(IW))
    if op == "<":
        mid, big, small = i < ce, True, False
    elif op == "<=":
        mid, big, small = i <= fl, True, False
    elif op == ">":
        mid, big, small = i > fl, False, True
    elif op == ">=":
        mid, big, small = i >= ce, False, True
    else:
        mid, big, small = z3.And(i == fl, fl == ce), False, False
    return z3.If(nan, z3.BoolVal(False),
                 z3.If(toobig, z3.BoolVal(big), z3.If(toosmall, z3.BoolVal(small), mid)))


_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}
_FPOP = {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ, "==": z3.fpEQ}


def _bvop(op, a, b):
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]


def num_cmp(op, a, b):
    """Comparison of two numbers at least one of which is symbolic; SymBool or bool."""
    if type(a) is SymBool:
        a = bool(a)
    if type(b) is SymBool:
        b = bool(b)
    if type(a) is SymReal or type(b) is SymReal:
        sp = _special(op, a, b)
        if sp is not None:
            return sp
        x, y = real_term(a), real_term(b)
        return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])
    if is_z(a) or is_z(b):
        if z_like(a) and z_like(b):
            x, y = z_term(a), z_term(b)
            return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])
        sp = _special(op, a, b)
        if sp is not None:
            return sp
        x, y = real_term(a), real_term(b)     # a float operand: exact (SymFloat is pinned)
        return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])
    ka, ta = _num(a)
    kb, tb = _num(b)
    if ka == "bv" and kb == "bv":
        return mkbool(_bvop(op, ta, tb))
    if ka == "bv":
        return mkbool(_cmp_bv_fp(op, ta, tb))
    if kb == "bv":
        return mkbool(_cmp_bv_fp(_FLIP[op], tb, ta))
    return mkbool(_FPOP[op](ta, tb))


def is_z(x):
    return type(x) is SymInt and x.k == "z"


def z_like(x):
    return is_z(x) or type(x) in (int, bool)


def z_term(x):
    return x.t if type(x) is SymInt else z3.IntVal(int(x))


def _special(op, a, b):
    """Comparison of a rounded real with a non-finite constant."""
    for x, y, o in ((a, b, op), (b, a, _FLIP[op])):
        if isinstance(y, float) and type(y) is float and not math.isfinite(y):
            if y != y:
                return False
            return {"<": y > 0, "<=": y > 0, ">": y < 0, ">=": y < 0, "==": False}[o]
    return None


def _num(x):
    if type(x) is SymFloat:
        return "fp", x.t
    if type(x) is float or (isinstance(x, float) and not isinstance(x, SymBase)):
        return "fp", fpval(float(x))
    return int_repr(x)


def is_num(x):
    return isinstance(x, (int, float))


def exact_fp_to_py_int(v):
    f = _e.fp_to_py(v)
    return int(f)


class SymNum(SymBase):
    __slots__ = ()

    def __lt__(self, o):
        return num_cmp("<", self, o) if is_num(o) else NotImplemented

    def __le__(self, o):
        return num_cmp("<=", self, o) if is_num(o) else NotImplemented

    def __gt__(self, o):
        return num_cmp(">", self, o) if is_num(o) else NotImplemented

    def __ge__(self, o):
        return num_cmp(">=", self, o) if is_num(o) else NotImplemented

    def __eq__(self, o):
        if o is self and type(self) is not SymFloat:
            return True
        return num_cmp("==", self, o) if is_num(o) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        e = eng()
        if e is not None:
            e.hash_touched = True
        return self.t.hash()

    def __bool__(self):
        return truth(not_(num_cmp("==", self, 0)))

    def __pos__(self):
        return self

    def __format__(self, spec):
        return "<sym>" if not spec else format(realize(self), spec)

    def __str__(self):
        return "<sym>"

    __repr__ = __str__

    def _arith(self, name, o, rev=False):
        if type(o) is SymBool:
            o = bool(o)
        if not is_num(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if type(a) is SymReal or type(b) is SymReal:
            return real_arith(name, a, b)
        if is_z(a) or is_z(b):
            if z_like(a) and z_like(b):
                x, y = z_term(a), z_term(b)
                if name == "+":
                    return SymInt(z3.simplify(x + y), "z")
                if name == "-":
                    return SymInt(z3.simplify(x - y), "z")
                if name == "*" and not (is_z(a) and is_z(b)):
                    return SymInt(z3.simplify(x * y), "z")
                if name in ("%", "//") and not is_z(b) and b > 0:
                    # floor division: SMT-LIB div and mod agree with Python's for b > 0
                    return SymInt(z3.simplify(x % y if name == "%" else x / y), "z")
            if name in "+-*/":
                return real_arith(name, sym_float(a), sym_float(b))
            return _NATIVE[name](realize(a), realize(b))
        if isinstance(a, float) or isinstance(b, float):
            x, y = float_term(a), float_term(b)
            if name in ("%", "//") and not isinstance(b, SymBase) and b == 1:
                return mkfloat(mod_one(x)[name == "//"])
            if name == "+":
                return mkfloat(z3.fpAdd(RNE, x, y))
            if name == "-":
                return mkfloat(z3.fpSub(RNE, x, y))
            if name == "*":
                return mkfloat(z3.fpMul(RNE, x, y))
            if name == "/":
                if truth(num_cmp("==", b, 0)):
                    raise ZeroDivisionError("float division by zero")
                return mkfloat(z3.fpDiv(RNE, x, y))
        else:
            ka, x = int_repr(a)
            kb, y = int_repr(b)
            if ka == kb == "bv":
                if name == "+":
                    return SymInt(z3.simplify(x + y))
                if name == "-":
                    return SymInt(z3.simplify(x - y))
                if name == "*" and not (isinstance(a, SymBase) and isinstance(b, SymBase)):
                    c = b if isinstance(a, SymBase) else a
                    if abs(int(c)) <= 1 << 16:
                        return SymInt(z3.simplify(x * y))
        a, b = realize(a), realize(b)
        return _NATIVE[name](a, b)

    def __add__(self, o):
        return self._arith("+", o)

    def __radd__(self, o):
        return self._arith("+", o, True)

    def __sub__(self, o):
        return self._arith("-", o)

    def __rsub__(self, o):
        return self._arith("-", o, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._arith("*", o)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._arith("*", o, True)

    def __truediv__(self, o):
        return self._arith("/", o)

    def __rtruediv__(self, o):
        return self._arith("/", o, True)

    def __floordiv__(self, o):
        return self._arith("//", o)

    def __rfloordiv__(self, o):
        return self._arith("//", o, True)

    def __mod__(self, o):
        return self._arith("%", o)

    def __rmod__(self, o):
        return self._arith("%", o, True)

    def __pow__(self, o):
        return self._arith("**", o)

    def __rpow__(self, o):
        return self._arith("**", o, True)

    def __round__(self, n=None):
        """To the nearest integer, ties to even; other precisions use a concrete value."""
        if n is None and type(self) is SymFloat:
            return sym_int(mkfloat(z3.fpRoundToIntegral(RNE, self.t)))
        if n is None and type(self) is SymReal:
            r = z3.ToInt(self.t + z3.RealVal("1/2"))
            tie = z3.And(z3.ToReal(r) == self.t + z3.RealVal("1/2"), r % 2 != 0)
            return SymInt(z3.simplify(z3.If(tie, r - 1, r)), "z")
        if type(self) is SymInt and (n is None or n >= 0):
            return self
        return round(realize(self), n)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self


_NATIVE = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
           "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
           "**": lambda a, b: a ** b}


class SymInt(SymNum):
    """k == 'z': mathematical integer; 'bv': IW bits; 'fp': an integral IEEE double."""
    __slots__ = ("t", "k")

    def __init__(self, t, k="bv"):
        self.t, self.k = t, k

    @property
    def __class__(self):
        return int

    __eq__ = SymNum.__eq__
    __hash__ = SymNum.__hash__

    def __neg__(self):
        return SymInt(z3.simplify(-self.t if self.k in ("bv", "z") else z3.fpNeg(self.t)), self.k)

    def __abs__(self):
        return -self if truth(self < 0) else self

    def __int__(self):
        return realize(self)

    def __float__(self):
        return float(realize(self))

    def __index__(self):
        """Used as an index: every feasible value is explored (the range is small there)."""
        if self.k == "z":
            return eng().pin(self.t, lambda v: v.as_long(), lambda t, v: t == v, site(),
                             complete=True)
        if self.k == "bv":
            return eng().pin(self.t, lambda v: v.as_signed_long(),
                             lambda t, v: t == z3.BitVecVal(v, IW), site(), complete=True)
        return realize(self)

    __trunc__ = __floor__ = __ceil__ = lambda self: self
    real = property(lambda self: self)

    def is_integer(self):
        return True

    def bit_length(self):
        return realize(self).bit_length()

    def __invert__(self):
        return -self - 1


def _bitwise(name):
    op = getattr(int, name)

    def method(self, o):
        v = realize(o)
        return op(realize(self), v) if isinstance(v, int) else NotImplemented
    return method


for _n in ("and", "or", "xor", "lshift", "rshift"):
    for _m in ("__%s__" % _n, "__r%s__" % _n):
        setattr(SymInt, _m, _bitwise(_m))


class SymFloat(SymNum):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    __eq__ = SymNum.__eq__
    __hash__ = SymNum.__hash__

    def __neg__(self):
        return mkfloat(z3.fpNeg(self.t))

    def __abs__(self):
        return mkfloat(z3.fpAbs(self.t))

    def __float__(self):
        return realize(self)

    def __int__(self):
        return int(realize(self))

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsNaN(self.t)), z3.Not(z3.fpIsInf(self.t)),
                             z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.t), self.t)))

    real = property(lambda self: self)


def mod_one(x):
    """x % 1 and x // 1 for a float term: fmod is exact, the shift of a negative one rounds."""
    m = z3.fpSub(RNE, x, z3.fpRoundToIntegral(z3.RTZ(), x))
    zero = fpval(0.0)
    m = z3.If(z3.fpIsZero(m), zero, z3.If(z3.fpLT(m, zero), z3.fpAdd(RNE, m, fpval(1.0)), m))
    m = z3.If(z3.fpIsInf(x), z3.fpNaN(F64), m)
    q = z3.If(z3.fpIsInf(x), z3.fpNaN(F64), z3.fpRoundToIntegral(z3.RTN(), x))
    return m, q


def mkfloat(t):
    t = z3.simplify(t)
    if z3.is_fp_value(t) if hasattr(z3, "is_fp_value") else isinstance(t, z3.FPNumRef):
        return _e.fp_to_py(t)
    return SymFloat(t)


def float_term(x):
    """float(x) as an FP term (int -> float rounds to nearest even, as Python does)."""
    if type(x) is SymFloat:
        return x.t
    if type(x) is SymInt:
        if x.k == "fp":
            return x.t
        if x.k == "z":
            return fpval(float(realize(x)))
        return z3.fpSignedToFP(RNE, x.t, F64)
    return fpval(float(x))


def sym_float(x):
    """float(x) for symbolic x."""
    if type(x) in (SymFloat, SymReal):
        return x
    if type(x) is SymInt:
        if x.k == "z":
            return z_to_real(x)
        return SymFloat(z3.simplify(float_term(x)))
    if type(x) is SymBool:
        return float(bool(x))
    return float(realize(x))


def sym_int(x):
    """int(x) for symbolic x."""
    if type(x) is SymInt:
        return x
    if type(x) is SymFloat:
        if truth(mkbool(z3.fpIsNaN(x.t))):
            raise ValueError("cannot convert float NaN to integer")
        if truth(mkbool(z3.fpIsInf(x.t))):
            raise OverflowError("cannot convert float infinity to integer")
        return SymInt(z3.simplify(z3.fpRoundToIntegral(z3.RTZ(), x.t)), "fp")
    if type(x) is SymReal:
        return real_trunc(x)
    if type(x) is SymBool:
        return int(bool(x))
    return int(realize(x))


# ------------------------------------------------------------------ rounded reals
U = Fraction(1, 2 ** 53)


class SymReal(SymNum):
    """A finite float over the reals; each operation adds a bounded rounding error.

    The result of a correctly rounded operation r = fl(x op y) is modelled as x op y + e with
    |e| <= 2**-53 * |x op y| (plus 2**-1074): an over-approximation of IEEE 754 in the absence of
    overflow, linear as long as one operand is a constant.
    """
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    __eq__ = SymNum.__eq__
    __hash__ = SymNum.__hash__

    def __neg__(self):
        return SymReal(z3.simplify(-self.t))

    def __abs__(self):
        return -self if truth(self < 0) else self

    def __float__(self):
        return realize(self)

    def __int__(self):
        return int(realize(self))

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    real = property(lambda self: self)


def frac(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def real_term(x):
    if type(x) is SymReal:
        return x.t
    if is_z(x):
        return z3.ToReal(x.t)
    if type(x) is SymInt or type(x) is SymFloat:
        x = realize(x)
    return frac(x)


def z_to_real(x):
    """float(x): exact up to 2**53, a bounded rounding error beyond."""
    e = eng()
    hit = e.round_memo.get(x.t.get_id())
    if hit is not None:
        return hit[1]
    r = z3.ToReal(x.t)
    e.fresh_n += 1
    d = z3.Int("!iround%d" % e.fresh_n)
    e.keep.setdefault(str(d), d)
    big = z3.Or(x.t > 2 ** 53, x.t < -2 ** 53)
    lim = z3.If(x.t >= 0, x.t, -x.t)
    e.assume(z3.If(big, z3.And(d * 2 ** 53 <= lim, -d * 2 ** 53 <= lim), d == 0))
    out = SymReal(z3.simplify(r + z3.ToReal(d)))
    e.round_memo[x.t.get_id()] = (x.t, out)
    return out


def real_trunc(x):
    t = x.t
    return SymInt(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))), "z")


def real_arith(name, a, b):
    if is_z(a):
        a = z_to_real(a)
    if is_z(b):
        b = z_to_real(b)
    for v, o in ((a, b), (b, a)):
        if type(v) is float and not math.isfinite(v) and name in "+-*/":
            # the other operand is finite; only its sign can matter
            s = 1.0 if name in "+-" or truth(o > 0) else (0.0 if truth(o == 0) else -1.0)
            if name == "/" and v is b and s == 0.0:
                s = 1.0
            return _NATIVE[name](v if v is a else s, s if v is a else v)
    x, y = real_term(a), real_term(b)
    if name in "+-":
        if (type(a) is not SymReal and a == 0) and name == "+":
            return b
        if type(b) is not SymReal and b == 0:
            return a
        if type(a) is not SymReal and a == 0:
            return -b                    # 0 - b is exact
        r = x + y if name == "+" else x - y
    elif name == "*":
        if type(a) is SymReal and type(b) is SymReal:
            return _NATIVE[name](realize(a), realize(b))
        c = b if type(a) is SymReal else a
        if c == 1:
            return a if type(a) is SymReal else b
        r = x * y
    elif name == "/":
        if type(b) is SymReal:
            return _NATIVE[name](realize(a), realize(b))
        if b == 0:
            raise ZeroDivisionError("float division by zero")
        if b == 1:
            return a
        r = x / y
    elif name in ("%", "//") and type(b) is not SymReal and b == 1:
        fl = z3.ToReal(z3.ToInt(x))
        if name == "//":
            return SymReal(z3.simplify(fl))
        return rounded(z3.simplify(x - fl))
    else:
        return _NATIVE[name](realize(a), realize(b))
    return rounded(z3.simplify(r))


def rounded(r):
    e = eng()
    hit = e.round_memo.get(r.get_id())
    if hit is not None:                  # the same operation on the same operands
        return hit[1]
    e.fresh_n += 1
    d = z3.Real("!round%d" % e.fresh_n)
    e.keep.setdefault(str(d), d)
    u = z3.RealVal("%d/%d" % (U.numerator, U.denominator))
    tiny = frac(Fraction(1, 2 ** 1074))
    e.assume(z3.And(d <= u * z3.If(r >= 0, r, -r) + tiny, -d <= u * z3.If(r >= 0, r, -r) + tiny))
    out = SymReal(z3.simplify(r + d))
    e.round_memo[r.get_id()] = (r, out)
    return out


# --------------------------------------------------------------------- realize
def realize(x, where=None):
    """A concrete Python value for the symbolic scalar x, pinned on this path."""
    t = type(x)
    e = eng()
    where = where or site()
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        if x.k == "z":
            return e.pin(x.t, lambda v: v.as_long(), lambda tt, v: tt == v, where)
        if x.k == "bv":
            return e.pin(x.t, lambda v: v.as_signed_long(),
                         lambda tt, v: tt == z3.BitVecVal(v, IW), where)
        return int(e.pin(x.t, _e.fp_to_py, lambda tt, v: tt == fpval(v), where))
    if t is SymFloat:
        return e.pin(x.t, _e.fp_to_py, lambda tt, v: tt == fpval(v), where)
    if t is SymReal:
        return e.pin(x.t, lambda v: float(_e.real_to_fraction(v)),
                     lambda tt, v: tt == frac(v), where)
    if t is SymStr:
        out = []
        for c in x.cs:
            if not isinstance(c, int):
                c = e.pin(c, lambda v: v.as_long(), lambda tt, v: tt == z3.BitVecVal(v, CW), where)
            out.append(chr(c))
        return "".join(out)
    if t is OpaqueStr:
        return x.realize(where)
    return x


def is_sym(x):
    return isinstance(x, SymBase) if type(x) in _SYMTYPES else False


# --------------------------------------------------------------------- strings
MAXC = 0x100


def _ranges(fn):
    """Group 0..255 into maximal runs with the same fn value; [(lo, hi, val)]."""
    out = []
    for c in range(MAXC):
        v = fn(c)
        if out and out[-1][2] == v and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c, v])
    return out


def _delta(method):
    def f(c):
        r = getattr(chr(c), method)()
        return ord(r) - c if len(r) == 1 else None
    return f


_MAPS = {}


def char_map(c, method):
    """Per-character case mapping; c int or z3 term, result likewise."""
    if isinstance(c, int):
        r = getattr(chr(c), method)()
        if len(r) != 1:
            raise ValueError("length-changing case mapping")
        return ord(r)
    memo = eng().memo
    hit = memo.get((method, c.get_id()))
    if hit is not None:
        return hit[1]
    key = method
    if key not in _MAPS:
        _MAPS[key] = [r for r in _ranges(_delta(method)) if r[2] not in (0, None)]
    # applying a mapping again to a mapped term: the mapped values may leave Latin-1
    r = c
    for lo, hi, d in _MAPS[key]:
        r = z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + z3.BitVecVal(d % (1 << CW), CW), r)
    r = z3.simplify(r)
    memo[(method, c.get_id())] = (c, r)
    return r


_CLS = {}


def char_test(c, method):
    """Is the character in the class? bool or z3 Bool."""
    if isinstance(c, int):
        return getattr(chr(c), method)()
    if method not in _CLS:
        _CLS[method] = [r for r in _ranges(lambda k: getattr(chr(k), method)()) if r[2]]
    return z3.Or(*[z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi, _ in _CLS[method]])


def mkset(c, alphabet):
    """c is one of the characters of `alphabet` (z3 Bool)."""
    codes = sorted(set(ord(x) for x in alphabet))
    runs = []
    for k in codes:
        if runs and runs[-1][1] == k - 1:
            runs[-1][1] = k
        else:
            runs.append([k, k])
    return z3.Or(*[c == lo if lo == hi else z3.And(z3.UGE(c, lo), z3.ULE(c, hi))
                   for lo, hi in runs])


def char_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >= 1 << CW:
            return False
        b = z3.BitVecVal(b, CW)
    if a.eq(b):
        return True
    return a == b


def zand(xs):
    ts = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ts.append(x)
    if not ts:
        return True
    return z3.And(*ts)


def as_bool(x):
    """python bool or z3 Bool -> bool or SymBool"""
    return x if isinstance(x, bool) else mkbool(x)


def chars(s):
    if type(s) is SymStr:
        return s.cs
    return [ord(c) for c in (s.realize() if isinstance(s, OpaqueStr) else str.__str__(s))]


def mkstr(cs):
    if all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs)


def str_eq(a, b):
    x, y = chars(a), chars(b)
    if len(x) != len(y):
        return False
    e = eng()
    if e is None:
        return as_bool(zand([char_eq(p, q) for p, q in zip(x, y)]))
    key = ("eq", tuple(c if isinstance(c, int) else ("z", c.get_id()) for c in x),
           tuple(c if isinstance(c, int) else ("z", c.get_id()) for c in y))
    hit = e.memo.get(key)
    if hit is None:
        r = as_bool(zand([char_eq(p, q) for p, q in zip(x, y)]))
        hit = e.memo[key] = (list(x), list(y), r)
    return hit[2]


def isstr(x):
    return isinstance(x, str)


def pystr(x):
    """Concrete str / SymStr for x (OpaqueStr is realized)."""
    return x.realize() if type(x) is OpaqueStr else x


LINE_ENDS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


class SymStr(SymBase):
    """A string of concrete length whose characters may be symbolic."""
    __slots__ = ("cs", "_h")

    def __init__(self, cs):
        self.cs = list(cs)

    @property
    def __class__(self):
        return str

    # comparison
    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is OpaqueStr:
            return realize(self) == o.realize()
        return str_eq(self, o) if isstr(o) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _lt(self, o, orequal):
        x, y = self.cs, chars(pystr(o))
        if len(x) == len(y):
            r = z3.BoolVal(orequal)
        else:
            r = z3.BoolVal(len(x) < len(y))
        for a, b in reversed(list(zip(x, y))):
            az = z3.BitVecVal(a, CW) if isinstance(a, int) else a
            bz = z3.BitVecVal(b, CW) if isinstance(b, int) else b
            r = z3.If(z3.ULT(az, bz), z3.BoolVal(True), z3.If(az == bz, r, z3.BoolVal(False)))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o, False) if isstr(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isstr(o) else NotImplemented

    def __gt__(self, o):
        return not_(self._lt(o, True)) if isstr(o) else NotImplemented

    def __ge__(self, o):
        return not_(self._lt(o, False)) if isstr(o) else NotImplemented

    def __hash__(self):
        e = eng()
        if e is not None:
            e.hash_touched = True
        return hash(tuple(c if isinstance(c, int) else c.get_id() for c in self.cs)) | 1

    def __bool__(self):
        return len(self.cs) > 0

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cs])

    def __reversed__(self):
        return iter([mkstr([c]) for c in reversed(self.cs)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[i]])

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        if type(o) is OpaqueStr:
            return OpaqueStr([self, o])
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        if type(o) is OpaqueStr:
            return OpaqueStr([o, self])
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n)
    __rmul__ = __mul__

    def __mod__(self, o):
        from .intercept import sx_mod
        return sx_mod(realize(self), o)

    def __contains__(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        return truth(self._find_any(pystr(o)))

    def _find_any(self, o):
        n, m = len(self.cs), len(o)
        return or_(*[self._at(o, i) for i in range(n - m + 1)])

    def _at(self, o, i):
        """Does o occur at position i? (bool or SymBool)"""
        y = chars(o)
        x = self.cs[i:i + len(y)]
        if len(x) != len(y):
            return False
        return as_bool(zand([char_eq(p, q) for p, q in zip(x, y)]))

    def __format__(self, spec):
        return format(realize(self), spec)

    def translate(self, table):
        """Characters are compared with the keys of the table one by one."""
        keys = list(table) if isinstance(table, dict) else None
        if keys is None:
            return realize(self).translate(table)
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.extend(chars(chr(c).translate(table)))
                continue
            for k in keys:
                if truth(as_bool(char_eq(c, k))):
                    v = table[k]
                    out.extend([] if v is None else [v] if isinstance(v, int) else chars(v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    def _pad(self, n, fill, left, right):
        if not isinstance(fill, str):
            raise TypeError("The fill character must be a unicode character")
        if len(fill) != 1:
            raise TypeError("The fill character must be exactly one character long")
        k = max(0, n - len(self.cs))
        a = k if left and not right else 0
        if left and right:
            a = k // 2 + (k & n & 1)
        return mkstr(chars(fill) * a + self.cs + chars(fill) * (k - a))

    def ljust(self, n, fill=" "):
        return self._pad(n, fill, False, True)

    def rjust(self, n, fill=" "):
        return self._pad(n, fill, True, False)

    def center(self, n, fill=" "):
        return self._pad(n, fill, True, True)

    def title(self):
        out, prev = [], False
        for c in self.cs:
            out.extend(chars(lift(mkstr([c])).lower() if prev else lift(mkstr([c])).capitalize()))
            prev = truth(as_bool(char_test(c, "isalpha")))
        return mkstr(out)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        while i < len(self.cs):
            c = self.cs[i]
            i += 1
            if not truth(or_(*[as_bool(char_eq(c, ord(x))) for x in LINE_ENDS])):
                cur.append(c)
                continue
            end = [c]
            if i < len(self.cs) and truth(and_(as_bool(char_eq(c, 13)),
                                               as_bool(char_eq(self.cs[i], 10)))):
                end.append(self.cs[i])
                i += 1
            out.append(mkstr(cur + (end if keepends else [])))
            cur = []
        if cur:
            out.append(mkstr(cur))
        return out

    def __str__(self):
        return "<symstr:%d>" % len(self.cs)

    __repr__ = __str__

    def __getattr__(self, name):
        """A string method without a model: use a concrete value (recorded as a pin)."""
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)

        def method(*a, **k):
            return getattr(realize(self), name)(*[realize(x) for x in a],
                                                **{q: realize(v) for q, v in k.items()})
        return method

    # case
    def _map(self, method):
        cs = []
        for c in self.cs:
            if not isinstance(c, int) and truth(mkbool(z3.UGE(c, MAXC))):
                c = eng().pin(c, lambda v: v.as_long(),
                              lambda tt, v: tt == z3.BitVecVal(v, CW), site())
            if isinstance(c, int):
                cs.extend(ord(q) for q in getattr(chr(c), method)())
            else:
                if method in ("upper", "casefold") and truth(mkbool(c == 0xDF)):
                    cs.extend(ord(q) for q in getattr("\xdf", method)())
                else:
                    cs.append(char_map(c, method))
        return mkstr(cs)

    def lower(self):
        return self._map("lower")

    def upper(self):
        return self._map("upper")

    def casefold(self):
        return self._map("casefold")

    def swapcase(self):
        return self._map("swapcase")

    # predicates
    def _all(self, method, nonempty=True):
        if not self.cs:
            return not nonempty
        return as_bool(zand([char_test(c, method) for c in self.cs]))

    def isalpha(self):
        return self._all("isalpha")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        return self._all("isprintable", False)

    def isascii(self):
        return as_bool(zand([c < 128 if isinstance(c, int) else z3.ULT(c, 128)
                             for c in self.cs]))

    def _cased(self, want, other):
        has = or_(*[as_bool(char_test(c, want)) for c in self.cs])
        return and_(has, *[not_(as_bool(char_test(c, other))) for c in self.cs])

    def isupper(self):
        return self._cased("isupper", "islower")

    def islower(self):
        return self._cased("islower", "isupper")

    # trimming
    def _instrip(self, c, charset):
        if charset is None:
            return as_bool(char_test(c, "isspace"))
        return or_(*[as_bool(char_eq(c, d)) for d in chars(charset)])

    def lstrip(self, charset=None):
        i = 0
        while i < len(self.cs) and truth(self._instrip(self.cs[i], charset)):
            i += 1
        return mkstr(self.cs[i:]) if i else self

    def rstrip(self, charset=None):
        j = len(self.cs)
        while j > 0 and truth(self._instrip(self.cs[j - 1], charset)):
            j -= 1
        return mkstr(self.cs[:j]) if j < len(self.cs) else self

    def strip(self, charset=None):
        r = self.lstrip(charset)
        return lift(r).rstrip(charset)

    # searching
    def startswith(self, p, start=0, end=None):
        s = self if start == 0 and end is None else lift(self[start:end])
        if isinstance(p, tuple):
            return or_(*[s._at(pystr(q), 0) for q in p])
        if not isstr(p):
            raise TypeError("startswith first arg must be str or a tuple of str")
        return s._at(pystr(p), 0)

    def endswith(self, p, start=0, end=None):
        s = self if start == 0 and end is None else lift(self[start:end])
        if isinstance(p, tuple):
            return or_(*[s.endswith(q) for q in p])
        if not isstr(p):
            raise TypeError("endswith first arg must be str or a tuple of str")
        k = len(s.cs) - len(p)
        return False if k < 0 else s._at(pystr(p), k)

    def find(self, sub, start=0, end=None):
        lo, hi, _ = slice(start, end).indices(len(self.cs))
        for i in range(lo, hi - len(sub) + 1):
            if truth(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        lo, hi, _ = slice(start, end).indices(len(self.cs))
        for i in range(hi - len(sub), lo - 1, -1):
            if truth(self._at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=0, end=None):
        if start != 0 or end is not None:
            return lift(self[start:end]).count(sub)
        n, i = 0, 0
        if not len(sub):
            return len(self.cs) + 1
        while i <= len(self.cs) - len(sub):
            if truth(self._at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        old, new = pystr(old), pystr(new)
        m = len(old)
        if m == 0:
            return mkstr(chars(realize(self).replace("", realize(new), count)))
        out, i = [], 0
        while i < len(self.cs):
            if count != 0 and i + m <= len(self.cs) and truth(self._at(old, i)):
                out.extend(chars(new))
                i += m
                count -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def removeprefix(self, p):
        return self[len(p):] if truth(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self.cs) - len(p)] if len(p) and truth(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            i = 0
            while i < len(self.cs):
                if truth(as_bool(char_test(self.cs[i], "isspace"))):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                    i += 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit and not cur:
                    out.append(lift(mkstr(self.cs[i:])).rstrip())
                    return out
                cur.append(self.cs[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        cur, i, m = [], 0, len(sep)
        if m == 0:
            raise ValueError("empty separator")
        while i < len(self.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + m <= len(self.cs) \
                    and truth(self._at(sep, i)):
                out.append(mkstr(cur))
                cur = []
                i += m
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def join(self, it):
        it = list(it)
        if any(type(x) is OpaqueStr for x in it):
            out = []
            for i, x in enumerate(it):
                out += ([self] if i else []) + [x]
            return OpaqueStr(out)
        out = []
        for i, x in enumerate(it):
            if not isstr(x):
                raise TypeError("sequence item %d: expected str instance, %s found"
                                % (i, x.__class__.__name__))
            if i:
                out.extend(self.cs)
            out.extend(chars(x))
        return mkstr(out)

    def capitalize(self):
        if not self.cs:
            return self
        return lift(self[:1]).upper() + lift(self[1:]).lower()

    def zfill(self, n):
        return realize(self).zfill(n)


def lift(s):
    return s if type(s) is SymStr else SymStr(chars(s))


class Part:
    """A replacement field of a message: format(conversion(v), spec), evaluated when needed."""
    __slots__ = ("v", "conv", "spec")

    def __init__(self, v, conv="", spec=""):
        self.v, self.conv, self.spec = v, conv, spec


class OpaqueStr(SymBase):
    """Text built from symbolic parts (messages); realized only if somebody looks inside."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return str

    def realize(self, where=None):
        from .intercept import render
        return "".join(p if type(p) is str else render(p, where) for p in self.parts)

    def _same(self, o):
        """The same parts: equal whatever they denote."""
        if len(self.parts) != len(o.parts):
            return False
        for p, q in zip(self.parts, o.parts):
            if type(p) is Part and type(q) is Part:
                if (p.conv, p.spec) != (q.conv, q.spec):
                    return False
                p, q = p.v, q.v
            if p is q or type(p) is str and type(q) is str and p == q:
                continue
            if type(p) is SymStr and type(q) is SymStr and len(p.cs) == len(q.cs) and \
                    all(a == b if isinstance(a, int) and isinstance(b, int) else
                        not isinstance(a, int) and not isinstance(b, int) and a.eq(b)
                        for a, b in zip(p.cs, q.cs)):
                continue
            return False
        return True

    def __eq__(self, o):
        if o is self:
            return True
        if not isstr(o):
            return NotImplemented
        if type(o) is OpaqueStr and type(self) is OpaqueStr and self._same(o):
            return True
        return self.realize() == realize(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self.realize() < realize(o) if isstr(o) else NotImplemented

    def __le__(self, o):
        return self.realize() <= realize(o) if isstr(o) else NotImplemented

    def __gt__(self, o):
        return self.realize() > realize(o) if isstr(o) else NotImplemented

    def __ge__(self, o):
        return self.realize() >= realize(o) if isstr(o) else NotImplemented

    def __hash__(self):
        return hash(self.realize())

    def __mul__(self, n):
        return self.realize() * n
    __rmul__ = __mul__

    def __mod__(self, o):
        from .intercept import sx_mod
        return sx_mod(self.realize(), o)

    def __add__(self, o):
        return OpaqueStr(self.parts + [o]) if isstr(o) else NotImplemented

    def __radd__(self, o):
        return OpaqueStr([o] + self.parts) if isstr(o) else NotImplemented

    def __bool__(self):
        return any(type(p) is str and p for p in self.parts) or len(self) > 0

    def __len__(self):
        return len(self.realize())

    def __iter__(self):
        return iter(self.realize())

    def __getitem__(self, i):
        return self.realize()[i]

    def __contains__(self, o):
        return realize(o) in self.realize()

    def __str__(self):
        return "<opaque text>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<opaque text>"

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.realize(), name)


_SYMTYPES = (SymBool, SymInt, SymFloat, SymReal, SymStr, OpaqueStr)
