"""What the rewritten code calls instead of calling directly, and the models of builtins."""
import builtins
import collections.abc as cabc
import enum
import functools
import itertools
import json
import logging
import math
import operator
import re
import string
import types
import uuid
import warnings

import z3

from . import engine as _e
from . import jsonmodel, regex
from .containers import (SymDict, SymSet, SymFrozenSet, SymKeys, mkfrozen, hash_value, symkey,
                         key_eq, place, unplace, _SetOps, MISSING)
from .collections import COLLECTIONS
from .values import (SymBase, SymBool, SymInt, SymFloat, SymReal, SymStr, OpaqueStr, Part, _SYMTYPES,
                     and_, or_, not_, truth, realize, sym_int, sym_float, lift, mkstr, mkbool,
                     chars, eng, isstr, pystr, is_num, float_term, site, str_eq)

INSTRUMENTED = ("gemd", "props", "sx", "__main__")


def issym(x):
    return type(x) in _SYMTYPES or isinstance(x, jsonmodel.JDoc) and type(x) is jsonmodel.JDoc


def has_sym(x, depth=2):
    if issym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset, SymSet, SymFrozenSet):
        return any(has_sym(y, depth - 1) for y in list(x))
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in list(dict.items(x)))
    return False


def deep_realize(x, depth=3):
    if issym(x):
        return realize(x) if type(x) is not jsonmodel.JDoc else x.realize()
    if depth and has_sym(x, depth):
        if type(x) in (list, tuple, set, frozenset):
            return type(x)(deep_realize(y, depth - 1) for y in x)
        if type(x) is SymSet:
            return set(deep_realize(y, depth - 1) for y in x)
        if type(x) is SymFrozenSet:
            return frozenset(deep_realize(y, depth - 1) for y in x)
        if type(x) in (dict, SymDict):
            return {deep_realize(k, depth - 1): deep_realize(v, depth - 1)
                    for k, v in dict.items(x)}
    return x


PLAIN = {SymDict: dict, SymSet: set, SymFrozenSet: frozenset,
         **{m: c for c, m in COLLECTIONS.items()}}


def render(p, where=None):
    """The text of one part of a message, with the symbolic values in it made concrete."""
    if type(p) is not Part:
        return as_text(p, "", where)
    if not p.spec:
        return ascii(concrete(p.v, where)) if p.conv == "a" else as_text(p.v, p.conv, where)
    v = as_text(p.v, p.conv, where) if p.conv else concrete(p.v, where)
    if isinstance(p.spec, tuple):        # a %-directive
        return (p.spec[0][:-1] + "s" if p.conv else p.spec[0]) % (v,)
    return format(v, realize(p.spec))


def concrete(v, where=None):
    return v.realize() if type(v) is jsonmodel.JDoc else realize(v, where) if issym(v) else v


def as_text(v, conv, where=None, depth=0):
    """str(v), or repr(v) for conv "r"."""
    if issym(v):
        v = concrete(v, where)
        return repr(v) if conv == "r" else str(v)
    t = type(v)
    if depth > 6 or not textual(v):
        return repr(v) if conv == "r" else str(v)

    def sub(x):
        return as_text(x, "r", where, depth + 1)

    if t in (list, ) or isinstance(v, list):
        return "[" + ", ".join(sub(x) for x in list(v)) + "]"
    if t is tuple:
        return "(" + ", ".join(sub(x) for x in v) + (",)" if len(v) == 1 else ")")
    if isinstance(v, dict):
        return "{" + ", ".join(sub(k) + ": " + sub(x) for k, x in dict.items(v)) + "}"
    if isinstance(v, (set, frozenset)):
        body = "{" + ", ".join(sub(x) for x in v) + "}"
        return body if isinstance(v, set) else "frozenset(" + body + ")"
    f = t.__repr__ if conv == "r" or t.__str__ is object.__str__ else t.__str__
    r = f(v)
    return concrete(r, where)


# ------------------------------------------------------------------------ builtins
def m_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t in _SYMTYPES or t is jsonmodel.JDoc:
            return x.__class__
        return PLAIN.get(t, t)
    return type(*a, **k)


def m_int(*a, **k):
    if len(a) == 1 and not k and issym(a[0]):
        return sym_int(a[0])
    return int(*[realize(x) for x in a], **k)


def m_float(*a):
    if len(a) == 1 and issym(a[0]):
        return sym_float(a[0])
    return float(*a)


def m_bool(*a):
    return truth(*a) if a else False


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in (SymStr, OpaqueStr, jsonmodel.JDoc):
            return x
        if issym(x) or textual(x):
            return OpaqueStr([Part(x)])
    return str(*a, **k)


def m_repr(x):
    if issym(x) or textual(x):
        return OpaqueStr([Part(x, "r")])
    return repr(x)


def m_ascii(x):
    if issym(x) or textual(x):
        return OpaqueStr([Part(x, "a")])
    return ascii(x)


def textual(x):
    """Objects whose text would be built from symbolic content: left unevaluated in messages."""
    if eng() is None:
        return False
    if isinstance(x, (list, tuple, set, frozenset, dict)):
        return has_sym(x, 3) or any(textual(y) for y in
                                    (list(dict.values(x)) if isinstance(x, dict) else list(x)))
    t = type(x)
    return t.__module__.startswith("gemd.entity") and not isinstance(x, (type, enum.Enum))


def m_format(x, spec=""):
    return fstr((x, -1, spec))


def m_round(x, n=None):
    return round(x) if n is None else round(x, realize(n))


def m_pow(a, b, *m):
    return pow(a, b, *m)


def m_fmod(a, b):
    """math.fmod(a, 1): the fractional part, with the sign of a."""
    if type(a) is SymFloat and not issym(b) and b == 1:
        if truth(m_isinf(a)):
            raise ValueError("math domain error")
        return m_modf(a)[0]
    return math.fmod(realize(a), realize(b))


def m_modf(x):
    if type(x) is SymFloat:
        if truth(m_isinf(x)):
            return math.modf(realize(x))
        whole = mkfloat(z3.fpRoundToIntegral(z3.RTZ(), x.t))
        return x - whole, whole
    return math.modf(realize(x))


def m_subclass_base(f):
    """Calls of the functions in itertools go through the models of the functions passed."""
    def g(fn, *a, **k):
        return f(fn if fn is None else (lambda *x: call(fn, *x)), *a, **k)
    return g


def m_accumulate(it, func=None, **k):
    return itertools.accumulate(it, None if func is None else lambda *x: call(func, *x), **k)


def m_groupby(it, key=None):
    return itertools.groupby(it, None if key is None else lambda x: call(key, x))


def m_isinstance(x, cls):
    return isinstance(x, cls)


def m_set(*a):
    return SymSet(*a)


def m_frozenset(*a):
    return mkfrozen(*a)


def m_dict(*a, **k):
    return SymDict(*a, **k)


def m_sum(it, start=0):
    """sum(); floats are added with compensation, as CPython 3.12 does."""
    r = start
    items = list(it)
    if any(issym(x) for x in items) and all(is_num(x) for x in items) and is_num(start) \
            and any(isinstance(x, float) for x in items) and \
            not any(type(x) is SymReal for x in items):
        i, acc = 0, start
        while i < len(items) and isinstance(acc, int) and isinstance(items[i], int):
            acc = acc + items[i]
            i += 1
        if i < len(items) and isinstance(acc, int) and not issym(acc):
            acc = float(acc)
        c = 0.0
        for x in items[i:]:
            x = m_float(x)
            t = acc + x
            if truth(abs(acc) >= abs(x)):
                c = c + ((acc - t) + x)
            else:
                c = c + ((x - t) + acc)
            acc = t
        if truth(c) and truth(m_isfinite(c)):
            acc = acc + c
        return acc
    for x in items:
        r = r + x
    return r


def m_hash(x):
    return hash_value(x)


def m_len(x):
    return len(x)


def m_getattr(o, name, *d):
    return getattr(o, realize(name), *d)


def m_hasattr(o, name):
    return hasattr(o, realize(name))


def m_setattr(o, name, v):
    return setattr(o, realize(name), v)


def m_delattr(o, name):
    return delattr(o, realize(name))


def m_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda a: truth(call(f, a)), it)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=(lambda x: call(key, x)) if key is not None else None, reverse=reverse)


def m_range(*a):
    return range(*[x.__index__() if issym(x) else x for x in a])


def m_print(*a, **k):
    return None


def m_min(*a, key=None, **k):
    return min(*a, key=(lambda x: call(key, x)) if key is not None else None, **k)


def m_max(*a, key=None, **k):
    return max(*a, key=(lambda x: call(key, x)) if key is not None else None, **k)


def m_callable(x):
    return callable(x)


def m_ord(x):
    if type(x) is SymStr and len(x.cs) == 1:
        return SymInt(z3.simplify(z3.ZeroExt(80 - 16, x.cs[0])))
    return ord(realize(x))


def m_chr(x):
    return chr(realize(x))


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_isfinite(x):
    if type(x) is SymFloat:
        return mkbool(z3.Not(z3.Or(z3.fpIsNaN(x.t), z3.fpIsInf(x.t))))
    if issym(x) and is_num(x):
        return True
    if isstr(x):
        raise TypeError("must be real number, not str")
    return math.isfinite(realize(x))


def m_isnan(x):
    if type(x) is SymFloat:
        return mkbool(z3.fpIsNaN(x.t))
    if issym(x) and is_num(x):
        return False
    if isstr(x):
        raise TypeError("must be real number, not str")
    return math.isnan(realize(x))


def m_isinf(x):
    if type(x) is SymFloat:
        return mkbool(z3.fpIsInf(x.t))
    if issym(x) and is_num(x):
        return False
    if isstr(x):
        raise TypeError("must be real number, not str")
    return math.isinf(realize(x))


def m_trunc(x):
    return sym_int(x) if issym(x) else math.trunc(x)


def _round_to(mode):
    def f(x):
        if type(x) is SymInt:
            return x
        if type(x) is SymFloat:
            if truth(m_isnan(x)):
                raise ValueError("cannot convert float NaN to integer")
            if truth(m_isinf(x)):
                raise OverflowError("cannot convert float infinity to integer")
            return SymInt(z3.simplify(z3.fpRoundToIntegral(mode(), x.t)), "fp")
        if type(x) is SymReal:
            return SymInt(z3.simplify(z3.ToInt(x.t) if mode is z3.RTN else -z3.ToInt(-x.t)), "z")
        return (math.floor if mode is z3.RTN else math.ceil)(realize(x))
    return f


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if truth(a == b):
        return True
    if truth(m_isinf(a)) or truth(m_isinf(b)):
        return False
    diff = abs(b - a)
    return or_(diff <= abs(rel_tol * b), diff <= abs(rel_tol * a), diff <= abs_tol)


def m_uuid4():
    e = eng()
    if e is None:
        return uuid.uuid4()
    e.uuid_n += 1
    return uuid.UUID(int=(0xFEDC << 112) | (4 << 76) | (8 << 60) | e.uuid_n)


def m_id(x):
    return id(x)


def m_warn(*a, **k):
    e = eng()
    if e is None:
        return warnings.warn(*a, **k)
    e.logs.append(("warnings", logging.WARNING))
    if isinstance(getattr(warnings._showwarnmsg_impl, "__self__", None), list):
        # warnings are being recorded
        cat = type(a[0]) if isinstance(a[0], Warning) else k.get("category", (a + (None,))[1])
        warnings.warn("(a message)", cat or UserWarning)


def m_cast(t, v):
    return v


def m_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


HANDLERS = {
    type: m_type, int: m_int, float: m_float, bool: m_bool, str: m_str, repr: m_repr,
    format: m_format, set: m_set, frozenset: m_frozenset, dict: m_dict, sum: m_sum, hash: m_hash,
    ascii: m_ascii, round: m_round, pow: m_pow, math.fmod: m_fmod, math.modf: m_modf,
    itertools.filterfalse: lambda f, it: itertools.filterfalse(
        f if f is None else (lambda x: truth(call(f, x))), it),
    itertools.takewhile: m_subclass_base(itertools.takewhile),
    itertools.dropwhile: m_subclass_base(itertools.dropwhile),
    itertools.starmap: m_subclass_base(itertools.starmap),
    itertools.accumulate: m_accumulate, itertools.groupby: m_groupby,
    operator.mod: lambda a, b: sx_mod(a, b), operator.not_: lambda x: not_(x),
    operator.truth: m_bool, operator.is_: lambda a, b: sx_is(a, b),
    getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr, delattr: m_delattr, map: m_map,
    filter: m_filter, sorted: m_sorted, range: m_range, min: m_min, max: m_max,
    ord: m_ord, chr: m_chr, any: m_any, all: m_all,
    math.isfinite: m_isfinite, math.isnan: m_isnan, math.isinf: m_isinf, math.trunc: m_trunc,
    math.floor: _round_to(z3.RTN), math.ceil: _round_to(z3.RTP), math.isclose: m_isclose,
    math.fabs: lambda x: abs(m_float(x)),
    uuid.uuid4: m_uuid4, warnings.warn: m_warn, functools.reduce: m_reduce,
    json.dumps: lambda o, **k: jsonmodel.dumps_call(o, **k) if eng() else json.dumps(o, **k),
    json.loads: lambda s, **k: jsonmodel.loads_call(s, **k) if eng() else json.loads(s, **k),
    dict.fromkeys: lambda it, v=None: SymDict.fromkeys(it, v),
    operator.eq: lambda a, b: a == b, operator.ne: lambda a, b: a != b,
    operator.lt: lambda a, b: a < b, operator.le: lambda a, b: a <= b,
    operator.gt: lambda a, b: a > b, operator.ge: lambda a, b: a >= b,
    operator.contains: lambda a, b: truth(sx_in(b, a)),
}
# C-implemented callables that work on symbolic values through the data model alone
HANDLERS.update(COLLECTIONS)
TRANSPARENT = {isinstance, issubclass, len, list, tuple, iter, next, enumerate, zip, reversed, abs,
               callable, vars, id, super, property, staticmethod, classmethod, slice, print, object,
               divmod, memoryview, functools.partial, functools.lru_cache, type(None)}
_LISTM = {"append", "extend", "insert", "remove", "pop", "clear", "index", "count", "sort",
          "reverse", "copy", "__init__", "__setitem__", "__getitem__", "__delitem__", "__len__",
          "__contains__", "__iter__", "__iadd__", "__add__", "__eq__", "__ne__", "__mul__",
          "__imul__", "__reversed__"}
_GENM = {"send", "throw", "close", "__next__", "__iter__"}


def concrete_str_method(f, s, a, k):
    """A str method called on a concrete string with symbolic arguments."""
    name = f.__name__
    if name == "join":
        items = list(a[0])
        if any(type(x) is OpaqueStr for x in items):
            out = []
            for i, x in enumerate(items):
                out += ([s] if i else []) + [x]
            return OpaqueStr(out)
        if all(isstr(x) for x in items):
            return SymStr.join(lift(s), items)
        return s.join(items)
    if name == "format":
        return format_(s, a, k)
    if name == "format_map":
        return format_(s, (), a[0])
    if name in ("startswith", "endswith", "replace", "find", "rfind", "index", "count", "strip",
                "lstrip", "rstrip", "split", "partition", "rpartition", "removeprefix",
                "removesuffix", "rindex", "center", "ljust", "rjust", "__add__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__",
                "__ge__", "__contains__"):
        return getattr(SymStr, name)(lift(s), *a, **k)
    return None


_FORMATTER = string.Formatter()


def format_(s, a, k):
    """str.format: replacement fields without a format specification are built exactly."""
    parts = []
    auto = 0
    for lit, field, spec, conv in _FORMATTER.parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        try:
            v = _FORMATTER.get_field(field, a, k)[0]
        except IndexError:
            raise IndexError("Replacement index out of range for positional args tuple")
        if spec and "{" in spec:
            spec = realize(format_(spec, a, k))
        parts.append((v, -1 if not conv else ord(conv), spec))
    return fstr(*parts)


def fmt_parts(out):
    if all(type(p) is str for p in out):
        return "".join(out)
    if all(type(p) in (str, SymStr) for p in out):
        return SymStr.join(lift(""), out)
    return OpaqueStr(out)


def fstr(*parts):
    """f-string: parts are str constants or (value, conversion, spec) triples."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if issym(v) or textual(v):
            if type(spec) is not str:
                spec = realize(spec)
            if type(v) in (SymStr, OpaqueStr, jsonmodel.JDoc) and conv in (-1, 115) and \
                    spec in ("", "s"):
                out.append(v)
            else:
                out.append(Part(v, "" if conv == -1 else chr(conv), spec))
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec if type(spec) is str else realize(spec)))
    return fmt_parts(out)


def sym_enum(cls, v):
    """Enum lookup by symbolic value."""
    for m in cls:
        if truth(m._value_ == v):
            return m
    try:
        r = cls._missing_(v)
    except Exception as exc:
        if isinstance(exc, ValueError):
            raise
        raise
    if r is None:
        raise ValueError("not a valid %s" % cls.__qualname__)
    if isinstance(r, cls):
        return r
    raise TypeError("error in %s._missing_" % cls.__name__)


def bind_symbolic_kwargs(f, a, k):
    """Call f with keyword names that are symbolic strings: names may hit f's parameters."""
    import inspect
    target = f
    try:
        if isinstance(f, type):
            ps = [p for p in inspect.signature(f.__init__).parameters.values()][1:]
        else:
            ps = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        ps = []
    names = [p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
    hidden = ["self"] if isinstance(f, type) and isinstance(f.__init__, types.FunctionType) else []
    out = {}
    for key, v in k:
        if not issym(key):
            if key in out:
                raise TypeError("multiple values for keyword argument")
            out[key] = v
            continue
        hit = None
        for n in names + hidden:
            if truth(key == n):
                hit = n
                break
        if hit is None:
            hit = place([key])[0]
        if hit in out:
            raise TypeError("multiple values for keyword argument")
        out[hit] = v
    return call(f, *a, **out)


def third_party(f):
    m = getattr(f, "__module__", None)
    if not isinstance(m, str):
        return True
    return m.split(".")[0] not in INSTRUMENTED


PASS_MODULES = ("contextlib", "copy", "pint", "abc", "typing", "inspect", "functools", "enum",
                "collections", "_collections", "dataclasses", "flexparser", "itertools", "operator",
                "_operator", "types", "string", "weakref", "_weakref", "numbers", "bisect",
                "_bisect", "heapq", "_heapq")


def call(f, /, *a, **k):
    """Every call in the rewritten code goes through here."""
    h = HANDLERS.get(f) if type(f).__hash__ is not None else None
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if third_party(f):
            return foreign(f, a, k)
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        if isinstance(s, logging.Logger) and eng() is not None:
            return log_call(s, f.__name__, a, k)
        if isinstance(s, json.JSONEncoder) and f.__func__ is json.JSONEncoder.encode \
                and eng() is not None:
            return jsonmodel.encode_with(s)(*a)
        if isinstance(s, json.JSONDecoder) and f.__func__ is json.JSONDecoder.decode \
                and eng() is not None:
            return jsonmodel.loads_call(a[0], object_hook=s.object_hook,
                                        object_pairs_hook=s.object_pairs_hook)
        if issym(s) or isinstance(s, (SymDict, _SetOps)):
            return f(*a, **k)
        if type(f.__func__) is functools._lru_cache_wrapper:
            return call(f.__func__, s, *a, **k)
        if third_party(f.__func__ if hasattr(f, "__func__") else f) and \
                third_party(type(s)):
            return foreign(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, enum.Enum) and len(a) == 1 and issym(a[0]) and not k:
            return sym_enum(f, a[0])
        if f.__module__.split(".")[0] in INSTRUMENTED or issubclass(f, BaseException) \
                or f in TRANSPARENT:
            return f(*a, **k)
        return foreign(f, a, k)
    if t is functools._lru_cache_wrapper:
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return f.__wrapped__(*a, **k)
        return f(*a, **k)
    if t in (types.BuiltinFunctionType, types.MethodWrapperType):
        s = getattr(f, "__self__", None)
        if s is None or isinstance(s, types.ModuleType):
            if f in TRANSPARENT:
                return f(*a, **k)
            r = re_call(f, a, k)
            return foreign(f, a, k) if r is MISSING else r
        if isinstance(s, str) and not isinstance(s, SymBase):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()) or \
                    (f.__name__ == "format" and any(textual(x) for x in a + tuple(k.values()))) \
                    or f.__name__ == "join":
                if f.__name__ == "join" and len(a) == 1 and not isinstance(a[0], (list, tuple)):
                    a = (list(a[0]),)
                if f.__name__ == "join" and not has_sym(list(a[0]), 1):
                    return f(*a)
                r = concrete_str_method(f, s, a, k)
                if r is not None:
                    return r
                return foreign(f, a, k)
            return f(*a, **k)
        if isinstance(s, list) and f.__name__ in _LISTM:
            if f.__name__ in ("insert", "pop", "__getitem__", "__setitem__", "__delitem__"):
                a = tuple(x.__index__() if type(x) is SymInt else x for x in a[:1]) + a[1:]
            if f.__name__ == "sort" and k.get("key") is not None:
                key = k["key"]
                k = dict(k, key=lambda x: call(key, x))
            return f(*a, **k)
        if isinstance(s, tuple) and f.__name__ in _LISTM:
            return f(*a, **k)
        if isinstance(s, types.GeneratorType):
            return f(*a, **k)
        if isinstance(s, re.Pattern):
            r = re_method(s, f.__name__, a, k)
            return foreign(f, a, k) if r is MISSING else r
        if isinstance(s, dict):
            return native_dict(f, s, a, k)
        if isinstance(s, (set, frozenset)):
            return native_set(f, s, a, k)
        if isinstance(s, type) and s.__module__ in PASS_MODULES:    # chain.from_iterable
            return f(*a, **k)
        if isinstance(s, type):      # e.g. cls.__new__, object.__new__, type.__call__
            if f.__name__ == "__new__":
                if a and isinstance(a[0], type) and issubclass(a[0], str):
                    a = (a[0],) + tuple(realize(x) for x in a[1:])
                return f(*a, **k)
            return foreign(f, a, k)
        return f(*a, **k) if f.__name__.startswith("__") else foreign(f, a, k)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType,
             types.ClassMethodDescriptorType):
        if a and type(a[0]) in _SYMTYPES:
            owner = f.__objclass__
            if issubclass(a[0].__class__, owner) and hasattr(type(a[0]), f.__name__):
                return getattr(a[0], f.__name__)(*a[1:], **k)
            return foreign(f, a, k)
        if a and isinstance(a[0], str) and f.__objclass__ is str and \
                any(has_sym(x) for x in a[1:]):
            r = concrete_str_method(f, a[0], a[1:], k)
            return r if r is not None else foreign(f, a, k)
        if a and isinstance(a[0], (SymDict, SymSet)) and f.__objclass__ in (dict, set):
            m = getattr(SymDict if isinstance(a[0], SymDict) else SymSet, f.__name__, None)
            if m is not None:
                return m(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def native_dict(f, s, a, k):
    if isinstance(s, SymDict):
        return f(*a, **k)
    if a and has_sym(a[0], 1) and f.__name__ in ("get", "__getitem__", "__contains__", "pop",
                                                 "setdefault"):
        for key in list(s):
            if truth(key_eq(key, a[0])):
                return f(key, *a[1:])
        if f.__name__ in ("get", "pop") and len(a) > 1:
            return a[1]
        if f.__name__ == "get":
            return None
        if f.__name__ == "__contains__":
            return False
        if f.__name__ in ("__getitem__", "pop"):
            raise KeyError(a[0])
        return foreign(f, a, k)
    if f.__name__ == "copy" and type(s) is dict:
        return SymDict(s)
    if f.__name__ == "update" and any(isinstance(x, dict) and
                                      any(symkey(q) for q in x) for x in a):
        return foreign(f, a, k)
    return f(*a, **k)


def native_set(f, s, a, k):
    if isinstance(s, _SetOps) or f.__name__ in ("clear", "pop", "copy"):
        return f(*a, **k)
    a = tuple(list(x) if isinstance(x, types.GeneratorType) else x for x in a)
    if not any(has_sym(x) for x in a) and not any(isinstance(x, _SetOps) for x in a):
        return f(*a, **k)
    w = SymSet(s)
    m = getattr(w, f.__name__)
    if f.__name__ in ("add", "update", "discard", "remove") or f.__name__.endswith("_update") \
            or f.__name__.startswith("__i"):
        return foreign(f, a, k)
    r = m(*a, **k)
    return mkfrozen(r) if isinstance(s, frozenset) and isinstance(r, SymSet) else r


_RE = {re.match: "match", re.fullmatch: "fullmatch", re.search: "search", re.findall: "findall",
       re.split: "split", re.finditer: "finditer", re.sub: "sub"}


def re_call(f, a, k):
    return MISSING


def re_function(name, f, a, k):
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        try:
            pats = a[0]
            if not issym(pats):
                return regex.TABLE[name](*a, **k)
        except regex.Unsupported:
            pass
        return foreign(f, a, k)
    return f(*a, **k)


for _f, _n in _RE.items():
    HANDLERS[_f] = functools.partial(lambda n, f, *a, **k: re_function(n, f, a, k), _n, _f)


def re_method(p, name, a, k):
    if any(has_sym(x) for x in a) and name in regex.TABLE and len(a) <= (2 if name == "sub" else 1):
        try:
            return regex.TABLE[name](p, *a, **k)
        except regex.Unsupported:
            pass
    return MISSING


def log_call(logger, name, a, k):
    e = eng()
    lv = {"warning": 30, "warn": 30, "error": 40, "critical": 50, "exception": 40, "info": 20,
          "debug": 10}.get(name)
    if name == "log":
        lv = a[0]
    if lv is not None:
        e.logs.append((logger.name, lv))
        return None
    return getattr(logger, name)(*a, **k)


def foreign(f, a, k):
    """Code outside gemd: symbolic scalars are pinned unless the module works by the data model."""
    m = getattr(f, "__module__", None) or ""
    if not isinstance(m, str):
        m = ""
    if m.split(".")[0] in PASS_MODULES:
        return f(*a, **k)
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        a = tuple(deep_realize(x) for x in a)
        k = {q: deep_realize(v) for q, v in k.items()}
    return f(*a, **k)


# ------------------------------------------------------------- operators and displays
def sx_in(x, c):
    """x in c: bool or SymBool."""
    tc = type(c)
    if tc is SymDict or (isinstance(c, SymDict) and tc.__contains__ is SymDict.__contains__):
        return SymDict._contains(c, x)
    if tc in (SymSet, SymFrozenSet):
        return c._contains(x)
    if isinstance(c, dict) and not isinstance(c, SymDict) and tc.__contains__ is dict.__contains__ \
            and symkey(x):
        return or_(*[key_eq(q, x) for q in list(c)])
    if tc in (set, frozenset) and symkey(x):
        return or_(*[key_eq(q, x) for q in list(c)])
    if tc is type({}.keys()) and has_sym(x, 1):
        return or_(*[key_eq(q, x) for q in list(c)])
    if isinstance(c, str) and (issym(c) or issym(x)):
        if not isstr(x):
            raise TypeError("'in <string>' requires string as left operand, not %s"
                            % m_type(x).__name__)
        return lift(pystr(c))._find_any(pystr(x))
    if isinstance(c, enum.EnumMeta) and issym(x):
        return or_(*[m._value_ == x for m in c])
    return x in c


def sx_not(x):
    return not_(x)


def sx_is(a, b):
    if type(a) is SymBool:
        return truth(a) is b
    return a is b


def sx_dict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            SymDict.update(d, p[0])
        else:
            SymDict.__setitem__(d, p[0], p[1])
    return d


def sx_set(it):
    return SymSet(it)


def sx_base(b):
    return {dict: SymDict, set: SymSet, **COLLECTIONS}.get(b, b) if isinstance(b, type) else b


def sx_kwargs(k):
    return unplace(k)


_DIRECTIVE = re.compile(r"%(?:\(([^()]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+)?)?[hlL]?(.)", re.S)


def sx_mod(a, b):
    """a % b; for text, %s of a text is built exactly and other symbolic fields are opaque."""
    if not isinstance(a, str) or type(a) in _SYMTYPES:
        return a % b
    bs = b if isinstance(b, tuple) else (b,)
    if not any(issym(x) or textual(x) for x in bs):
        return a % b
    out, pos, n = [], 0, 0
    mapping = isinstance(b, dict)
    for m in _DIRECTIVE.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(3) == "*" or m.group(4) == "*":
            return a % deep_realize(b)
        if m.group(1) is not None:
            if not mapping:
                raise TypeError("format requires a mapping")
            v = b[m.group(1)]
        else:
            if n >= len(bs):
                raise TypeError("not enough arguments for format string")
            v = bs[n]
            n += 1
        spec = "%" + a[m.start() + 1 + (len(m.group(1)) + 2 if m.group(1) is not None else 0):
                       m.end()]
        if not (issym(v) or textual(v)):
            out.append(spec % (v,))
        elif spec in ("%s", "%r", "%a"):
            out.append(v if spec == "%s" and type(v) in (SymStr, OpaqueStr, jsonmodel.JDoc)
                       else Part(v, "" if spec == "%s" else spec[1]))
        else:
            if m.group(5) not in "sra" and not is_num(v):
                raise TypeError("a number is required")
            out.append(Part(v, m.group(5) if m.group(5) in "sra" else "", (spec,)))
    if n < len(bs) and not mapping:
        raise TypeError("not all arguments converted during string formatting")
    out.append(a[pos:])
    return fmt_parts([x for x in out if not (type(x) is str and not x)])


def sx_callkw(f, args, pairs):
    """A call with **mapping: pairs is a list of (name, value) or (mapping,)."""
    flat = []
    sym = False
    for p in pairs:
        if len(p) == 2:
            flat.append(p)
        else:
            mp = p[0]
            if isinstance(mp, dict) and type(mp).__iter__ is dict.__iter__ and \
                    type(mp).__getitem__ in (dict.__getitem__, SymDict.__getitem__):
                it = list(dict.items(mp))
            elif not hasattr(mp, "keys"):
                raise TypeError("argument after ** must be a mapping")
            else:
                it = [(q, mp[q]) for q in mp.keys()]
            for q, v in it:
                if not isinstance(q, str):
                    raise TypeError("keywords must be strings")
                sym = sym or issym(q)
                flat.append((q, v))
    if sym and f not in HANDLERS:
        return bind_symbolic_kwargs(f, args, flat)
    if sym and f is dict:
        return SymDict(*args, **{(place([q])[0] if issym(q) else q): v for q, v in flat})
    kw = {}
    for q, v in flat:
        q = realize(q)
        if q in kw:
            raise TypeError("got multiple values for keyword argument '%s'" % q)
        kw[q] = v
    return call(f, *args, **kw)


def sx_fn(name):
    e = eng()
    if e is not None:
        e.functions.add(name)


def install():
    for n, f in (("call", call), ("callkw", sx_callkw), ("in", sx_in), ("not", sx_not),
                 ("is", sx_is), ("dict", sx_dict), ("set", sx_set), ("base", sx_base),
                 ("kwargs", sx_kwargs), ("fstr", fstr), ("mod", sx_mod), ("fn", sx_fn)):
        setattr(builtins, "__sx_" + n + "__", f)
