"""A model of json.dumps / json.loads on structures with symbolic leaves.

``dumps`` yields a document: the tree of JSON values that the text would denote (keys converted
to strings, tuples to arrays, objects through the encoder's ``default``).  ``loads`` rebuilds
Python values from it bottom up, in document order, calling the hooks as json.loads does.
Scalars survive the text form exactly (repr round-trip of floats, integers of any size, strings).
"""
import json

from .values import SymBase, OpaqueStr, SymStr, realize, _SYMTYPES, eng
from .containers import SymDict


class JObj:
    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = pairs


class JArr:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class JDoc(OpaqueStr):
    """The text of a document; looking inside pins every symbolic leaf."""
    __slots__ = ("tree", "kw")

    def __init__(self, tree, kw):
        self.tree, self.kw = tree, kw
        self.parts = []

    def realize(self, where=None):
        return json.dumps(_plain(self.tree), **self.kw)

    def __deepcopy__(self, memo):
        return self


def _plain(t):
    if isinstance(t, JObj):
        return {realize(k): _plain(v) for k, v in t.pairs}
    if isinstance(t, JArr):
        return [_plain(x) for x in t.items]
    return realize(t)


def _key(k, skipkeys):
    if type(k) in _SYMTYPES:
        k = realize(k) if not isinstance(k, str) else k
    if isinstance(k, str):
        return k if type(k) in _SYMTYPES else str.__str__(k)
    if isinstance(k, float):
        return float.__repr__(k) if k == k and abs(k) != float("inf") else \
            ("NaN" if k != k else ("Infinity" if k > 0 else "-Infinity"))
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return int.__repr__(k)
    if skipkeys:
        return None
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def encode(o, default, sort_keys=False, skipkeys=False, allow_nan=True, path=()):
    if type(o) in _SYMTYPES:
        if type(o) is OpaqueStr or isinstance(o, JDoc):
            return o.realize()
        return o
    if isinstance(o, str):
        return str.__str__(o)
    if o is None or o is True or o is False:
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        if not allow_nan and (o != o or abs(o) == float("inf")):
            raise ValueError("Out of range float values are not JSON compliant")
        return float(o)
    if id(o) in path:
        raise ValueError("Circular reference detected")
    path = path + (id(o),)
    if isinstance(o, (list, tuple)):
        return JArr([encode(x, default, sort_keys, skipkeys, allow_nan, path) for x in list(o)])
    if isinstance(o, dict):
        items = list(o.items())
        if sort_keys:
            items = sorted(items)
        pairs = []
        for k, v in items:
            k = _key(k, skipkeys)
            if k is None:
                continue
            pairs.append((k, encode(v, default, sort_keys, skipkeys, allow_nan, path)))
        return JObj(pairs)
    return encode(default(o), default, sort_keys, skipkeys, allow_nan, path)


def decode(t, object_hook=None, object_pairs_hook=None):
    if isinstance(t, JObj):
        pairs = [(k, decode(v, object_hook, object_pairs_hook)) for k, v in t.pairs]
        if object_pairs_hook is not None:
            return object_pairs_hook(pairs)
        d = SymDict()
        for k, v in pairs:
            d[k] = v
        return object_hook(d) if object_hook is not None else d
    if isinstance(t, JArr):
        return [decode(x, object_hook, object_pairs_hook) for x in t.items]
    return t


def parse(text):
    """Concrete JSON text -> tree (duplicate keys kept, so that they collapse as json does)."""
    def conv(x):
        if isinstance(x, JObj):
            return x
        if isinstance(x, list):
            return JArr([conv(y) for y in x])
        return x
    return conv(json.loads(text, object_pairs_hook=lambda ps: JObj([(k, conv(v)) for k, v in ps])))


_ENC = ("ensure_ascii", "check_circular", "indent", "separators")


def dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
          cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    cls = cls or json.JSONEncoder
    if cls.encode is not json.JSONEncoder.encode or cls.iterencode is not json.JSONEncoder.iterencode:
        raise NotImplementedError("custom encoder")
    enc = cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular,
              allow_nan=allow_nan, indent=indent, separators=separators, default=default,
              sort_keys=sort_keys, **kw)
    return encode_with(enc, dict(ensure_ascii=ensure_ascii, indent=indent, separators=separators))


def encode_with(enc, kw=None):
    def run(obj):
        return JDoc(encode(obj, enc.default, enc.sort_keys, enc.skipkeys, enc.allow_nan), kw or {})
    return run


def dumps_call(obj, **kw):
    run = dumps(obj, **kw)
    return run(obj)


def loads_call(s, *, cls=None, object_hook=None, parse_float=None, parse_int=None,
               parse_constant=None, object_pairs_hook=None, **kw):
    if isinstance(s, JDoc) and not (cls or parse_float or parse_int or parse_constant or kw):
        tree = s.tree
    else:
        if isinstance(s, (bytes, bytearray)):
            s = s.decode("utf-8")
        s = realize(s)
        if cls or parse_float or parse_int or parse_constant or kw or not isinstance(s, str):
            return json.loads(s, cls=cls, object_hook=object_hook, parse_float=parse_float,
                              parse_int=parse_int, parse_constant=parse_constant,
                              object_pairs_hook=object_pairs_hook, **kw)
        tree = parse(s)
    return decode(tree, object_hook, object_pairs_hook)
