"""The dictionaries of the collections module, with symbolic keys."""
import collections
import itertools

from .containers import SymDict, MISSING
from .values import truth


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *args, **kwargs):
        if default_factory is not None and not callable(default_factory):
            raise TypeError("first argument must be callable or None")
        SymDict.__init__(self, *args, **kwargs)
        self.default_factory = default_factory

    def __missing__(self, key):
        from .intercept import call
        if self.default_factory is None:
            raise KeyError(key)
        SymDict._store(self, key, call(self.default_factory))
        return SymDict.__getitem__(self, key)

    def copy(self):
        return type(self)(self.default_factory, self)

    __copy__ = copy

    @property
    def __class__(self):
        return _plain(self)


class SymOrderedDict(SymDict):
    def popitem(self, last=True):
        if not len(self):
            raise KeyError("dictionary is empty")
        k = list(dict.__iter__(self))[-1 if last else 0]
        return k, dict.pop(self, k)

    def move_to_end(self, key, last=True):
        k = SymDict._find(self, key)
        if k is MISSING:
            raise KeyError(key)
        v = dict.pop(self, k)
        rest = list(dict.items(self)) if not last else []
        if not last:
            dict.clear(self)
        dict.__setitem__(self, k, v)
        for q, w in rest:
            dict.__setitem__(self, q, w)

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def _ordered(self, other):
        r = SymDict._eq(self, other)
        if isinstance(other, collections.OrderedDict) and truth(r):
            return all(truth(a == b) for a, b in zip(list(self), list(other)))
        return r

    def __eq__(self, other):
        return self._ordered(other) if isinstance(other, dict) else NotImplemented

    def __ne__(self, other):
        return not truth(self._ordered(other)) if isinstance(other, dict) else NotImplemented

    __hash__ = None

    @property
    def __class__(self):
        return _plain(self)


class SymCounter(SymDict):
    def __init__(self, iterable=None, /, **kwds):
        SymDict.__init__(self)
        self.update(iterable, **kwds)

    def __missing__(self, key):
        return 0

    def _pairs(self, iterable):
        if iterable is None:
            return []
        if hasattr(iterable, "items"):
            return list(iterable.items())
        return [(x, 1) for x in iterable]

    def update(self, iterable=None, /, **kwds):
        for k, n in self._pairs(iterable) + list(kwds.items()):
            self[k] = n + self.get(k, 0)

    def subtract(self, iterable=None, /, **kwds):
        for k, n in self._pairs(iterable) + list(kwds.items()):
            self[k] = self.get(k, 0) - n

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda p: p[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        return itertools.chain.from_iterable(itertools.repeat(k, n) for k, n in self.items())

    def total(self):
        return sum(self.values())

    def __delitem__(self, key):
        if key in self:
            SymDict.__delitem__(self, key)

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def _combine(self, other, f):
        r = type(self)()
        for k in itertools.chain(self, (q for q in other if q not in self)):
            n = f(self[k], other[k])
            if n > 0:
                r[k] = n
        return r

    def __add__(self, other):
        return self._combine(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self._combine(other, lambda a, b: a - b)

    def __or__(self, other):
        return self._combine(other, max)

    def __and__(self, other):
        return self._combine(other, min)

    def _counts(self, other):
        return all(truth(self[k] == other[k]) for c in (self, other) for k in c)

    def __eq__(self, other):
        if not isinstance(other, collections.Counter):
            return SymDict.__eq__(self, other)
        return self._counts(other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not truth(r)

    __hash__ = None

    @property
    def __class__(self):
        return _plain(self)


COLLECTIONS = {collections.defaultdict: SymDefaultDict, collections.OrderedDict: SymOrderedDict,
               collections.Counter: SymCounter}


def _plain(x):
    """The class that the caller sees: that of the model's original."""
    t = type(x)
    return next((c for c, m in COLLECTIONS.items() if m is t), t)
