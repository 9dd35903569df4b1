"""dict and set with symbolic keys: lookups are decided by (symbolic) hash and equality."""
import collections.abc as cabc

import z3

from . import engine as _e
from .values import (SymBase, SymBool, SymStr, OpaqueStr, _SYMTYPES, and_, or_, not_, truth, eng,
                     mkbool, realize)

MISSING = object()
_ATOMS = (str, int, float, bool, type(None), bytes, type, complex)


def symkey(k):
    """Does hashing k involve a symbolic value?  (TypeError if k is unhashable)"""
    t = type(k)
    if t in _SYMTYPES:
        return t is not SymBool
    if t in _ATOMS:
        return False
    if t is tuple or t is frozenset or t is SymFrozenSet:
        s = False
        for x in k:
            s = symkey(x) or s
        return s
    e = eng()
    if e is None:
        hash(k)
        return False
    old, e.hash_touched = e.hash_touched, False
    try:
        h = hash(k)
        return e.hash_touched or h in e.hash_sig and e.hash_sig[h][0]
    finally:
        e.hash_touched = old


def hash_value(x):
    """hash(x) as called by instrumented code: records the structure behind the number."""
    e = eng()
    if e is None:
        return hash(x)
    s = symkey(x)
    if not s:
        h = hash(x)
        if type(x) in (tuple, str) and h not in e.hash_sig:
            e.hash_sig[h] = (False, x)
        return h
    if type(x) not in (tuple, SymStr) and not isinstance(x, SymBase):
        return hash(x)          # its own __hash__ (instrumented) has recorded the structure
    key = struct_key(x)
    h = e.hash_memo.get(key)
    if h is None:
        h = 0x5A5A000000 + len(e.hash_memo) * 7
        e.hash_memo[key] = h
        e.hash_sig[h] = (True, x)
    e.hash_touched = True
    return h


def struct_key(x):
    if type(x) is SymStr:
        return ("s",) + tuple(c if isinstance(c, int) else ("z", c.get_id()) for c in x.cs)
    if type(x) is tuple:
        return ("t",) + tuple(struct_key(y) for y in x)
    if type(x) is OpaqueStr:
        return ("q", id(x))
    if isinstance(x, SymBase):
        return ("n", x.t.get_id()) if hasattr(x, "t") else ("q", id(x))
    return ("o", hash(x))


def hash_sig(x):
    """The value whose hash x's hash is, for comparison."""
    t = type(x)
    if t in _ATOMS or t in _SYMTYPES or t is tuple:
        return x
    if t in (frozenset, SymFrozenSet):
        return x
    h = hash(x)
    s = eng().hash_sig.get(h)
    return s[1] if s else ("#", h)


def sig_eq(a, b):
    """Equality of hashes, assuming different structures do not collide."""
    a, b = hash_sig(a), hash_sig(b)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return and_(*[sig_eq(x, y) for x, y in zip(a, b)])
    if type(a) is tuple or type(b) is tuple:
        return False
    if type(a) in (frozenset, SymFrozenSet) or type(b) in (frozenset, SymFrozenSet):
        return True
    return a == b


def key_eq(a, b):
    """Would a dict treat a and b as the same key? (bool or SymBool)"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if (ta in _ATOMS or ta in _SYMTYPES) and (tb in _ATOMS or tb in _SYMTYPES):
        r = a == b
        return False if r is NotImplemented else r
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return and_(*[key_eq(x, y) for x, y in zip(a, b)])
    h = sig_eq(a, b)
    if h is False or not truth(h):
        return False
    return a == b


def eq_or_same(a, b):
    return True if a is b else (a == b)


class SymDict(dict):
    """Behaves as dict; the native storage holds the entries in order."""
    __slots__ = ("_symn",)

    def _symbolic(self):
        try:
            return self._symn
        except AttributeError:
            return False

    def _find(self, key):
        ks = symkey(key)
        if not ks:
            if dict.__contains__(self, key):
                return key
            if not self._symbolic():
                return MISSING
        for k in list(dict.__iter__(self)):
            if k is key:
                return k
            if not ks and not symkey(k):
                continue
            if truth(key_eq(k, key)):
                return k
        return MISSING

    def _contains(self, key):
        """Lazy membership."""
        ks = symkey(key)
        if not ks:
            if dict.__contains__(self, key):
                return True
            if not self._symbolic():
                return False
        rs = []
        for k in list(dict.__iter__(self)):
            if k is key:
                return True
            if not ks and not symkey(k):
                continue
            r = key_eq(k, key)
            if r is True:
                return True
            rs.append(r)
        return or_(*rs)

    def _store(self, key, value):
        k = self._find(key)
        if k is MISSING:
            if symkey(key):
                self._symn = True
            dict.__setitem__(self, key, value)
        else:
            dict.__setitem__(self, k, value)

    def _merge(self, other):
        if isinstance(other, dict) and type(other).__iter__ is dict.__iter__:
            for k in list(dict.__iter__(other)):
                SymDict._store(self, k, dict.__getitem__(other, k))
        elif hasattr(other, "keys"):
            for k in other.keys():
                SymDict._store(self, k, other[k])
        else:
            for i, pair in enumerate(other):
                pair = list(pair)
                if len(pair) != 2:
                    raise ValueError("dictionary update sequence element #%d has length %d; "
                                     "2 is required" % (i, len(pair)))
                SymDict._store(self, pair[0], pair[1])

    def __init__(self, *args, **kwargs):
        if len(args) > 1:
            raise TypeError("dict expected at most 1 argument, got %d" % len(args))
        dict.__init__(self)
        if args:
            SymDict._merge(self, args[0])
        if kwargs:
            SymDict._merge(self, unplace(kwargs))

    def __getitem__(self, key):
        k = SymDict._find(self, key)
        if k is MISSING:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, k)

    def __setitem__(self, key, value):
        SymDict._store(self, key, value)

    def __delitem__(self, key):
        k = SymDict._find(self, key)
        if k is MISSING:
            raise KeyError(key)
        dict.__delitem__(self, k)

    def __contains__(self, key):
        return truth(SymDict._contains(self, key))

    def get(self, key, default=None):
        k = SymDict._find(self, key)
        return default if k is MISSING else dict.__getitem__(self, k)

    def setdefault(self, key, default=None):
        k = SymDict._find(self, key)
        if k is MISSING:
            SymDict._store(self, key, default)
            return default
        return dict.__getitem__(self, k)

    def pop(self, key, *default):
        if len(default) > 1:
            raise TypeError("pop expected at most 2 arguments")
        k = SymDict._find(self, key)
        if k is MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        return dict.pop(self, k)

    def update(self, *args, **kwargs):
        if len(args) > 1:
            raise TypeError("update expected at most 1 argument, got %d" % len(args))
        if args:
            SymDict._merge(self, args[0])
        if kwargs:
            SymDict._merge(self, unplace(kwargs))

    def copy(self):
        r = SymDict()
        r._merge(self)
        return r

    def __or__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        r = SymDict()
        r._merge(self)
        r._merge(other)
        return r

    def __ror__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        r = SymDict()
        r._merge(other)
        r._merge(self)
        return r

    def __ior__(self, other):
        SymDict._merge(self, other)
        return self

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r

    def _eq(self, other):
        if len(self) != len(other):
            return False
        if not isinstance(other, SymDict):
            o = SymDict()
            o._merge(other)
            other = o
        out = []
        for k in list(dict.__iter__(self)):
            j = SymDict._find(other, k)
            if j is MISSING:
                return False
            r = eq_or_same(dict.__getitem__(self, k), dict.__getitem__(other, j))
            if r is not True and type(r) is not SymBool:
                r = truth(r)
            if r is False:
                return False
            out.append(r)
        return and_(*out)

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return SymDict._eq(self, other)

    def __ne__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return not_(SymDict._eq(self, other))

    __hash__ = None

    def keys(self):
        return SymKeys(self) if self._symbolic() else dict.keys(self)

    def items(self):
        return SymItems(self) if self._symbolic() else dict.items(self)

    def __deepcopy__(self, memo):
        import copy
        r = type(self).__new__(type(self))
        memo[id(self)] = r
        dict.__init__(r)
        for k in list(dict.__iter__(self)):
            SymDict._store(r, copy.deepcopy(k, memo), copy.deepcopy(dict.__getitem__(self, k), memo))
        if hasattr(self, "__dict__"):
            r.__dict__.update(copy.deepcopy(self.__dict__, memo))
        return r

    def __copy__(self):
        r = type(self).__new__(type(self))
        dict.__init__(r)
        SymDict._merge(r, self)
        if hasattr(self, "__dict__"):
            r.__dict__.update(self.__dict__)
        return r

    def __repr__(self):
        return dict.__repr__(self)


class SymKeys(cabc.KeysView):
    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __contains__(self, k):
        return SymDict.__contains__(self._mapping, k)

    def __iter__(self):
        return dict.__iter__(self._mapping)

    def __reversed__(self):
        return iter(list(dict.__iter__(self._mapping))[::-1])

    def __eq__(self, other):
        a, b = SymSet(self), SymSet(other)
        return a == b

    def __ne__(self, other):
        return not_(self == other)

    __hash__ = None


class SymItems(cabc.ItemsView):
    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __iter__(self):
        return iter([(k, dict.__getitem__(self._mapping, k))
                     for k in dict.__iter__(self._mapping)])


# ------------------------------------------------------------- keyword placeholders
_PLACE = "__sxkw%d"


def unplace(kwargs):
    """kwargs as received by a function -> SymDict with the symbolic names restored."""
    e = eng()
    r = SymDict()
    for k, v in kwargs.items():
        if isinstance(k, str) and type(k) is str and k.startswith("__sxkw") and e is not None:
            k = e.kwnames[int(k[6:])]
        r._store(k, v)
    return r


def place(names):
    e = eng()
    if not hasattr(e, "kwnames"):
        e.kwnames = []
    out = []
    for n in names:
        e.kwnames.append(n)
        out.append(_PLACE % (len(e.kwnames) - 1))
    return out


# ------------------------------------------------------------------------------ sets
class _SetOps:
    """Operations shared by SymSet and SymFrozenSet; self._o is a list of the elements."""

    def _contains(self, key):
        if not isinstance(key, (set,)) or isinstance(key, frozenset):
            ks = symkey(key)
        else:
            raise TypeError("unhashable type: 'set'")
        rs = []
        for k in self._o:
            if k is key:
                return True
            if not ks and not symkey(k):
                r = hash(k) == hash(key) and truth(k == key)
            else:
                r = key_eq(k, key)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return or_(*rs)

    def __contains__(self, key):
        return truth(self._contains(key))

    def __iter__(self):
        return iter(list(self._o))

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return len(self._o) > 0

    def _new(self, it=()):
        return SymSet(it) if isinstance(self, set) else mkfrozen(it)

    def copy(self):
        return self._new(self._o)

    def union(self, *others):
        r = list(self._o)
        s = SymSet(r)
        for o in others:
            s.update(o)
        return s if isinstance(self, set) else mkfrozen(s._o)

    def intersection(self, *others):
        cur = list(self._o)
        for o in others:
            o = SymSet(o)
            cur = [x for x in cur if truth(o._contains(x))]
        return self._new(cur)

    def difference(self, *others):
        cur = list(self._o)
        for o in others:
            o = SymSet(o)
            cur = [x for x in cur if not truth(o._contains(x))]
        return self._new(cur)

    def symmetric_difference(self, o):
        o = SymSet(o)
        a = [x for x in self._o if not truth(o._contains(x))]
        b = [x for x in o._o if not truth(_SetOps._contains(self, x))]
        return self._new(a + b)

    def issubset(self, o):
        o = o if isinstance(o, _SetOps) else SymSet(o)
        return and_(*[o._contains(x) for x in self._o])

    def issuperset(self, o):
        o = o if isinstance(o, _SetOps) else SymSet(o)
        return and_(*[self._contains(x) for x in o._o])

    def isdisjoint(self, o):
        o = o if isinstance(o, _SetOps) else SymSet(o)
        return and_(*[not_(self._contains(x)) for x in o._o])

    @staticmethod
    def _isset(o):
        return isinstance(o, (set, frozenset, cabc.Set))

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self) if self._isset(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if self._isset(o) else NotImplemented

    def __rxor__(self, o):
        return SymSet(o).symmetric_difference(self) if self._isset(o) else NotImplemented

    def _seteq(self, o):
        o = o if isinstance(o, _SetOps) else SymSet(o)
        if len(self._o) != len(o._o):
            return False     # the elements of either are pairwise different
        return self.issubset(o)

    def __eq__(self, o):
        return self._seteq(o) if self._isset(o) else NotImplemented

    def __ne__(self, o):
        return not_(self._seteq(o)) if self._isset(o) else NotImplemented

    def __le__(self, o):
        return self.issubset(o) if self._isset(o) else NotImplemented

    def __lt__(self, o):
        return and_(len(self) < len(o), self.issubset(o)) if self._isset(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._isset(o) else NotImplemented

    def __gt__(self, o):
        return and_(len(self) > len(o), self.issuperset(o)) if self._isset(o) else NotImplemented


class SymSet(_SetOps, set):
    """Behaves as set, insertion ordered; the native table mirrors the elements."""

    def __init__(self, it=()):
        set.__init__(self)
        self._o = []
        self._sy = False
        self.update(it)

    __hash__ = None

    def _contains(self, key):
        if not self._sy and not symkey(key):
            return set.__contains__(self, key)
        return _SetOps._contains(self, key)

    def add(self, x):
        if not truth(self._contains(x)):
            if not self._sy and symkey(x):
                self._sy = True
            self._o.append(x)
            set.add(self, x)

    def update(self, *others):
        for o in others:
            for x in list(o):
                self.add(x)

    def _drop(self, x):
        for i, k in enumerate(self._o):
            if k is x or truth(key_eq(k, x)):
                del self._o[i]
                set.clear(self)
                for y in self._o:
                    set.add(self, y)
                return k
        return MISSING

    def discard(self, x):
        symkey(x)
        self._drop(x)

    def remove(self, x):
        symkey(x)
        if self._drop(x) is MISSING:
            raise KeyError(x)

    def pop(self):
        if not self._o:
            raise KeyError("pop from an empty set")
        x = self._o[0]
        self._drop(x)
        return x

    def clear(self):
        self._o = []
        set.clear(self)

    def _assign(self, r):
        self._o = list(r._o)
        self._sy = any([symkey(y) for y in self._o])
        set.clear(self)
        for y in self._o:
            set.add(self, y)

    def __ior__(self, o):
        if not self._isset(o):
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        if not self._isset(o):
            return NotImplemented
        self._assign(self.intersection(o))
        return self

    def __isub__(self, o):
        if not self._isset(o):
            return NotImplemented
        self._assign(self.difference(o))
        return self

    def __ixor__(self, o):
        if not self._isset(o):
            return NotImplemented
        self._assign(self.symmetric_difference(o))
        return self

    def difference_update(self, *o):
        self._assign(self.difference(*o))

    def intersection_update(self, *o):
        self._assign(self.intersection(*o))

    def symmetric_difference_update(self, o):
        self._assign(self.symmetric_difference(o))

    def __repr__(self):
        return repr(set(self._o)) if not any(symkey(x) for x in self._o) else "<symset>"

    def __deepcopy__(self, memo):
        import copy
        r = type(self)()
        for x in self._o:
            r.add(copy.deepcopy(x, memo))
        return r

    def __copy__(self):
        return type(self)(self._o)

    def __reduce__(self):
        return (set, (list(self._o),))


class SymFrozenSet(_SetOps, frozenset):
    def __new__(cls, elems):
        r = frozenset.__new__(cls, elems)
        r._o = list(elems)
        return r

    def __init__(self, elems):
        pass

    def __hash__(self):
        e = eng()
        if e is not None:
            e.hash_touched = True
        return frozenset.__hash__(self)


def mkfrozen(it=()):
    s = SymSet(it)
    if any(symkey(x) for x in s._o):
        return SymFrozenSet(s._o)
    return frozenset(s._o)
