"""Restores gemd's module, class and default-argument state before every path."""
import functools
import sys
import types

_CONT = (list, dict, set)


def _copy(v):
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(dict.items(v))
    return list(v)


def _restore(v, c):
    if isinstance(v, list):
        if len(v) != len(c) or any(a is not b for a, b in zip(v, c)):
            list.__setitem__(v, slice(None), c)
    elif isinstance(v, dict):
        if len(v) != len(c) or any(dict.get(v, k, v) is not x for k, x in c.items()):
            dict.clear(v)
            dict.update(v, c)
    elif len(v) != len(c) or any(x not in c for x in list(v)):
        v.clear()
        v.update(c)


class Snapshot:
    def __init__(self, prefix="gemd"):
        self.ns = []        # (set, get, name, value)
        self.conts = []
        self.caches = []    # functools caches outside gemd.units (those are pure)
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is not None and (name == prefix or name.startswith(prefix + ".")):
                self.namespace(mod, mod.__dict__, prefix)

    def cont(self, v):
        if isinstance(v, _CONT) and id(v) not in self.seen and type(v).__module__ != "pint":
            self.seen.add(id(v))
            self.conts.append((v, _copy(v)))

    def func(self, f):
        if id(f) in self.seen:
            return
        self.seen.add(id(f))
        for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
            self.cont(d)
        for k, v in f.__dict__.items():
            self.cont(v)
        w = getattr(f, "__wrapped__", None)
        if isinstance(w, types.FunctionType):
            self.func(w)

    def namespace(self, owner, d, prefix):
        names = {}
        for k, v in list(d.items()):
            if k.startswith("__") and k.endswith("__") and not isinstance(v, types.FunctionType):
                continue
            names[k] = v
            self.cont(v)
            f = v
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                for g in (f.fget, f.fset, f.fdel):
                    if isinstance(g, types.FunctionType):
                        self.func(g)
            if isinstance(f, types.FunctionType):
                self.func(f)
            if isinstance(f, functools._lru_cache_wrapper) and \
                    f.__module__.startswith(prefix) and not f.__module__.startswith("gemd.units"):
                self.caches.append(f)
            if isinstance(v, type) and v.__module__.startswith(prefix) and id(v) not in self.seen:
                self.seen.add(id(v))
                self.namespace(v, v.__dict__, prefix)
        self.ns.append((owner, names))

    def restore(self):
        for f in self.caches:
            f.cache_clear()
        for owner, names in self.ns:
            d = owner.__dict__
            for k, v in names.items():
                if d.get(k, self) is not v:
                    setattr(owner, k, v)
        for v, c in self.conts:
            _restore(v, c)
