"""C09: Uids and other case-insensitive dictionaries ignore case consistently."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.object import ProcessSpec
from gemd.entity.template import PropertyTemplate
from gemd.entity.bounds import IntegerBounds

BOUNDS = {
    "quick": ["construction from 0-2 entries (mapping, pair list, keywords, both), then 2 "
              "operations from all 14, then a probe with an unrelated key; keys are symbolic "
              "strings of 0-2 characters over U+0000-U+00FF without U+00B5, U+00DF, U+00FF for one "
              "operation, 1 of 4 characters (two letters, both casings) for two; values distinct, one of them None",
              "uids: mappings of 1-2 symbolic scopes of up to 5 characters over [a-z_] or up to 2 "
              "over Latin-1, assigned, constructed and added"],
    "thorough": ["3 operations"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["keys outside Latin-1 are not considered"]
COVERS = {"all": ["replaced", "clash", "missing", "found by another casing", "clash in one update",
                  "uids clash", "uids", "own uids"]}
VALUES = [None, 11, 12, 13, 14, 15, 16, 17, 18]
OPS = ["getitem", "get", "in", "set", "del", "pop", "popdef", "setdefault", "update", "updatekw",
       "updatepairs", "ior", "popitem", "clear", "copy"]


class Model:
    """Insertion-ordered map keyed by the lower-cased key."""

    def __init__(self, t):
        self.t, self.kv = t, []

    def find(self, key):
        for i, (k, _) in enumerate(self.kv):
            if self.t.is_true(k.lower() == key.lower()):
                if not self.t.is_true(k == key):
                    self.t.cover("found by another casing")
                return i
        return None

    def put(self, key, v):
        """True if stored, False for a clash."""
        i = self.find(key)
        if i is None:
            self.kv.append((key, v))
            return True
        if not self.t.is_true(self.kv[i][0] == key):
            self.t.cover("clash")
            return False
        self.t.cover("replaced")
        self.kv[i] = (self.kv[i][0], v)
        return True

    def putall(self, pairs):
        old = list(self.kv)
        for n, (k, v) in enumerate(pairs):
            if not self.put(k, v):
                if n:
                    self.t.cover("clash in one update")
                self.kv = old
                return False
        return True


def same(t, d, m, what, full=True):
    items = list(d.items())
    t.check(len(d) == len(m.kv) and len(items) == len(m.kv), what + ": number of entries")
    for (k, v), (mk, mv) in zip(items, m.kv):
        t.check(k == mk, what + ": keys and their order")
        t.check(v == mv and (v is None) == (mv is None), what + ": values")
    if not full:
        return
    for k, v in m.kv:
        for form in (k.lower(), k.upper()):
            # only casings that lower() identifies
            if t.is_true(form.lower() == k.lower()):
                t.check(form in d, what + ": membership under another casing")
                t.check(d[form] == v, what + ": lookup under another casing")
                t.check(d.get(form, 99) == v, what + ": get under another casing")


def build(t, how, keys):
    pairs = [(k, VALUES[i]) for i, k in enumerate(keys)]
    m = Model(t)
    ok = True
    if how in ("map", "kw"):
        plain = {}
        for k, v in pairs:
            plain[k] = v
        pairs = list(plain.items())
    ok = m.putall(pairs)
    if how == "map":
        out = t.attempt(CaseInsensitiveDict, plain)
    elif how == "pairs":
        out = t.attempt(CaseInsensitiveDict, list(pairs))
    elif how == "kw":
        t.assume(t.all(*[k != w for k in keys for w in ("self", "seq")]))
        out = t.attempt(lambda: CaseInsensitiveDict(**plain))
    elif how == "none":
        out = t.attempt(CaseInsensitiveDict)
    if not ok:
        t.must_raise(out, ValueError, "construction with clashing keys")
        return None, None
    d = t.must(out, "construction")
    same(t, d, m, "after construction", False)
    return d, m


def step(t, d, m, n, ops, vals, width, abc, lo=0, most=2):
    op = t.choice("op%d" % n, ops)
    if op == "popitem":
        out = t.attempt(d.popitem)
        if not m.kv:
            t.must_raise(out, KeyError, "popitem of nothing")
        else:
            got = t.must(out, "popitem")
            k, v = m.kv.pop()
            t.check(t.all(got[0] == k, got[1] == v), "popitem returns the last entry")
    elif op == "clear":
        d.clear()
        m.kv = []
    elif op == "copy":
        c = d.copy()
        t.check(isinstance(c, CaseInsensitiveDict), "copy's type")
        t.check(c == d, "copy equals the original")
        same(t, c, m, "copy", False)
        c2 = d.copy()
        k = t.str("k%d" % n, lo, width, abc)
        m2 = Model(t)
        m2.kv = list(m.kv)
        ok = m2.put(k, vals[0])
        out = t.attempt(c2.__setitem__, k, vals[0])
        t.check(out.ok == ok, "store in a copy")
        same(t, c2, m2, "changed copy", False)
        same(t, d, m, "original of the changed copy", False)
        return c
    elif op in ("update", "updatekw", "updatepairs", "ior"):
        cnt = t.pick("n%d" % n, most) + 1
        keys = [t.str("k%d.%d" % (n, i), lo if cnt == 1 else 1, width if cnt == 1 else 1, abc)
                for i in range(cnt)]
        pairs = list(zip(keys, vals))
        if op != "updatepairs":
            plain = {}
            for k, v in pairs:
                plain[k] = v
            pairs = list(plain.items())
        ok = m.putall(pairs)
        if op == "update":
            out = t.attempt(d.update, plain)
        elif op == "updatekw":
            t.assume(t.all(*[k != w for k in keys for w in ("self", "mapping")]))
            out = t.attempt(lambda: d.update(**plain))
        elif op == "updatepairs":
            out = t.attempt(d.update, list(pairs))
        else:
            out = t.attempt(d.__ior__, plain)
        if ok:
            t.must(out, "update")
            if op == "ior":
                t.check(out.value is d, "|= yields the dictionary itself")
        else:
            t.must_raise(out, ValueError, "update with a clashing key")
    else:
        k = t.str("k%d" % n, lo, width, abc)
        if op == "set":
            out = t.attempt(d.__setitem__, k, vals[0])
            if m.put(k, vals[0]):
                t.must(out, "store")
            else:
                t.must_raise(out, ValueError, "store under another casing")
        elif op == "setdefault":
            i = m.find(k)
            got = t.must(t.attempt(d.setdefault, k, vals[0]), "setdefault")
            if i is None:
                m.kv.append((k, vals[0]))
                t.check(got == vals[0], "setdefault returns the default")
            else:
                t.check(got == m.kv[i][1], "setdefault returns the stored value")
        else:
            i = m.find(k)
            if i is None:
                t.cover("missing")
            if op == "get":
                t.check(d.get(k) == (None if i is None else m.kv[i][1]), "get")
                for dflt in [77] + [v for _, v in m.kv[:1]]:
                    t.check(d.get(k, dflt) == (dflt if i is None else m.kv[i][1]),
                            "get with default")
            elif op == "in":
                t.check((k in d) == (i is not None), "membership")
            else:
                if op == "getitem":
                    out = t.attempt(d.__getitem__, k)
                elif op == "del":
                    out = t.attempt(d.__delitem__, k)
                elif op == "pop":
                    out = t.attempt(d.pop, k)
                elif op == "popdef":
                    # the default may well be a value that is stored
                    dflt = m.kv[0][1] if m.kv and t.flag("stored default %d" % n) else 77
                    out = t.attempt(d.pop, k, dflt)
                if i is None and op == "popdef":
                    t.check(t.must(out, "pop with default") == dflt, "pop's default")
                elif i is None:
                    t.must_raise(out, KeyError, "missing key")
                else:
                    got = t.must(out, op)
                    if op != "del":
                        t.check(got == m.kv[i][1], op + ": value")
                    if op != "getitem":
                        del m.kv[i]
    return d


def h_history(t, how, n, op0, steps, rest=OPS, width=1, abc=None):
    lo = 0 if steps == 1 else 1
    keys = [t.str("i%d" % i, lo if n == 1 else 1, width, abc) for i in range(n)]
    d, m = build(t, how, keys)
    if d is None:
        return
    for s in range(steps):
        d = step(t, d, m, s, [op0] if s == 0 else rest, VALUES[3 + 2 * s:], width, abc,
                 lo, 2 if s == 0 and (n < 2 or steps == 1) else 1)
        same(t, d, m, "after %s operations" % (s + 1), s == steps - 1)
    p = t.str("probe", 1, 1, abc)
    i = m.find(p)
    t.check((p in d) == (i is not None), "probe")
    t.check(d.get(p, 99) == (99 if i is None else m.kv[i][1]), "probe")


def h_uids(t, how, n, alphabet, hi):
    """An entity takes any mapping of strings without a clash."""
    keys = [t.str("s%d" % i, 0, hi, alphabet) for i in range(n)]
    ids = [t.str("u%d" % i, 1, 1) for i in range(n)]
    plain = {}
    for k, v in zip(keys, ids):
        plain[k] = v
    m = Model(t)
    old = [("keep", "kept")]
    ok = m.putall(list(plain.items()))
    e = t.choice("entity", [lambda **k: ProcessSpec("p", **k),
                            lambda **k: PropertyTemplate("p", bounds=IntegerBounds(0, 1), **k)])
    if how == "construct":
        out = t.attempt(lambda: e(uids=plain))
        if not ok:
            t.must_raise(out, ValueError, "clashing uids")
            t.cover("uids clash")
            return
        o = t.must(out, "construction with uids")
    else:
        o = e(uids={"keep": "kept"})
        if how == "assign":
            out = t.attempt(setattr, o, "uids", plain)
        elif how == "pair":
            out = t.attempt(setattr, o, "uids", (keys[0], ids[0]))
        else:
            out = t.attempt(lambda: [o.add_uid(k, v) for k, v in plain.items()])
            m = Model(t)
            m.kv = list(old)
            ok = m.putall(list(plain.items()))
        if not ok:
            t.must_raise(out, ValueError, "clashing uids")
            t.cover("uids clash")
            if how == "assign":
                m.kv = list(old)
                same(t, o.uids, m, "after refused uids")
            return
        t.must(out, "uids")
    t.cover("uids")
    same(t, o.uids, m, "uids")
    if plain and how in ("construct", "assign"):
        # the entity keeps its own dictionary
        o.uids["another scope"] = "z"
        t.check(len(plain) == len(m.kv), "the given mapping is not changed")
    t.must(t.attempt(setattr, o, "uids", None), "clearing uids")
    t.check(len(o.uids) == 0, "cleared uids")


def h_own_uids(t, how, given):
    """Entities do not share their uids, whatever mapping they were given."""
    k, v = t.str("k", 1, 1), t.str("v", 1, 1)
    a = ProcessSpec("a", uids={k: v})
    src = a.uids if given == "entity" else CaseInsensitiveDict({k: v})
    b = ProcessSpec("b", uids=src) if how == "construct" else ProcessSpec("b")
    if how == "assign":
        t.must(t.attempt(setattr, b, "uids", src), "uids of another entity")
    t.check(isinstance(b.uids, CaseInsensitiveDict) and len(b.uids) == 1 and
            t.all(list(b.uids)[0] == k, b.uids[k] == v), "uids")
    k2 = t.str("k2", 1, 1)
    t.assume(k2.lower() != k.lower())
    x, y = (a, b) if t.flag("first") else (b, a)
    t.must(t.attempt(x.add_uid, k2, "new"), "another uid")
    t.check(len(x.uids) == 2 and x.uids[k2] == "new", "added")
    t.check(len(y.uids) == 1 and k2 not in y.uids and y.uids[k] == v, "the other entity's uids")
    t.must(t.attempt(x.uids.pop, k), "removal")
    t.check(len(y.uids) == 1 and y.uids[k] == v, "the other entity's uids")
    t.cover("own uids")


SMALL = "aAbB"
WRITES = ["set", "del", "pop", "popdef", "setdefault", "update", "updatekw", "updatepairs", "ior",
          "popitem", "clear", "copy"]


def cases(tier):
    out = []
    for op in OPS:
        for how, n in (("none", 0), ("map", 1), ("map", 2)):
            out.append(case("h_history", how=how, n=n, op0=op, steps=1, weight=n + 1))
            if op not in WRITES:
                continue
            out.append(case("h_history", how=how, n=n, op0=op, steps=2 if tier == "quick" else 3,
                            rest=WRITES, abc=SMALL, weight=n * 4 + 1))
    for how in ("pairs", "kw"):
        for op in ("set", "pop", "copy"):
            out.append(case("h_history", how=how, n=2, op0=op, steps=1))
    for op in OPS:
        out.append(case("h_history", how="map", n=1, op0=op, steps=1, width=2))
    for how in ("construct", "assign", "add", "pair"):
        out.append(case("h_uids", how=how, n=1, alphabet="abcdefghijklmnopqrstuvwxyz_", hi=7,
                        weight=2))
        out.append(case("h_uids", how=how, n=1, alphabet=None, hi=2))
        if how != "pair":
            out.append(case("h_uids", how=how, n=2, alphabet=None, hi=1, weight=2))
    for how in ("construct", "assign"):
        for given in ("entity", "dict"):
            out.append(case("h_own_uids", how=how, given=given))
    return out
