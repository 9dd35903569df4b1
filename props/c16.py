"""C16: Enumerated fields accept exactly their vocabulary, ignoring case and padding."""
import warnings

from props.common import case, ENGINE_ASSUMPTIONS
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration, migrated_enum
from gemd.entity.attribute import Property, Condition, Parameter
from gemd.entity.object import MaterialRun


try:
    class Fruit(BaseEnumeration):
        APPLE = "Apple"
        AVOCADO = "Avocado", "All Pear"
        FIG = "fig", "FICUS", "f"
        FIGS = "Fi g", "g"
except ValueError:              # a lookup has matched a word that is not among them
    Fruit = None


VOCAB = {
    "Origin": (Origin, {"MEASURED": ["measured"], "PREDICTED": ["predicted"],
                        "SUMMARY": ["summary"], "SPECIFIED": ["specified"],
                        "COMPUTED": ["computed"], "UNKNOWN": ["unknown"]}),
    "SampleType": (SampleType, {"EXPERIMENTAL": ["experimental"], "PRODUCTION": ["production"],
                                "VIRTUAL": ["virtual"], "UNKNOWN": ["unknown"]}),
    "Fruit": (Fruit, {"APPLE": ["Apple"], "AVOCADO": ["Avocado", "All Pear"],
                      "FIG": ["fig", "FICUS", "f"], "FIGS": ["Fi g", "g"]}),
}
WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0"

BOUNDS = {
    "quick": ["every Latin-1 text of up to 11 characters against Origin, 13 against SampleType and "
              "9 against an enumeration with synonyms, through from_str (with and without an "
              "exception) or by calling the enumeration (all three up to 5 characters, in turn "
              "beyond)",
              "fields: origin of properties (texts of up to 10 characters), conditions and "
              "parameters (7), sample type of material runs (13), constructed and assigned over a "
              "previous member; every member, None and non-texts",
              "a migrated name of an enumeration with synonyms, replaced by any of its 9 words in "
              "any casing with up to 1 character of padding"],
    "thorough": ["all of these with 4 more characters, every way of lookup at every length"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["characters: Latin-1 without \u00b5, \u00df and \u00ff"]
COVERS = {"all": ["member", "synonym", "padded", "no member", "refused", "not a text", "migrated"]}


class Oracle:
    """Which words, whatever the case of their letters, a text is when its padding is ignored."""

    def __init__(self, t, s):
        self.t, self.s, self.n = t, s, len(s)
        ws = [t.any(*[c == w for w in WS]) for c in s]
        self.pre, self.post, self.at = [True], [True], {}
        for w in ws:
            self.pre.append(t.all(self.pre[-1], w))
        for w in reversed(ws):
            self.post.append(t.all(w, self.post[-1]))

    def char(self, k, c):
        key = (k, c.lower())
        if key not in self.at:
            self.at[key] = self.t.any(self.s[k] == c.lower(), self.s[k] == c.upper())
        return self.at[key]

    def __call__(self, words):
        t, n = self.t, self.n
        return t.any(*[t.all(self.pre[i], self.post[n - i - len(w)],
                             *[self.char(i + k, c) for k, c in enumerate(w)])
                       for w in words for i in range(n - len(w) + 1)])


def h_lookup(t, enum, n, how):
    cls, vocab = VOCAB[enum]
    t.check(cls is not None, "an enumeration of different words was refused")
    s = t.str("s", n, n)
    if how == "none":
        got = t.must(t.attempt(cls.from_str, s), "from_str")
    elif how == "raise":
        out = t.attempt(cls.from_str, s, exception=True)
        if out.ok:
            got = out.value
            t.check(got is not None, "a member where one is required")
        else:
            t.must_raise(out, ValueError, "no member")
            got = None
            t.cover("refused")
    else:
        out = t.attempt(cls, s)
        got = out.value if out.ok else t.must_raise(out, ValueError, "no member")
    resolves = Oracle(t, s)
    for m, words in vocab.items():
        m = getattr(cls, m)
        t.check(t.iff(got is m, resolves(words)),
                "resolved to %s exactly when it should be" % m.name)
        if got is m:
            t.cover("member")
            if t.is_true(t.any(*[t.all(len(s) == len(w), s.lower() == w.lower()) for w in words[1:]])):
                t.cover("synonym")
            if t.is_true(t.any(s[0] == " ")):
                t.cover("padded")
            t.check(isinstance(got, cls), "a member")
    if got is None:
        t.cover("no member")


FIELDS = {"property": (lambda **k: Property("p", **k), "origin", "Origin"),
          "condition": (lambda **k: Condition("p", **k), "origin", "Origin"),
          "parameter": (lambda **k: Parameter("p", **k), "origin", "Origin"),
          "material": (lambda **k: MaterialRun("p", **k), "sample_type", "SampleType")}


def h_field(t, field, n, how):
    make, f, enum = FIELDS[field]
    cls, vocab = VOCAB[enum]
    t.check(cls is not None, "an enumeration of different words was refused")
    s = t.str("s", n, n)
    before = list(cls)[n % len(list(cls))]
    if how == "construct":
        out = t.attempt(make, **{f: s})
        x = out.value if out.ok else None
    else:
        x = make(**{f: before})
        t.check(getattr(x, f) is before, "given as a member")
        out = t.attempt(setattr, x, f, s)
    resolves = Oracle(t, s)
    ok = t.any(*[resolves(w) for w in vocab.values()])
    if not out.ok:
        t.must_raise(out, ValueError, "refused")
        t.check(t.no(ok), "a word of the vocabulary was refused")
        if x is not None:
            t.check(getattr(x, f) is before, "a refused value changes nothing")
        t.cover("refused")
        return
    got = getattr(x, f)
    for m, words in vocab.items():
        t.check(t.iff(got is getattr(cls, m), resolves(words)), "the member is stored")
    t.check(isinstance(got, cls), "a member is stored")


def h_members(t, enum):
    cls, vocab = VOCAB[enum]
    t.check(cls is not None, "an enumeration of different words was refused")
    t.check([m.name for m in cls] == list(vocab), "the vocabulary")
    for m, words in vocab.items():
        m = getattr(cls, m)
        t.check(m == words[0] and words[0] == m and m.value == words[0], "equal to its value")
        t.check(str(m) == words[0], "prints as its value")
        t.check(cls.from_str(m) is m and cls(m) is m and cls[m.name] is m, "members resolve to themselves")
        for w in words[1:]:
            t.check(not m == w, "a synonym is not the value")
        for o in cls:
            t.check((m == o) == (m is o), "members differ")
    s = t.str("s", 1, 6)
    for m, words in vocab.items():
        m = getattr(cls, m)
        t.check(t.iff(m == s, s == words[0]), "equal to nothing else")


def h_not_text(t, field):
    make, f, enum = FIELDS[field]
    cls, vocab = VOCAB[enum]
    t.check(cls is not None, "an enumeration of different words was refused")
    bad = t.choice("bad", [None, 5, 0, True, 2.5, b"unknown", ["unknown"], ("unknown",),
                           {"unknown": 1}, object])
    before = list(cls)[t.pick("before", len(list(cls)))]
    x = make(**{f: before})
    out = t.attempt(setattr, x, f, bad)
    t.check(not out.ok, "refused")
    t.check(isinstance(out.exc, (TypeError, ValueError)), "with TypeError or ValueError")
    t.check(getattr(x, f) is before, "nothing changes")
    out = t.attempt(make, **{f: bad})
    t.check(not out.ok and isinstance(out.exc, (TypeError, ValueError)), "refused in a constructor")
    t.check(cls.from_str(None) is None, "None resolves to nothing")
    t.must_raise(t.attempt(cls.from_str, None, exception=True), ValueError, "None where required")
    out = t.attempt(cls, bad)
    t.check(not out.ok and isinstance(out.exc, (TypeError, ValueError)), "not a member")
    t.cover("not a text")


def h_migrated(t, m, words, n):
    """A name that was given up still names the member that replaced it, with a warning."""
    vocab = VOCAB["Fruit"][1]
    t.check(Fruit is not None, "an enumeration of different words was refused")
    word = [w for w in vocab[m]][words]
    new = t.str("new", n, n)
    t.assume(Oracle(t, new)([word]))
    out = t.attempt(migrated_enum(old_value="OLD", new_value=new, deprecated_in="1", removed_in="99"),
                    make_fruit())
    cls = t.must(out, "declared")
    for get in (lambda: cls.OLD, lambda: cls["OLD"]):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = t.must(t.attempt(get), "the old name")
        t.check(got is cls.__members__[m], "the member that replaced it")
        t.check(any(issubclass(w.category, DeprecationWarning) for w in ws), "a deprecation warning")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        names(t, cls, vocab)
    t.check(not ws, "without warning")
    t.cover("migrated")


def names(t, cls, vocab):
    for k in vocab:
        t.check(t.must(t.attempt(lambda: cls[k]), "name") is cls.__members__[k], "other names")
        t.check(t.must(t.attempt(getattr, cls, k), "name") is cls.__members__[k], "other names")
        for w in vocab[k]:
            t.check(cls.from_str(w) is cls.__members__[k], "words")
    t.check(not t.attempt(lambda: cls["NEW"]).ok, "no other name")
    t.check(cls.from_str("OLD") is None, "not a word")
    t.check([x.name for x in cls] == list(vocab), "members")


def make_fruit():
    class Mine(BaseEnumeration):
        APPLE = "Apple"
        AVOCADO = "Avocado", "All Pear"
        FIG = "fig", "FICUS", "f"
        FIGS = "Fi g", "g"
    return Mine


def h_default(t):
    for x in (Property("p"), Condition("p"), Parameter("p")):
        t.check(x.origin is Origin.UNKNOWN, "default origin")
    t.check(MaterialRun("m").sample_type is SampleType.UNKNOWN, "default sample type")
    s = t.choice("o", [o for o in Origin])
    m = MaterialRun("m", sample_type="virtual")
    if s.value == "unknown":
        m.sample_type = s       # a text like any other
        t.check(m.sample_type is SampleType.UNKNOWN, "a member of another enumeration")
    else:
        t.must_raise(t.attempt(setattr, m, "sample_type", s), ValueError, "another enumeration")
        t.check(m.sample_type is SampleType.VIRTUAL, "kept")


def cases(tier):
    th = tier == "thorough"
    out = []
    for e, hi in (("Origin", 11), ("SampleType", 13), ("Fruit", 9)):
        for n in range(hi + 1 + (4 if th else 0)):
            for k, how in enumerate(("none", "raise", "call")):
                if th or n < 6 or (n + k) % 3 == 0 or n == hi:
                    out.append(case("h_lookup", enum=e, n=n, how=how, weight=n))
    for f, hi in (("property", 10), ("condition", 7), ("parameter", 7), ("material", 13)):
        for n in range(hi + 1 + (4 if th else 0)):
            for k, how in enumerate(("construct", "assign")):
                if th or n < 6 or (n + k) % 2 or n == hi:
                    out.append(case("h_field", field=f, n=n, how=how, weight=n))
    for e in VOCAB:
        out.append(case("h_members", enum=e))
    for f in FIELDS:
        out.append(case("h_not_text", field=f))
    out.append(case("h_default"))
    for m, ws in VOCAB["Fruit"][1].items():
        for i, w in enumerate(ws):
            for d in (0, 1, 2) if th else (0, 1):
                out.append(case("h_migrated", m=m, words=i, n=len(w) + d))
    return out
