"""C29: A type string names one class, which only a descendant can take over."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.base_entity import BaseEntity
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessRun, MaterialRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.value import NominalInteger
from gemd.json import GEMDJson, GEMDEncoder
from gemd.json import dumps, loads

BOUNDS = {
    "quick": ["sequences of up to 3 class definitions, each extending DictSerializable, one of 4 "
              "classes of gemd or an earlier one of them, with no type string, one of 6 existing or "
              "new ones, or any text of 1 character; with and without fields left out of "
              "dictionaries; after each definition the registry is compared and objects are built",
              "sequences of up to 3 classes with any of 3 fields left out and one or several bases",
              "a class with two registered bases, under each of 4 type strings or none"],
    "thorough": ["sequences of 4 definitions"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "classes are defined in one thread",
    "kinds of entities are not given new type strings (the write order only knows gemd's own)"]
COVERS = {"all": ["new type", "taken over", "refused", "inherited", "built", "skipped", "untyped",
                  "several bases"]}
ISOLATE = True                      # replays leave classes behind: each in a process of its own
BASES = [DictSerializable, FileLink, LinkByUID, ProcessRun, PerformedSource]
NAMES = ["file_link", "process_run", "performed_source", "new_kind", "other_kind", "link_by_uid"]


def make(base, n, typ, skip):
    def init(self, filename="f", url="u", extra=None, **kw):
        if base in (DictSerializable,):
            DictSerializable.__init__(self)
        self.filename, self.url, self.extra = filename, url, extra
        self.left_out = 5
    kw = {}
    if typ is not None:
        kw["typ"] = typ
    if skip:
        kw["skip"] = {"left_out"}
    body = {"__init__": init} if base is DictSerializable else {}
    return type(base)("Made%d" % n, (base,), body, **kw)


def find(table, typ):
    """The class the model registers for typ, or None."""
    for k, v in table:
        if k == typ:
            return v
    return None


def h_register(t, n, symbolic, last):
    before = DictSerializable.class_mapping
    table = [(k, v) for k, v in before.items()]      # latest entry first
    made = []
    for i in range(n):
        bases = BASES + made
        base = t.choice("base%d" % i, bases)
        k = t.pick("typ%d" % i, 2 if symbolic else 1 + len(NAMES))
        typ = None if k == 0 else (t.str("name%d" % i, 1, 1) if symbolic else NAMES[k - 1])
        skip = base is DictSerializable and t.flag("skip%d" % i)
        holder = None if typ is None else find(table, typ)
        out = t.attempt(make, base, i, typ, skip)
        now = DictSerializable.class_mapping
        if holder is not None and not issubclass(base, holder):
            t.must_raise(out, ValueError, "a type string of a class that is no ancestor")
            same(t, now, table)
            t.cover("refused")
            continue
        cls = t.must(out, "definition")
        if typ is not None:
            t.cover("new type" if holder is None else "taken over")
            table = [(a, b) for a, b in table if not t.is_true(a == typ)] + [(typ, cls)]
            t.check(cls.typ == typ, "the class knows its type string")
        else:
            t.check(cls.typ is base.typ, "no type string of its own")
            t.cover("untyped" if base is DictSerializable else "inherited")
        t.check(set(cls.skip) == set(base.skip) | ({"left_out"} if skip else set()), "fields left out")
        same(t, now, table)
        made.append(cls)
    now = DictSerializable.class_mapping
    now["process_run"] = FileLink               # a copy: nothing happens
    now["another"] = FileLink
    same(t, DictSerializable.class_mapping, table)


def same(t, now, table):
    t.check(len(now) == len(table), "registered types")
    for k, v in table:
        t.check(k in now, "registered type")
        t.check(now[k] is v, "registered class")


def h_build(t, base, typ, skip, nested):
    base = {b.__name__: b for b in BASES}[base]
    """Objects with the type string are built as the class registered last."""
    text = t.str("x", 0, 1)
    cls = make(base, 0, typ, skip)
    if base is ProcessRun:
        d = {"type": typ, "name": text}
    elif base is PerformedSource:
        d = {"type": typ, "performed_by": text}
    elif base is LinkByUID:
        d = {"type": typ, "scope": "s", "id": text}
    else:
        d = {"type": typ, "filename": text, "url": "w"}
    j = GEMDJson()
    if nested:
        x = t.must(t.attempt(DictSerializable.build, {"a": [d]}), "build")
        t.check(isinstance(x, dict) and len(x["a"]) == 1, "container")
        x = x["a"][0]
    else:
        x = t.must(t.attempt(cls.build, d), "build")
    t.check(type(x) is cls, "built as the class registered last")
    back = x.dump()
    t.check(back["type"] == typ, "type string")
    for k, v in d.items():
        t.check(k in back and back[k] == v, "fields")
    t.check(("left_out" in back) == (base is DictSerializable and not skip), "fields left out")
    if base is DictSerializable and skip:
        t.cover("skipped")
    y = t.must(t.attempt(j.copy, x), "copy")
    t.check(type(y) is cls and y is not x, "copied as the class registered last")
    if base is ProcessRun:
        m = MaterialRun("m", process=x)
        m2 = loads(dumps(m))
        t.check(type(m2) is MaterialRun and type(m2.process) is cls, "restored in place")
        t.check(m2.process.name == text and m2.process.output_material is m2, "and linked")
    if base is LinkByUID:
        m = MaterialRun("m", process=ProcessRun(text), spec=x)
        m2 = t.must(t.attempt(lambda: loads(dumps(m))), "a history with such links")
        t.check(type(m2.process) is ProcessRun and m2.process.name == text and
                m2.process.output_material is m2, "links name the entities of the document")
        t.check(type(m2.spec) is cls and m2.spec.id == text, "a link to another entity")
        x.scope = "A"
        two = [ProcessRun("p", uids={"a": text}), MaterialRun("m", process=x)]
        two = t.must(t.attempt(lambda: loads(dumps(two))), "such a link to an entity")
        t.check(type(two[0]) is ProcessRun and two[1].process is two[0], "resolved")
    t.cover("built")


def h_untouched(t):
    """Plain classes are unaffected by an untyped subclass."""
    base = t.choice("base", [FileLink, ProcessRun, NominalInteger])
    made = make(base, 0, None, False)
    kw = {FileLink: ("f", "u"), ProcessRun: ("p",), NominalInteger: (3,)}[base]
    x = made(*kw)
    t.check(x.dump()["type"] == base.typ, "the inherited type string")
    t.check(type(DictSerializable.build(x.dump())) is base, "is still the base's")
    t.check(DictSerializable.class_mapping[base.typ] is base, "registry")
    t.cover("inherited")


def h_lineage(t, n):
    """Fields to leave out come from every base; each entry of `where` is one of the bases."""
    fields = ["first", "second", "third"]
    made, own = [], []
    for i in range(n):
        left = {f for f in fields if t.flag("leave %s out of %d" % (f, i))} if i < 2 else {"third"}
        bases = (DictSerializable,)
        if i:
            k = t.pick("bases%d" % i, 3 if i > 1 else 2)
            bases = ((made[-1],), (DictSerializable,), tuple(made[::-1] if k == 2 and t.flag("swap") else made))[k]
        out = t.attempt(lambda: type(DictSerializable)("Kin%d" % i, bases, {"__init__": lambda self: set_all(
            self, fields)}, skip=set(left)))
        if not out.ok and len(bases) > 1 and issubclass(bases[1], bases[0]):
            t.must_raise(out, TypeError, "bases in an order Python refuses")
            return
        cls = t.must(out, "definition")
        want = set(left)
        for b in bases:
            if b in made:
                want |= own[made.index(b)]
        t.check(set(cls.skip) == want, "fields left out along every base")
        t.check(set(cls().as_dict()) == (set(fields) - want) | {"type"}, "the dictionary")
        made.append(cls)
        own.append(want)
        for c, w in zip(made, own):
            t.check(set(c.skip) == w, "earlier classes are as they were")
        if len(bases) > 1:
            t.cover("several bases")


def set_all(x, fields):
    for f in fields:
        setattr(x, f, 1)


def h_two_types(t):
    """A class with two registered bases may take over the type of either, and of no other."""
    a, b = make(DictSerializable, 1, "kind a", False), make(DictSerializable, 2, "kind b", False)
    c = make(DictSerializable, 3, "kind c", False)
    before = DictSerializable.class_mapping
    typ = t.choice("typ", [None, "kind a", "kind b", "kind c", "kind d"])
    bases = (a, b) if t.flag("order") else (b, a)
    kw = {} if typ is None else {"typ": typ}
    out = t.attempt(lambda: type(a)("Both", bases, {}, **kw))
    now = DictSerializable.class_mapping
    if typ == "kind c":
        t.must_raise(out, ValueError, "a type string of a class that is no ancestor")
        t.check(now == before and now["kind c"] is c, "registry")
        return
    cls = t.must(out, "definition")
    t.check(cls.typ == (bases[0].typ if typ is None else typ), "type string")
    if typ is not None:
        before[typ] = cls
    t.check(now == before, "registry")
    t.cover("several bases")


def cases(tier):
    n = 4 if tier == "thorough" else 3
    out = [case("h_register", n=k, symbolic=s, last=None, weight=5) for k in range(1, n)
           for s in (True, False)]
    out.append(case("h_register", n=n, symbolic=True, last=None, weight=9))
    for base, typ in [(DictSerializable, "brand_new"), (FileLink, "file_link"), (FileLink, "my_file"),
                      (LinkByUID, "my_link"), (LinkByUID, "link_by_uid"), (ProcessRun, "process_run"),
                      (PerformedSource, "performed_source")]:
        for skip in (True, False) if base is DictSerializable else (False,):
            for nested in (True, False):
                out.append(case("h_build", base=base.__name__, typ=typ, skip=skip, nested=nested))
    out.append(case("h_untouched"))
    out.append(case("h_two_types"))
    for k in (2, 3):
        out.append(case("h_lineage", n=k))
    return out
