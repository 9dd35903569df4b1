"""C15: Every GEMD object survives conversion to a dictionary and back."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.json import GEMDJson
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.file_link import FileLink
from gemd.entity.object import IngredientRun, IngredientSpec, ProcessRun

BOUNDS = {
    "quick": ["all 11 value kinds, 5 bounds kinds, 3 attribute kinds (each field), properties with "
              "conditions, links, file links, sources: symbolic content",
              "all 14 entity classes x every constructor field with symbolic content (texts of one "
              "character, lists of 0-2, references None / link / entity with or without uid), and "
              "uids of 0-2 scopes",
              "unknown field names: any text of 0-2 characters and a few longer ones; unknown types: "
              "any text of 0-2 characters and near misses"],
    "thorough": ["texts of up to 2 characters in unknown fields and types; attributes with two "
                 "fields at once"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "the text form of JSON is modelled as the document it denotes (see C12)",
    "a type that is not a text, or is missing, is outside"]
COVERS = {"all": ["plain", "nested", "ignored", "unknown type", "thin", "kept link", "ingredient", "own lists"]}


def jeq(t, a, b):
    """Two JSON documents are the same."""
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and t.all(*[
            t.any(*[t.all(k == k2, jeq(t, v, w)) for k2, w in b.items()]) for k, v in a.items()])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and t.all(
            *[jeq(t, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    return isinstance(b, (int, float)) and isinstance(a, bool) == isinstance(b, bool) and a == b


def jsn(t, a):
    """Only JSON types, strictly."""
    if isinstance(a, dict):
        return t.all(*[isinstance(k, str) and jsn(t, v) for k, v in a.items()])
    if type(a) is list:
        return t.all(*[jsn(t, x) for x in a])
    return a is None or isinstance(a, (str, int, float)) and not hasattr(a, "name")


def copy_json(a):
    if isinstance(a, dict):
        return {k: copy_json(v) for k, v in a.items()}
    if isinstance(a, list):
        return [copy_json(x) for x in a]
    return a


def describes(t, j, d):
    """The JSON document shows what the description says."""
    k = d[0]
    if k == "none":
        return j is None
    if k in ("str", "num"):
        return jeq(t, j, d[1])
    if k == "lit":
        return j == d[1]
    if k == "link":
        return jeq(t, j, {"type": "link_by_uid", "scope": d[1], "id": d[2]})
    if k == "obj":
        return isinstance(j, dict) and j["type"] == d[1] and len(j) == len(d[2]) + 1 and \
            t.all(*[describes(t, j[f], v) for f, v in d[2].items()])
    if k == "ent":
        return isinstance(j, dict) and j["type"] == d[1] and jeq(t, j["uids"], dict(d[2])) and \
            t.all(*[describes(t, j[f], v) for f, v in d[3].items()])
    if k in ("seq", "ms"):
        return isinstance(j, list) and len(j) == len(d[1]) and t.all(
            *[describes(t, x, y) for x, y in zip(j, d[1])])
    if k == "map":
        return isinstance(j, dict) and len(j) == len(d[1]) and t.all(*[
            t.any(*[t.all(x == a[1], describes(t, v, b)) for x, v in j.items()]) for a, b in d[1]])
    if k == "set":
        return isinstance(j, list) and t.all(*(
            [t.any(*[describes(t, x, y) for y in d[1]]) for x in j] +
            [t.any(*[describes(t, x, y) for x in j]) for y in d[1]]))
    raise ValueError(k)


def both_ways(t, x, d, fields=None):
    """x, described by d, through both conversions.  fields: those described (default: all)."""
    cls = type(x)
    j = t.must(t.attempt(x.dump), "dump")
    t.check(isinstance(j, dict) and jsn(t, j), "dump is plain JSON")
    t.check(j["type"] == cls.typ, "type")
    for f, v in d.items():
        t.check(f in j and describes(t, j[f], v), "dump shows %s" % f)
    t.check(all(hasattr(x, f) for f in j if f != "type"), "fields of the dump")
    if fields is None:
        t.check(len(j) == len(d) + 1, "no other fields")
    j0 = copy_json(j)
    y = t.must(t.attempt(DictSerializable.build, j), "build")
    t.check(type(y) is cls and y is not x, "class of what is built")
    for f, v in d.items():
        t.check(cat.holds(t, getattr(y, f), v), "%s is built" % f)
    t.check(jeq(t, j, j0), "build leaves its argument alone")
    j2 = t.must(t.attempt(y.dump), "dump again")
    if any(v[0] == "set" for v in d.values()) or cls.typ.endswith("_template"):
        for f, v in d.items():      # (sets of texts have no order)
            t.check(f in j2 and describes(t, j2[f], v), "dumping again: %s" % f)
        t.check(sorted(j2) == sorted(j), "dumping again")
    else:
        t.check(jeq(t, j2, j), "dumping again gives the same dictionary")
    a = t.must(t.attempt(x.as_dict), "as_dict")
    t.check(isinstance(a, dict) and a["type"] == cls.typ, "as_dict type")
    t.check(sorted(a) == sorted(j), "as_dict has the fields of dump")
    for f, v in d.items():
        t.check(cat.holds(t, a[f], v), "as_dict shows %s" % f)
    a0 = dict(a)
    z = t.must(t.attempt(cls.from_dict, a), "from_dict")
    t.check(type(z) is cls and z is not x, "class of from_dict")
    for f, v in d.items():
        t.check(cat.holds(t, getattr(z, f), v), "%s by from_dict" % f)
    for f in a:
        if isinstance(getattr(x, f, None), (list, set)) and not (
                f == "labels" and isinstance(x, IngredientRun)):    # (those are its spec's)
            t.check(getattr(z, f) is not getattr(x, f), "%s is shared with the original" % f)
            t.cover("own lists")
    t.check(len(a) == len(a0) and all(a[f] is a0[f] for f in a0), "from_dict leaves the dictionary")
    for f, v in d.items():
        t.check(cat.holds(t, getattr(x, f), v), "%s of the original" % f)
    t.check(t.warnings() == 0, "no warning")
    return y, z


def h_value(t, kind):
    x, d = cat.value(t, "v", kind)
    both_ways(t, x, d[2])
    t.cover("plain")


def h_bounds(t, kind):
    x, d = cat.bounds(t, "b", kind)
    both_ways(t, x, d[2])


def h_attr(t, kind, vary):
    x, d = cat.attribute(t, "a", kind, vary)
    both_ways(t, x, d[2])
    t.cover("nested")


def h_attr_value(t, kind, value):
    from gemd.entity.attribute import Condition
    v, d = cat.value(t, "v", value)
    x = cat.ATTR[kind][0]("n", value=v)
    both_ways(t, x, {"value": d, "name": ("str", "n")}, fields="some")


def h_pac(t, vary):
    x, d = cat.pac(t, "p", vary)
    both_ways(t, x, d[2])


def h_plain(t, what):
    if what == "link":
        s, i = t.str("s", 0, 2), t.str("i", 0, 2)
        x, d = LinkByUID(s, i), {"scope": ("str", s), "id": ("str", i)}
    elif what == "file":
        s, i = t.str("s", 0, 2), t.str("i", 0, 2)
        x, d = FileLink(s, i), {"filename": ("str", s), "url": ("str", i)}
    else:
        from gemd.entity.source.performed_source import PerformedSource
        a, da = cat.g_otext(t, "a")
        b, db = cat.g_otext(t, "b")
        x, d = PerformedSource(a, b), {"performed_by": da, "performed_date": db}
    both_ways(t, x, d)


def h_entity(t, kind, field):
    cls, req, fields = cat.CLASSES[kind]
    if field == "uids":
        v, u = cat.g_uids(t, "u")
        x = cls(uids=v, **req)
        y, z = both_ways(t, x, {}, "some")
        for w in (x, y, z):
            t.check(cat.uids_are(t, w.uids, u), "uids")
        j = x.dump()
        t.check(jeq(t, j["uids"], u), "uids in the dump")
        return
    v, d = fields[field](t, "x")
    kw = dict(req)
    kw[field] = v
    x = cls(uids={"z": "me"}, **kw)
    want = {field: d}
    if field != "name" and "name" in req:
        want["name"] = ("str", "n")
    y, z = both_ways(t, x, want, "some")
    for w in (x, y, z):
        t.check(cat.uids_are(t, w.uids, {"z": "me"}), "uids")
    skipped = {"ingredients", "measurements", "output_material"}
    j = x.dump()
    t.check(not any(f in j for f in skipped), "soft sides are not dumped")
    expect = set(fields) | {"uids", "type"} | ({"name", "labels"} if kind == "ingredient_run" else set())
    t.check(set(j) == expect, "the fields of %s" % kind)
    t.cover("nested")


def h_thin(t, kind, field):
    """thin_dumps: the same with links to the entities in place of the entities."""
    cls, req, fields = cat.CLASSES[kind]
    v, d = fields[field](t, "x")
    cat.unambiguous(t, *cat.ids_in(d))
    kw = dict(req)
    kw[field] = v
    mine = t.flag("mine")
    x = cls(uids={"z": "me"} if mine else {}, **kw)
    s = t.must(t.attempt(GEMDJson(scope="q").thin_dumps, x), "thin_dumps")
    y = t.must(t.attempt(GEMDJson().raw_loads, s), "raw_loads")
    t.check(type(y) is cls and y is not x, "class")
    t.check(list(x.uids) == (["z"] if mine else ["q"]), "a uid where there was none")
    t.check(cat.uids_are(t, y.uids, dict(x.uids)), "uids")
    t.check(thin(t, getattr(y, field), d, getattr(x, field)), "%s.%s thin" % (kind, field))
    t.check(cat.holds(t, getattr(x, field), d), "the original")
    t.cover("thin")


def thin(t, got, d, orig):
    if d[0] == "ent":
        if type(got) is not LinkByUID or not isinstance(orig, BaseEntity):
            return False
        return t.all(got.scope == ("a" if d[2] else "q"), got.id == orig.uids[got.scope])
    if d[0] == "obj":
        return type(got).typ == d[1] and t.all(*[thin(t, getattr(got, f), v, getattr(orig, f))
                                                  for f, v in d[2].items()])
    if d[0] in ("seq", "ms"):
        return len(got) == len(d[1]) and t.all(*[thin(t, x, y, o)
                                                 for x, y, o in zip(got, d[1], orig)])
    if d[0] == "link":
        t.cover("kept link")
    return cat.holds(t, got, d)


def h_unknown_field(t, what, how, hi):
    foreign = {"value": ["name", "notes", "labels", "uids"], "link": ["name", "labels", "template"],
               "entity": ["labels", "process", "properties"],      # fields that other types have
               "ingredient": ["template", "parameters", "properties"]}[what]
    name = t.str("f", 0, hi) if t.flag("any") else t.choice("known", [
        "extra_field", "typ", "Name", "_name", "nominal "] + foreign)
    make = {"value": lambda: cat.NominalInteger(5), "link": lambda: LinkByUID("a", "b"),
            "entity": lambda: ProcessRun("n", uids={"a": "b"}),
            "ingredient": lambda: IngredientRun(notes="n")}[what]
    x = make()
    fields = {"value": {"nominal": 5}, "link": {"scope": "a", "id": "b"},
              "entity": {"name": "n", "notes": None}, "ingredient": {"notes": "n"}}[what]
    t.assume(name != "id")
    d = x.dump() if how == "build" else x.as_dict()
    d[name] = t.choice("v", [None, 5, "text", []])
    n = t.warnings()
    y = t.must(t.attempt(DictSerializable.build if how == "build" else type(x).from_dict, d),
               "unknown field")
    t.check(type(y) is type(x) and all(getattr(y, f) == v for f, v in fields.items()),
            "the other fields are kept")
    t.check(t.warnings() == n + 1, "one warning for an unknown field")
    t.check(not hasattr(y, "extra_field"), "ignored")
    t.cover("ignored")


def h_unknown_type(t, hi, nested):
    typ = t.str("t", 0, hi) if t.flag("any") else t.choice("known", [
        "process", "Process_run", "process_run ", "nominal_real_", "base_entity", "link", "type"])
    d = {"type": typ, "name": "n"}
    if nested:
        d = {"type": "property", "name": "n", "value": d}
    out = t.attempt(DictSerializable.build, d)
    t.must_raise(out, TypeError, "unknown type")
    out = t.attempt(GEMDJson().loads, GEMDJson().raw_dumps({"context": [], "object": d}))
    t.must_raise(out, TypeError, "unknown type, loads")
    t.cover("unknown type")


def h_ingredient(t):
    """Name and labels of an ingredient run, with an entity, a link or nothing as its spec."""
    name, ls = t.str("n", 1, 2), [t.str("l0", 1, 1), t.str("l1", 1, 1)]
    x = IngredientRun(spec=IngredientSpec(name, labels=list(ls)), notes="n")
    k = t.pick("spec", 3)
    if k:
        x.spec = [None, LinkByUID("a", "b")][k - 1]
    want = {"name": ("str", name), "labels": ("seq", [("str", s) for s in ls]),
            "notes": ("str", "n")}
    both_ways(t, x, want, "some")
    t.cover("ingredient")


def cases(tier):
    th = tier == "thorough"
    hi = 3 if th else 2
    out = [case("h_value", kind=k) for k in cat.VALUE_KINDS]
    out += [case("h_bounds", kind=k) for k in cat.BOUND_KINDS]
    for a in cat.ATTR:
        out += [case("h_attr", kind=a, vary=v)
                for v in ("name", "notes", "value", "origin", "file_links", "template")]
        out += [case("h_attr_value", kind=a, value=v) for v in cat.VALUE_KINDS]
    out += [case("h_pac", vary=v) for v in ("name", "value", "template")]
    out += [case("h_plain", what=w) for w in ("link", "file", "source")]
    for kind, (_, _, fields) in cat.CLASSES.items():
        for f in list(fields) + ["uids"]:
            out.append(case("h_entity", kind=kind, field=f))
            if f != "uids":
                out.append(case("h_thin", kind=kind, field=f))
    for w in ("value", "link", "entity", "ingredient"):
        for how in ("build", "from_dict"):
            out.append(case("h_unknown_field", what=w, how=how, hi=hi))
    for n in (False, True):
        out.append(case("h_unknown_type", hi=hi, nested=n))
    out.append(case("h_ingredient"))
    return out
