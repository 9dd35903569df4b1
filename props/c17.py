"""C17: A link made from an entity identifies that entity."""
from props.common import case, ENGINE_ASSUMPTIONS
from props import catalog as cat
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessRun, MaterialSpec, IngredientRun
from gemd.entity.template import PropertyTemplate
from gemd.entity.bounds import IntegerBounds

BOUNDS = {
    "quick": ["entities with 0-3 uids, scopes any Latin-1 texts of 0-2 characters without a clash "
              "(or 'auto'/'AUTO'), ids any texts of 0-2 characters; requested scope None, 'auto', any "
              "text of 0-2 characters or a scope's text in another casing; fallback on, off, default",
              "all 14 entity classes (one uid)",
              "link comparisons: scopes and ids of 0-2 characters on both sides"],
    "thorough": ["scopes and ids of up to 3 characters"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["characters: Latin-1 without \u00b5, \u00df and \u00ff"]
COVERS = {"all": ["exact", "other casing", "fallback", "no uids", "no such scope", "new uid",
                  "equal pair", "different pair"]}

MAKE = {"process": lambda: ProcessRun("p"), "material": lambda: MaterialSpec("m"),
        "ingredient": lambda: IngredientRun(),
        "template": lambda: PropertyTemplate("t", bounds=IntegerBounds(0, 1))}


def fill(t, n, hi):
    """n symbolic uids without a clash."""
    us = []
    for i in range(n):
        s = t.str("s%d" % i, 0, hi)
        if i == 0 and t.flag("auto"):
            s = t.choice("which", ["auto", "AUTO", "Auto"])
        for s2, _ in us:
            t.assume(s.lower() != s2.lower())
        us.append((s, t.str("u%d" % i, 0, 1 if i else hi)))
    return us


def request(t, us, hi):
    k = t.pick("req", 4)
    if k == 0:
        return None
    if k == 1:
        return "auto"
    if k == 2 or not us:
        return t.str("scope", 0, hi)
    s = us[t.pick("of", len(us))][0]
    return s.lower() if t.flag("low") else s.upper()


def of_scope(t, us, scope):
    """[(condition, id)] by scope."""
    return [(s.lower() == scope.lower(), u) for s, u in us]


def check_link(t, x, link, us):
    t.check(type(link) is LinkByUID, "a link")
    t.check(t.any(*[t.all(link.scope.lower() == s.lower(), link.id == u) for s, u in us]),
            "scope and id are one of the uids")
    t.check(link == x and x == link, "the link equals the entity")
    t.check(link == (link.scope, link.id), "the link equals the pair")
    t.check(t.hash_eq(link, (link.scope, link.id)), "the link hashes like the pair")


def same_uids(t, x, us):
    t.check(len(x.uids) == len(us), "number of uids")
    for (a, b), (s, u) in zip(x.uids.items(), us):
        t.check(t.all(a == s, b == u), "uids are unchanged")


def build(t, kind, us):
    x = MAKE[kind]() if kind in MAKE else cat.minimal(kind)
    for s, u in us:
        x.add_uid(s, u)
    return x


def h_to_link(t, kind, n, hi):
    us = fill(t, n, hi)
    x = build(t, kind, us)
    scope = request(t, us, hi)
    fb = t.pick("fallback", 3)
    a = [] if scope is None and t.flag("omit") else [scope]
    out = t.attempt(x.to_link, *a, **([{}, {"allow_fallback": False}, {"allow_fallback": True}][fb]))
    same_uids(t, x, us)
    if not us:
        t.must_raise(out, ValueError, "no uids")
        t.cover("no uids")
        return
    if scope is None:
        check_link(t, x, t.must(out, "any uid"), us)
        return
    hits = of_scope(t, us, scope)
    present = t.any(*[c for c, _ in hits])
    if not out.ok:
        t.must_raise(out, ValueError, "no such scope")
        t.check(t.no(present), "refused although the scope is there")
        t.check(fb != 2, "refused although fallback is allowed")
        t.cover("no such scope")
        return
    link = out.value
    check_link(t, x, link, us)
    for c, u in hits:
        t.check(t.implies(c, t.all(link.scope.lower() == scope.lower(), link.id == u)),
                "the uid of the requested scope")
    if fb != 2:
        t.check(present, "another scope without fallback")
        t.cover("exact")
    elif not t.is_true(present):
        t.cover("fallback")
    if t.is_true(t.all(link.scope != us[0][0], link.scope.lower() == us[0][0].lower())):
        t.cover("other casing")


def h_from_entity(t, kind, n, hi):
    us = fill(t, n, hi)
    x = build(t, kind, us)
    scope = request(t, us, hi)
    k = {} if scope is None and t.flag("omit") else {"scope": scope}
    link = t.must(t.attempt(LinkByUID.from_entity, x, **k), "from_entity")
    want = "auto" if scope is None else scope
    if not us:
        t.check(len(x.uids) == 1, "one new uid")
        (s, u), = x.uids.items()
        t.check(isinstance(u, str) and len(u) > 0, "a new id")
        t.check(s == want, "in the requested scope")
        check_link(t, x, link, [(s, u)])
        again = t.must(t.attempt(LinkByUID.from_entity, x, **k), "from_entity again")
        t.check(t.all(again.scope == link.scope, again.id == link.id), "the same link again")
        t.check(len(x.uids) == 1, "no further uid")
        t.cover("new uid")
        return
    same_uids(t, x, us)
    check_link(t, x, link, us)
    hits = of_scope(t, us, want)
    for c, u in hits:
        t.check(t.implies(c, t.all(link.scope.lower() == want.lower(), link.id == u)),
                "the uid of the requested scope")
    if not t.is_true(t.any(*[c for c, _ in hits])):
        t.cover("fallback")


def h_pairs(t, hi):
    a, b, c, d = t.str("a", 0, hi), t.str("b", 0, hi), t.str("c", 0, hi), t.str("d", 0, hi)
    x, y = LinkByUID(a, b), LinkByUID(c, d)
    same = t.all(a == c, b == d)
    t.check(t.iff(x == (c, d), same), "link and pair")
    t.check(t.iff((c, d) == x, same), "pair and link")
    t.check(t.iff(x == y, same), "two links")
    t.check(t.iff(x != y, t.no(same)), "different links")
    if t.is_true(same):
        t.check(t.hash_eq(x, y), "equal links hash alike")
        t.check(t.hash_eq(x, (c, d)), "link and pair hash alike")
        t.check({x: 1}.get((c, d)) == 1 and {(c, d): 1}.get(x) == 1, "interchangeable keys")
        t.cover("equal pair")
    else:
        t.cover("different pair")
    for z in ((c,), (a, b, c), (), [a, b], None, a, {"scope": a, "id": b}):
        t.check(not (x == z), "not equal to something else")
    t.check(x == x, "reflexive")


def cases(tier):
    hi = 3 if tier == "thorough" else 2
    out = []
    for n in range(4):
        h = hi if n < 3 else 1
        for kind in MAKE if n < 2 else ("process",):
            out.append(case("h_to_link", kind=kind, n=n, hi=h, weight=n))
            out.append(case("h_from_entity", kind=kind, n=n, hi=h, weight=n))
    for kind in cat.CLASSES:
        for n in (0, 1):
            out.append(case("h_to_link", kind=kind, n=n, hi=1))
            out.append(case("h_from_entity", kind=kind, n=n, hi=1))
    out.append(case("h_pairs", hi=1 if tier != "thorough" else 2))
    return out
