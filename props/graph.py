"""A material history whose links may each be present or absent, and comparison of two graphs."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.attribute import Parameter, Condition, Property, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.value import NominalInteger
from gemd.entity.template import (ParameterTemplate, PropertyTemplate, ConditionTemplate,
                                  ProcessTemplate, MaterialTemplate)
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                IngredientSpec, MeasurementRun, MeasurementSpec)

# (from, field, to): the writable links of the history
EDGES = [
    ("mr", "process", "pr"), ("ms", "process", "ps"), ("pr", "spec", "ps"), ("mr", "spec", "ms"),
    ("ir", "process", "pr2"), ("is", "process", "ps2"), ("ir", "material", "mr"),
    ("is", "material", "ms"), ("ir", "spec", "is"), ("mr2", "process", "pr2"),
    ("pr2", "spec", "ps2"), ("me", "material", "mr"), ("me", "spec", "mes"),
    ("ps", "template", "tpl"), ("tpl", "parameters", "att"), ("pr", "parameters", "att"),
    ("ps2", "template", "tpl"), ("mes", "conditions", "cnd"), ("ms", "properties", "prp"),
    ("me", "properties", "prp"),
]
MAKE = {"att": lambda n: ParameterTemplate(n, bounds=IntegerBounds(0, 9)),
        "cnd": lambda n: ConditionTemplate(n, bounds=IntegerBounds(0, 9)),
        "prp": lambda n: PropertyTemplate(n, bounds=IntegerBounds(0, 9)),
        "tpl": ProcessTemplate, "ps": ProcessSpec, "ms": MaterialSpec, "ps2": ProcessSpec,
        "is": IngredientSpec, "mes": MeasurementSpec, "pr": ProcessRun, "mr": MaterialRun,
        "pr2": ProcessRun, "mr2": MaterialRun, "ir": None, "me": MeasurementRun}
ORDER = ["att", "cnd", "prp", "tpl", "ps", "ms", "ps2", "is", "mes", "pr", "mr", "pr2", "mr2", "ir",
         "me"]

# Ids that differ from each other in as little as they can: same id under another scope, same
# letters in another case, the empty text, one id equal to a scope, several ids of one entity.
UIDS = {"att": {"a": "1"}, "cnd": {"b": "1"}, "prp": {"c": "1"}, "tpl": {"A": "x"},
        "ps": {"a": "X"}, "ms": {"b": "", "a": "2"}, "ps2": {"a": ""}, "is": {"b": "x", "c": "x"},
        "mes": {"a": "a"}, "pr": {"d": "1"}, "mr": {"b": "a"}, "pr2": {"a": "b"}, "mr2": {"c": "X"},
        "ir": {"c": ""}, "me": {"d": "x", "A": "Xx"}}


class Graph:
    def __init__(self, t, free, rest, uids="none", make=ORDER):
        self.t = t
        self.node, self.label, self.uids0 = {}, {}, {}
        for i, n in enumerate(make):
            kw = {}
            if uids == "all" or (uids == "some" and i % 2):
                kw["uids"] = dict(UIDS[n])
            if n == "ir":
                x = IngredientRun(notes=n, **kw)
            else:
                x = MAKE[n](n)
                if kw:
                    x.uids = kw["uids"]
            self.node[n] = x
            self.label[id(x)] = n
            self.uids0[n] = dict(kw.get("uids", {}))
        self.edges = []
        for i, (a, f, b) in enumerate(EDGES):
            if a not in self.node or b not in self.node:
                continue
            on = t.flag("e%d" % i) if i in free else rest == "on"
            if on:
                self.link(a, f, b)
                self.edges.append((a, f, b))

    def link(self, a, f, b):
        x, y = self.node[a], self.node[b]
        if f == "parameters" and a == "tpl":
            x.parameters.append(y)
        elif f == "parameters":
            x.parameters.append(Parameter("par", template=y, value=NominalInteger(3)))
        elif f == "conditions":
            x.conditions.append(Condition("con", template=y))
        elif f == "properties" and a == "ms":
            x.properties.append(PropertyAndConditions(Property("pro", template=y)))
        elif f == "properties":
            x.properties.append(Property("pro", template=y))
        else:
            setattr(x, f, y)

    # ------------------------------------------------------------------ facts about the graph
    def out(self, n, soft=True):
        """Names of the nodes that n refers to."""
        res = [b for a, f, b in self.edges if a == n]
        if soft:
            res += [a for a, f, b in self.edges if b == n and
                    (a in ("ir", "is") and f == "process" or a == "me" and f == "material" or
                     a in ("mr", "ms", "mr2") and f == "process")]
        return res

    def reach(self, starts, soft=True):
        seen, todo = [], list(starts)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.append(n)
                todo += self.out(n, soft)
        return seen

    def name_of(self, x):
        """The label of an original or restored entity (carried in its name or notes)."""
        n = x.notes if isinstance(x, IngredientRun) else x.name
        return n

    def refs(self, x):
        """The links of an entity as the code presents them: {(field): [targets]}"""
        out = {}
        for f in ("process", "material", "spec", "template", "output_material"):
            if hasattr(x, f):
                if f == "template" and not hasattr(type(x), "_template_type"):
                    continue
                if f == "template" and isinstance(getattr(type(x), "template", None), property) \
                        and type(x).template.fset is None:
                    continue
                v = getattr(x, f)
                if v is not None:
                    out[f] = [v]
        for f in ("ingredients", "measurements"):
            if hasattr(x, f):
                out[f] = list(getattr(x, f))
        for f in ("parameters", "conditions", "properties"):
            if hasattr(x, f):
                vs = []
                for e in getattr(x, f):
                    if isinstance(e, (list, tuple)):
                        vs.append(e[0])
                    else:
                        e = getattr(e, "property", e)
                        if e.template is not None:
                            vs.append(e.template)
                out[f] = vs
        return {f: v for f, v in out.items() if v}

    def expected_refs(self, n):
        out = {}
        for a, f, b in self.edges:
            if a == n:
                out.setdefault(f, []).append(b)
            if b == n:
                if a in ("ir", "is") and f == "process":
                    out.setdefault("ingredients", []).append(a)
                if a == "me" and f == "material":
                    out.setdefault("measurements", []).append(a)
                if a in ("mr", "ms", "mr2") and f == "process":
                    out.setdefault("output_material", []).append(a)
        return out

    def hard_refs(self, n):
        """{field: [labels]} on the writable side."""
        out = {}
        for a, f, b in self.edges:
            if a == n:
                out.setdefault(f, []).append(b)
        return out

    # ------------------------------------------------------------------------- comparisons
    def names(self, link, b):
        """The link carries a uid of node b."""
        u = self.node[b].uids
        return type(link) is LinkByUID and link.scope in list(u) and u[link.scope] == link.id

    def flat(self, entry, n):
        """The entry is node n with links in place of the entities it refers to."""
        t, x = self.t, self.node[n]
        t.check(type(entry) is type(x), "kind of %s" % n)
        t.check(entry is not x, "the entry is a copy")
        t.check(self.name_of(entry) == n, "content of %s" % n)
        t.check(dict(entry.uids) == dict(x.uids), "uids of %s" % n)
        got, want = self.refs(entry), self.hard_refs(n)
        for f in want:
            t.check(f in got and len(got[f]) == len(want[f]), "links of %s.%s" % (n, f))
            for v, b in zip(got[f], want[f]):
                t.check(self.names(v, b), "link of %s.%s" % (n, f))
        for f, vs in got.items():
            for v in vs:
                t.check(type(v) is LinkByUID, "nested entity")
            t.check(f in want or f in ("ingredients", "measurements", "output_material"),
                    "extra links %s.%s" % (n, f))

    def check_links(self, image, linked=False):
        """The entities in image {label: entity} are linked exactly as the graph says."""
        t = self.t
        for n, x in image.items():
            got, want = self.refs(x), self.expected_refs(n)
            t.check(sorted(got) == sorted(want), "links present on %s" % n)
            for f in want:
                t.check(len(got[f]) == len(want[f]), "number of links: %s.%s" % (n, f))
                for b in want[f]:
                    t.check(any(v is image[b] for v in got[f]), "link %s.%s" % (n, f))

    def isomorphic(self, roots, copies):
        """The copies of the roots span a copy of everything reachable from the roots."""
        t = self.t
        image = {}
        todo = [(self.label[id(r)], c) for r, c in zip(roots, copies)]
        while todo:
            n, c = todo.pop()
            if n in image:
                t.check(image[n] is c, "one copy of each entity")
                continue
            x = self.node[n]
            t.check(type(c) is type(x), "kind of a copy")
            t.check(c is not x, "a copy")
            t.check(self.name_of(c) == n, "content of a copy")
            t.check(dict(c.uids) == dict(x.uids), "uids of a copy")
            image[n] = c
            for f, vs in self.refs(c).items():
                for v in vs:
                    t.check(isinstance(v, BaseEntity), "link left in a copy")
                    todo.append((self.name_of(v), v))
        t.check(sorted(image) == sorted(self.reach([self.label[id(r)] for r in roots])),
                "everything reachable is restored")
        self.check_links(image)
        return image

    def unchanged(self, scope=None, reached=None):
        """The originals are as built; entities that had no uid may have one in `scope`."""
        t = self.t
        for n, x in self.node.items():
            t.check(self.name_of(x) == n, "original changed")
            if self.uids0[n]:
                t.check(dict(x.uids) == self.uids0[n], "original uids changed")
            elif reached is None:
                t.check(len(x.uids) == 0 or (scope is not None and list(x.uids) == [scope]),
                        "original uids")
            else:
                t.check(list(x.uids) == ([scope] if n in reached and scope is not None else []),
                        "original uids")
        self.check_links(self.node)
