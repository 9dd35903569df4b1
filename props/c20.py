"""C20: make_instance mirrors the spec graph with runs."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.util import make_instance
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                IngredientSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.template import ProcessTemplate, MaterialTemplate
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["3 material, 2 process and 2 ingredient specs: every choice of each material's process, "
              "each ingredient's process and material (none or any; cycles included), from a "
              "material, a process or an ingredient",
              "2 material, 2 process and 3 ingredient specs: the ingredients' links free, the "
              "materials' in 4 patterns",
              "names: any Latin-1 texts of one character, possibly equal; with and without uids, "
              "templates and other content",
              "every other kind of argument"],
    "thorough": ["2 material, 2 process and 3 ingredient specs with all links free; 4 ingredients of "
                 "one process"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["specs refer to each other as objects, not through links"]
COVERS = {"all": ["shared", "cycle", "two ingredients", "refused", "measurement", "equal names"]}
RUN = {MaterialSpec: MaterialRun, ProcessSpec: ProcessRun, IngredientSpec: IngredientRun,
       MeasurementSpec: MeasurementRun}


class Specs:
    def __init__(self, t, nm, np, ni, mp, names="symbolic"):
        self.t = t

        def name(n):
            return t.str(n, 1, 1) if names == "symbolic" else \
                ("same" if names == "same" else n)
        self.ps = [ProcessSpec(name("p%d" % i)) for i in range(np)]
        self.ms = [MaterialSpec(name("m%d" % i)) for i in range(nm)]
        self.ins = [IngredientSpec(name("i%d" % i), labels=["l"], notes="n") for i in range(ni)]
        if names == "same":
            t.cover("equal names")
        for i, m in enumerate(self.ms):
            k = t.pick("mp%d" % i, np + 1) if mp is None else mp[i]
            if k:
                m.process = self.ps[k - 1]
        for i, x in enumerate(self.ins):
            k = t.pick("ip%d" % i, np + 1)
            if k:
                x.process = self.ps[k - 1]
            k = t.pick("im%d" % i, nm + 1)
            if k:
                x.material = self.ms[k - 1]
        self.all = self.ps + self.ms + self.ins
        self.before = self.snapshot()

    def snapshot(self):
        return [(x.name, dict(x.uids), x.template if not isinstance(x, IngredientSpec) else None,
                 id(getattr(x, "process", None)), id(getattr(x, "material", None)),
                 id(getattr(x, "output_material", None)),
                 [id(y) for y in getattr(x, "ingredients", [])], x.notes, list(x.tags))
                for x in self.all]


def spec_refs(s):
    """The specs that a spec leads to."""
    if isinstance(s, MaterialSpec):
        return [s.process] if s.process is not None else []
    if isinstance(s, ProcessSpec):
        return list(s.ingredients)
    if isinstance(s, IngredientSpec):
        return [s.material] if s.material is not None else []
    return []


def mirror(t, root, run):
    """run mirrors everything that root leads to."""
    image, todo = {}, [(root, run)]
    order = []
    while todo:
        s, r = todo.pop()
        if id(s) in image:
            t.check(image[id(s)][1] is r, "one run for each spec")
            t.cover("shared")
            continue
        image[id(s)] = (s, r)
        order.append(s)
        t.check(type(r) is RUN[type(s)], "the kind of run")
        t.check(r.spec is s, "its spec")
        t.check(r.name == s.name, "its name")
        t.check(len(r.uids) == 0 and len(r.tags) == 0 and r.notes is None, "nothing else is set")
        if isinstance(s, MaterialSpec):
            t.check((r.process is None) == (s.process is None), "a material's process")
            t.check(len(r.measurements) == 0, "no measurements")
            if s.process is not None:
                todo.append((s.process, r.process))
        elif isinstance(s, ProcessSpec):
            t.check(len(r.ingredients) == len(s.ingredients), "a process's ingredients")
            if len(r.ingredients) == 2:
                t.cover("two ingredients")
            t.check(all(y.spec is x for x, y in zip(s.ingredients, r.ingredients)),
                    "ingredients in the same order")
            for x in s.ingredients:
                hit = [y for y in r.ingredients if y.spec is x]
                t.check(len(hit) == 1, "one ingredient run for each ingredient spec")
                t.check(hit[0].process is r, "an ingredient's process")
                todo.append((x, hit[0]))
        elif isinstance(s, IngredientSpec):
            t.check(list(r.labels) == list(s.labels), "labels follow")
            t.check((r.material is None) == (s.material is None), "an ingredient's material")
            if s.material is not None:
                todo.append((s.material, r.material))
    # links to what is part of the result, and only to that
    for s, r in image.values():
        if isinstance(s, IngredientSpec):
            if s.process is not None and id(s.process) in image:
                t.check(r.process is image[id(s.process)][1], "an ingredient's process")
            else:
                t.check(r.process is None, "a process that is not reached")
        if isinstance(s, ProcessSpec):
            ms = [x for x, _ in image.values() if isinstance(x, MaterialSpec) and x.process is s]
            if not ms:
                t.check(r.output_material is None, "no output")
            else:
                t.check(any(r.output_material is image[id(x)][1] for x in ms), "an output material")
        if isinstance(s, (MaterialSpec,)):
            t.check(r.process is None or any(r.process is q for _, q in image.values()), "process")
    rs = [r for _, r in image.values()]
    t.check(all(not (a is b) for i, a in enumerate(rs) for b in rs[:i]), "distinct runs")
    return image


def h_specs(t, nm, np, ni, start, mp=None, names="fixed"):
    g = Specs(t, nm, np, ni, mp, names)
    root = {"m": lambda: g.ms[0], "p": lambda: g.ps[0], "i": lambda: g.ins[0]}[start]()
    run = t.must(t.attempt(make_instance, root), "make_instance")
    t.check(g.snapshot() == g.before, "the specs are unchanged")
    image = mirror(t, root, run)
    # a cycle: some spec leads back to itself
    for s, _ in image.values():
        seen, todo = [], spec_refs(s)
        while todo:
            x = todo.pop()
            if x is s:
                t.cover("cycle")
                break
            if not any(x is y for y in seen):
                seen.append(x)
                todo += spec_refs(x)
    again = t.must(t.attempt(make_instance, root), "again")
    t.check(again is not run, "new runs each time")
    second = mirror(t, root, again)
    for k, (_, r) in second.items():
        t.check(r is not image[k][1], "new runs each time")
    mirror(t, root, run)


def h_content(t):
    """Names are taken over; other content stays on the specs."""
    n = [t.str("n%d" % i, 1, 2) for i in range(3)]
    tpl, mt = ProcessTemplate("tpl"), MaterialTemplate("mt")
    ps = ProcessSpec(n[0], template=tpl if t.flag("t1") else LinkByUID("a", "b"), notes="x",
                     tags=["y"], uids={"u": "1"})
    ms = MaterialSpec(n[1], template=mt if t.flag("t2") else None, process=ps, uids={"u": "2"})
    mi = MaterialSpec(n[2])
    ing = IngredientSpec(n[2], material=mi, process=ps, labels=["a", "b"], uids={"u": "3"})
    run = t.must(t.attempt(make_instance, ms), "make_instance")
    mirror(t, ms, run)
    t.check(run.template is ms.template and run.process.template is ps.template, "templates follow")
    t.check(list(ms.uids.items()) == [("u", "2")] and ps.notes == "x", "specs unchanged")
    ing.name = t.str("new", 1, 1)
    t.check(run.process.ingredients[0].name == ing.name, "an ingredient's name is its spec's")


def h_measurement(t):
    s = MeasurementSpec(t.str("n", 1, 2), notes="x", uids={"a": "b"} if t.flag("u") else None)
    r = t.must(t.attempt(make_instance, s), "make_instance")
    t.check(type(r) is MeasurementRun and r.spec is s and r.name == s.name, "a measurement run")
    t.check(r.material is None and len(r.properties) == 0 and len(r.uids) == 0, "nothing else")
    t.cover("measurement")


def h_other(t):
    s = t.str("s", 0, 2)
    bad = t.choice("k", [None, 5, "", [], (), {}, ProcessRun("p"), MaterialRun("m"), IngredientRun(),
                         MeasurementRun("x"), LinkByUID("a", "b"), ProcessTemplate("t"),
                         MaterialTemplate("t"), [MaterialSpec("m")], ProcessSpec, object()])
    if bad == "":
        bad = s
    t.must_raise(t.attempt(make_instance, bad), TypeError, "not a spec")
    t.cover("refused")


def cases(tier):
    out = []
    for start in "mpi":
        for k in range(3 * 3 * 3):      # the materials' processes
            mp = [k % 3, k // 3 % 3, k // 9]
            out.append(case("h_specs", nm=3, np=2, ni=2, start=start, mp=mp, weight=2))
        for mp in ([1, 2], [1, 1], [2, 1], [0, 1]) if tier == "quick" else \
                [[i, j] for i in range(3) for j in range(3)]:
            out.append(case("h_specs", nm=2, np=2, ni=3, start=start, mp=mp, weight=5))
        for names in ("symbolic", "same"):
            out.append(case("h_specs", nm=2, np=1, ni=2, start=start, names=names))
        if tier == "thorough":
            out.append(case("h_specs", nm=2, np=1, ni=4, start=start, weight=5))
    out += [case("h_content"), case("h_measurement"), case("h_other")]
    return out
