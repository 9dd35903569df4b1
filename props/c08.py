"""C08: Two-sided links stay consistent under any assignment history."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec,
                                IngredientRun, IngredientSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.link_by_uid import LinkByUID

BOUNDS = {
    "quick": ["histories of construction plus 3 assignments over 2 holders (processes/materials) "
              "and 2-3 dependents whose text fields and uids are symbolic (so that any of them "
              "may compare equal); each assignment to either holder, a link, None or one of 2 "
              "refused objects (4 for single assignments); ingredient runs and specs, measurement "
              "runs, material runs and specs, and ingredients mixed with output materials; one "
              "assignment where lists hold links to dependents with symbolic uids"],
    "thorough": ["4 assignments"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + [
    "the histories of the known findings (known_findings.json: ingredient and material specs that "
    "refuse a process while in one, that leave past an equal ingredient spec, or that leave a "
    "process which produces another material) are decided on their own, not in longer histories"]
COVERS = {"all": ["moved", "refused", "same", "stolen", "by link"]}

KINDS = {
    "ingredient_run": (lambda n, **k: IngredientRun(notes=n, **k), lambda n: ProcessRun(n),
                       "process", "ingredients"),
    "ingredient_spec": (lambda n, **k: IngredientSpec("i", notes=n, **k), lambda n: ProcessSpec(n),
                        "process", "ingredients"),
    "measurement": (lambda n, **k: MeasurementRun(n, **k), lambda n: MaterialRun(n),
                    "material", "measurements"),
    "material_run": (lambda n, **k: MaterialRun(n, **k), lambda n: ProcessRun(n),
                     "process", "output_material"),
    "material_spec": (lambda n, **k: MaterialSpec(n, **k), lambda n: ProcessSpec(n),
                      "process", "output_material"),
}
WRONG = {"ingredient_run": [ProcessSpec("w"), "text", 5, MaterialRun("w")],
         "ingredient_spec": [ProcessRun("w"), "text", 5, MaterialSpec("w")],
         "measurement": [MaterialSpec("w"), "text", 5, ProcessRun("w")],
         "material_run": [ProcessSpec("w"), "text", 5, MaterialRun("w")],
         "material_spec": [ProcessRun("w"), "text", 5, MaterialSpec("w")]}


SPECS = ("ingredient_spec", "material_spec")


class World:
    """Dependents of one or two kinds over the same holders, and what they should hold."""

    def __init__(self, t, kinds, n):
        self.t = t
        make_holder = KINDS[kinds[0]][1]
        self.holders = [make_holder(t.str("h%d" % i, 1, 1)) for i in range(2)]
        self.deps = []          # [object, kind, expected target]
        self.out = [None, None]
        self.order = {k: [[], []] for k in kinds}
        for j, kind in enumerate(kinds):
            for i in range(n):
                at = t.pick("start.%d.%d" % (j, i), 3)
                kw = {}
                if at < 2:
                    kw[KINDS[kind][2]] = self.holders[at]
                o = KINDS[kind][0](t.str("d%d.%d" % (j, i), 1, 1), **kw)
                self.deps.append([o, kind, None])
                if at < 2:
                    self.note(len(self.deps) - 1, self.holders[at])
                self.consistent("after construction")

    def note(self, i, target):
        o, kind, _ = self.deps[i]
        hold = [h for h in range(2) if target is self.holders[h]]
        if KINDS[kind][3] == "output_material":
            for h in range(2):
                if self.out[h] is o:
                    self.out[h] = None
            for h in hold:
                if self.out[h] is not None:
                    self.t.cover("stolen")
                self.out[h] = o
        self.deps[i][2] = target

    def consistent(self, what):
        t = self.t
        for o, kind, target in self.deps:
            t.check(getattr(o, KINDS[kind][2]) is target, what + ": the dependent's own side")
        for kind in set(k for _, k, _ in self.deps):
            soft = KINDS[kind][3]
            for h in range(2):
                H = self.holders[h]
                if soft == "output_material":
                    m = H.output_material
                    t.check(m is self.out[h], what + ": output_material")
                    t.check(m is None or m.process is H, what + ": output_material points back")
                    continue
                lst = getattr(H, soft)
                want = [o for o, k, target in self.deps if k == kind and target is H]
                t.check(len(lst) == len(want), what + ": number of " + soft)
                for o in want:
                    t.check(len([x for x in lst if x is o]) == 1, what + ": membership of " + soft)

    def assign(self, name, first=None, bad=2):
        t = self.t
        i = t.pick(name + ".who", len(self.deps)) if first is None else first
        o, kind, old = self.deps[i]
        k = t.pick(name + ".to", 5)
        if k < 2:
            target = self.holders[k]
        elif k == 2:
            target = LinkByUID("s", "x")
        elif k == 3:
            target = None
        else:
            if kind in SPECS:       # known finding, decided by h_spec_refused
                t.assume(not any(old is h for h in self.holders))
            bad = t.choice(name + ".bad", WRONG[kind][:bad])
            t.must_raise(t.attempt(setattr, o, KINDS[kind][2], bad), TypeError, "wrong type")
            t.cover("refused")
            self.consistent("after a refused assignment")
            return
        if kind in SPECS:           # known findings, decided by h_spec_equal and h_spec_leaving
            self.avoid(o, kind, old)
        t.cover("same" if target is old else "moved")
        t.must(t.attempt(setattr, o, KINDS[kind][2], target), "assignment")
        self.note(i, target)
        self.consistent("after an assignment")


    def avoid(self, o, kind, old):
        """Leave out the histories of the known findings."""
        for h in range(2):
            if old is not self.holders[h]:
                continue
            if kind == "material_spec":
                self.t.assume(self.out[h] is o)
            else:
                for x in self.holders[h].ingredients:
                    if x is o:
                        break
                    self.t.assume(x.notes != o.notes)


def h_spec_refused(t, kind):
    """A spec that is in a process, and refuses another: nothing changes."""
    make, holder, hard, soft = KINDS[kind]
    H = holder(t.str("h", 1, 1))
    o = make(t.str("d", 1, 1), **{hard: H})
    bad = t.choice("bad", WRONG[kind])
    t.must_raise(t.attempt(setattr, o, hard, bad), TypeError, "wrong type")
    t.check(o.process is H, "the dependent's own side")
    cur = getattr(H, soft)
    t.check(cur is o if soft == "output_material" else len(cur) == 1, "refused, but detached")


def h_spec_equal(t):
    """Of two ingredient specs in a process, equal or not, the one that leaves is detached."""
    H = ProcessSpec("p")
    xs = [IngredientSpec("i", notes=t.str("d%d" % i, 1, 1), process=H) for i in range(2)]
    to = t.choice("to", [None, LinkByUID("s", "x"), H, ProcessSpec("q")])
    xs[1].process = to
    t.check(len([x for x in H.ingredients if x is xs[0]]) == 1, "an equal ingredient was detached")
    t.check(len([x for x in H.ingredients if x is xs[1]]) == (1 if to is H else 0), "still attached")


def h_spec_leaving(t):
    """A material spec leaves a process that produces another by now."""
    H = ProcessSpec("p")
    xs = [MaterialSpec(t.str("d%d" % i, 1, 1), process=H) for i in range(2)]
    xs[0].process = t.choice("to", [None, LinkByUID("s", "x"), ProcessSpec("q")])
    t.check(xs[1].process is H and H.output_material is xs[1], "another material was detached")


def h_history(t, kinds, n, steps, first=None, bad=2):
    w = World(t, kinds, n)
    for s in range(steps):
        w.assign("s%d" % s, first if s == 0 else None, bad)


def h_linked(t, kind):
    """A list whose entries were replaced by links to the same dependents (a flattened holder)."""
    make, holder, hard, soft = KINDS[kind]
    hs = [holder("p"), holder("q")]
    ids = [t.str("u%d" % i, 1, 1) for i in range(2)]
    t.assume(ids[0] != ids[1])
    ds = [make("d", uids={"a": u}, **{hard: hs[0]}) for u in ids]
    entries = getattr(hs[0], soft)
    for i in range(2):
        if t.flag("link%d" % i):
            entries[i] = LinkByUID("a", ids[i])
    who, to = t.pick("who", 2), t.pick("to", 3)
    target = [None, LinkByUID("a", "x"), hs[1]][to]
    stay = entries[1 - who]
    t.must(t.attempt(setattr, ds[who], hard, target), "assignment")
    t.check(getattr(ds[who], hard) is target and getattr(ds[1 - who], hard) is hs[0], "own sides")
    left, new = getattr(hs[0], soft), getattr(hs[1], soft)
    t.check(len(left) == 1 and left[0] is stay, "the entry of the one that left is gone")
    t.check(len(new) == (1 if to == 2 else 0) and (to != 2 or new[0] is ds[who]), "the new holder")
    t.cover("by link")


def h_refused_construction(t, kind):
    """A refused construction leaves no trace in anything but (possibly) the holder."""
    make, holder, hard, soft = KINDS[kind]
    H = holder("h")
    before = make(t.str("a", 1, 1), **{hard: H})
    for bad in WRONG[kind]:
        t.must_raise(t.attempt(lambda: make(t.str("b%d" % WRONG[kind].index(bad), 1, 1),
                                            **{hard: bad})), TypeError, "wrong type")
    cur = getattr(H, soft)
    t.check(cur is before if soft == "output_material" else
            (len(cur) == 1 and cur[0] is before), "holder changed")


def cases(tier):
    out = []
    steps = 3 if tier == "quick" else 4
    for kind in KINDS:
        for first in range(2):
            out.append(case("h_history", kinds=[kind], n=2, steps=steps, first=first, weight=9))
            out.append(case("h_history", kinds=[kind], n=3, steps=steps - 1, first=first, weight=8))
        out.append(case("h_history", kinds=[kind], n=2, steps=1, bad=4, weight=2))
        out.append(case("h_refused_construction", kind=kind))
    for kind in ("ingredient_run", "ingredient_spec", "measurement"):
        out.append(case("h_linked", kind=kind))
    out += [case("h_spec_refused", kind="ingredient_spec"), case("h_spec_refused", kind="material_spec"),
            case("h_spec_equal"), case("h_spec_leaving")]
    for ks in (["ingredient_run", "material_run"], ["ingredient_spec", "material_spec"]):
        for first in range(2):
            out.append(case("h_history", kinds=ks, n=1, steps=steps - 1, first=first, weight=5))
    return out
