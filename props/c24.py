"""C24: An ingredient run's name and labels follow its spec."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.json import GEMDJson
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.object import IngredientRun, IngredientSpec, ProcessRun, MaterialRun, ProcessSpec
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import flatten, substitute_links

BOUNDS = {
    "quick": ["histories of 3 operations among: assigning one of two specs, a link or None, editing "
              "a spec's name or labels (assignment, append, item, removal), a refused assignment, and "
              "reading; names and labels any texts of 1-2 characters, 0-2 labels; observed after "
              "every operation",
              "then one of: from_dict(as_dict), build(dump), JSON copy of the run, or of its process, "
              "flattening"],
    "thorough": ["histories of 4 operations"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["the text form of JSON is modelled as the document it denotes"]
COVERS = {"all": ["follows", "kept without spec", "kept with link", "new spec", "never had one",
                  "round trip", "refused"]}


class Model:
    def __init__(self, t):
        self.t = t
        self.specs, self.names, self.labels = [], [], []
        for i in range(2):
            n = t.str("n%d" % i, 1, 1)
            ls = [t.str("l%d%d" % (i, j), 1, 1) for j in range(i + 1)]
            self.specs.append(IngredientSpec(n, labels=list(ls), uids={"s": "spec%d" % i}))
            self.names.append(n)
            self.labels.append(ls)
        self.at, self.name, self.lab = None, None, None
        self.link = None
        self.run = IngredientRun(uids={"r": "run"})

    def expected(self):
        if self.at is not None:
            return self.names[self.at], self.labels[self.at]
        return self.name, self.lab

    def leave(self):
        if self.at is not None:
            self.name, self.lab = self.names[self.at], list(self.labels[self.at])
        self.at, self.link = None, None

    def check(self, run, where):
        t = self.t
        n, ls = self.expected()
        if n is None:
            t.check(run.name is None, "no name: " + where)
            t.check(not run.labels, "no labels: " + where)
            t.cover("never had one")
            return
        t.check(isinstance(run.name, str) and run.name == n, "name: " + where)
        got = run.labels
        t.check(isinstance(got, list) and len(got) == len(ls), "number of labels: " + where)
        t.check(t.all(*[a == b for a, b in zip(got, ls)]), "labels: " + where)
        t.cover("follows" if self.at is not None else
                "kept with link" if self.link else "kept without spec")


OPS = ["spec0", "spec1", "link", "none", "rename", "labels=", "labels+", "labels[]", "labels-",
       "refused", "direct"]


def step(t, m, i, op):
    k = m.at if m.at is not None else i % 2      # the spec that an edit is made on
    if t.flag("other%d" % i) and op in ("rename", "labels=", "labels+"):
        k = 1 - k
    s = m.specs[k]
    if op in ("spec0", "spec1"):
        if m.at is not None and m.at != int(op[4]):
            t.cover("new spec")
        m.leave()
        m.run.spec = m.specs[int(op[4])]
        m.at = int(op[4])
    elif op == "link":
        m.leave()
        m.run.spec = m.link = LinkByUID("s", "elsewhere")
    elif op == "none":
        m.leave()
        m.run.spec = None
    elif op == "rename":
        s.name = m.names[k] = t.str("x%d" % i, 1, 2)
    elif op == "labels=":
        m.labels[k] = [t.str("x%d.%d" % (i, j), 1, 1) for j in range(t.pick("k%d" % i, 3))]
        s.labels = list(m.labels[k])
    elif op == "labels+":
        x = t.str("x%d" % i, 1, 1)
        s.labels.append(x)
        m.labels[k] = m.labels[k] + [x]
    elif op == "labels[]":
        if m.labels[k]:
            x = t.str("x%d" % i, 1, 1)
            s.labels[0] = x
            m.labels[k] = [x] + m.labels[k][1:]
    elif op == "labels-":
        if m.labels[k]:
            del s.labels[-1]
            m.labels[k] = m.labels[k][:-1]
    elif op == "refused":
        bad = t.choice("bad%d" % i, [ProcessSpec("p"), "text", 5, IngredientRun()])
        before = m.run.spec
        t.must_raise(t.attempt(setattr, m.run, "spec", bad), TypeError, "a spec of another kind")
        t.check(m.run.spec is before, "the spec is kept")
        t.cover("refused")
    elif op == "direct":
        t.must_raise(t.attempt(setattr, m.run, "name", "x"), AttributeError, "name is not set directly")
        t.must_raise(t.attempt(setattr, m.run, "labels", ["x"]), AttributeError,
                     "labels are not set directly")


def history(t, ops):
    m = Model(t)
    if ops[0].startswith("made:"):
        kind = ops[0][5:]
        if kind == "spec":
            m.run = IngredientRun(uids={"r": "run"}, spec=m.specs[0])
            m.at = 0
        elif kind == "link":
            m.link = LinkByUID("s", "elsewhere")
            m.run = IngredientRun(uids={"r": "run"}, spec=m.link)
        ops = ops[1:]
    m.check(m.run, "at first")
    for i, op in enumerate(ops):
        step(t, m, i, op)
        m.check(m.run, "after %s" % op)
    return m


def h_history(t, ops):
    history(t, ops)


def h_trip(t, ops, how):
    m = history(t, ops)
    x = m.run
    if how == "dict":
        y = t.must(t.attempt(IngredientRun.from_dict, x.as_dict()), "from_dict")
    elif how == "build":
        y = t.must(t.attempt(DictSerializable.build, x.dump()), "build")
    elif how == "json":
        y = t.must(t.attempt(GEMDJson().copy, x), "copy")
    elif how == "process":
        p = ProcessRun("p", uids={"p": "p"})
        x.process = p
        q = t.must(t.attempt(GEMDJson().copy, p), "copy")
        t.check(len(q.ingredients) == 1, "the ingredient of the process")
        y = q.ingredients[0]
    elif how == "flatten":
        es = t.must(t.attempt(flatten, x, "auto"), "flatten")
        y = [e for e in es if isinstance(e, IngredientRun)][0]
    elif how == "links":
        y = t.must(t.attempt(substitute_links, x), "substitute_links")
        t.check(y.spec is None or isinstance(y.spec, LinkByUID), "a link")
    t.check(y is not x and isinstance(y, IngredientRun), "another run")
    m.check(y, "by " + how)
    m.check(x, "the original")
    t.cover("round trip")
    if isinstance(y.spec, IngredientSpec):
        n = t.str("after", 1, 1)
        y.spec.name = n
        t.check(y.name == n, "the copy follows its own spec")
        y.spec = None
        t.check(y.name == n, "and keeps its name without it")
    else:
        y.spec = m.specs[1]
        t.check(y.name == m.names[1], "a new spec is followed")
        y.spec = LinkByUID("q", "q")
        t.check(y.name == m.names[1], "and kept")


def cases(tier):
    out = []
    th = tier == "thorough"
    firsts = ["made:spec", "made:link", "made:none"]
    for f in firsts:
        for a in OPS:
            for b in OPS:
                out.append(case("h_history", ops=[f, a, b]))
                for c in OPS if th else ("link", "none", "labels+", "spec1"):
                    if th or (f == "made:spec" or a.startswith("spec")):
                        out.append(case("h_history", ops=[f, a, b, c]))
                        if th and f == "made:spec":
                            for d in ("link", "none", "rename", "spec1"):
                                out.append(case("h_history", ops=[f, a, b, c, d]))
    for how in ("dict", "build", "json", "process", "flatten", "links"):
        for ops in (["made:spec"], ["made:link"], ["made:none"], ["made:spec", "rename", "labels+"],
                    ["made:spec", "link"], ["made:spec", "none"], ["made:spec", "labels-", "none"],
                    ["made:link", "spec1", "labels=", "link"], ["made:none", "spec0", "spec1"],
                    ["made:spec", "spec1", "none", "rename"]):
            out.append(case("h_trip", ops=ops, how=how))
    return out
