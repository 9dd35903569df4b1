"""C07: The validation level is scoped."""
from props.common import case, ENGINE_ASSUMPTIONS
from gemd.entity.bounds_validation import (validation_level, set_validation_level,
                                           get_validation_level, WarningLevel)

BOUNDS = {
    "quick": ["every program of up to 4 steps over {enter a block at any level, leave it normally, "
              "leave it by an exception of any of 4 kinds, set the level, set an invalid level, "
              "enter with an invalid level}; initial level, levels symbolic: every integer in "
              "[-2^60, 2^60] or a member; other invalid types"],
    "thorough": ["up to 6 steps"],
}
ASSUMPTIONS = ENGINE_ASSUMPTIONS + ["one thread"]
COVERS = {"all": ["left", "left by exception", "refused", "nested"]}


class Custom(BaseException):
    pass


EXC = [ValueError, Custom, KeyboardInterrupt, StopIteration]


def level(t, name, kind):
    """(argument, resulting level or None)"""
    if kind == "member":
        m = t.choice(name, list(WarningLevel))
        return m, m
    if kind == "int":
        n = t.int(name)
        if t.is_true(t.all(n >= 0, n <= 2)):
            for m in WarningLevel:
                if t.is_true(n == m.value):
                    return n, m
        return n, None
    x = t.choice(name, [None, "FATAL", 1.5, [], -1, 3, "1"])
    return x, None


class Prog:
    def __init__(self, t, steps):
        self.t, self.steps, self.i, self.cur = t, steps, 0, None

    def check(self, what):
        got = get_validation_level()
        self.t.check(got == self.cur and isinstance(got, WarningLevel), what)

    def run(self, depth):
        """Interpret steps until this block is left; raises to leave by exception."""
        t = self.t
        while self.i < len(self.steps):
            s, k = self.steps[self.i], self.i
            self.i += 1
            if s == "set":
                x, m = level(t, "s%d" % k, "int")
                out = t.attempt(set_validation_level, x)
                if m is None:
                    t.must_raise(out, ValueError, "invalid level")
                    t.cover("refused")
                else:
                    t.must(out, "valid level")
                    self.cur = m
                self.check("level after set_validation_level")
            elif s == "bad":
                x, _ = level(t, "s%d" % k, "bad")
                t.must_raise(t.attempt(set_validation_level, x), ValueError, "invalid level")
                self.check("level after refused set_validation_level")
                t.cover("refused")
            elif s in ("enter", "badenter"):
                x, m = level(t, "s%d" % k, ("int" if k % 2 else "member") if s == "enter" else
                             t.choice("k%d" % k, ["bad", "int"]))
                before = self.cur
                entered = False
                try:
                    with validation_level(x) as prev:
                        entered = True
                        t.check(m is not None, "invalid level accepted")
                        t.check(prev == before and isinstance(prev, WarningLevel),
                                "the block yields another level")
                        self.cur = m
                        self.check("level inside the block")
                        if depth:
                            t.cover("nested")
                        self.run(depth + 1)
                    self.cur = before
                    t.cover("left")
                except (ValueError, KeyError, Custom, KeyboardInterrupt, StopIteration,
                        SystemExit, RuntimeError) as exc:
                    self.cur = before
                    if not entered:
                        t.check(isinstance(exc, ValueError) and m is None, "entering raised")
                        t.cover("refused")
                    else:
                        t.check(exc is self.raised, "another exception comes out")
                        t.cover("left by exception")
                self.check("level after the block")
            elif s == "leave":
                if depth:
                    return
            elif s == "raise":
                if depth:
                    self.raised = t.choice("x%d" % k, EXC)("boom")
                    raise self.raised
        return


def h_prog(t, steps):
    p = Prog(t, steps)
    p.cur = t.choice("init", list(WarningLevel))
    set_validation_level(p.cur)
    p.check("initial level")
    p.run(0)
    p.check("level at the end")
    set_validation_level(WarningLevel.WARNING)


def h_default(t):
    t.check(get_validation_level() == WarningLevel.WARNING, "default level")


def programs(n):
    if n == 0:
        yield []
        return
    for p in programs(n - 1):
        for s in ("enter", "leave", "raise", "set", "bad", "badenter"):
            q = p + [s]
            d = 0
            for x in q:
                if x == "enter":
                    d += 1
                elif x in ("leave", "raise"):
                    d -= 1
                    if d < 0:
                        break
            if d >= 0:
                yield q


def cases(tier):
    out = [case("h_default")]
    if tier == "quick":
        ps = [p for p in programs(3) if "enter" in p]
        ps += [p for p in programs(4) if p.count("enter") >= 2 and "bad" not in p]
    else:
        ps = [p for n in (3, 4) for p in programs(n)]
        ps += [p for p in programs(5) if p.count("enter") >= 2 and "bad" not in p]
        ps += [p for p in programs(6) if p.count("enter") >= 3 and "bad" not in p
               and "badenter" not in p]
    for p in ps:
        out.append(case("h_prog", steps=p))
    return out
