"""Symbolic regular expressions: a backtracking matcher over sre's parse tree.

The text has a concrete length and possibly symbolic characters; each character test is a branch
decided by the solver.  Supported: literals, classes, any, repeats (greedy, lazy, possessive as
greedy without backtracking is refused), groups, alternation, anchors, look-around, group
references.  Anything else raises Unsupported (the caller then pins the text).
"""
import re

import z3

try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C

from .values import (SymStr, OpaqueStr, lift, mkstr, truth, mkbool, as_bool, char_eq, char_test,
                     realize, CW, or_, not_)


class Unsupported(Exception):
    pass


_CATS = {C.CATEGORY_DIGIT: "isdecimal", C.CATEGORY_SPACE: "isspace"}


def _isword(c):
    if isinstance(c, int):
        return chr(c).isalnum() or c == 95
    return z3.Or(char_test(c, "isalnum"), c == 95)


def _cat(c, cat):
    neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
           C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
    if cat in neg:
        return not_(_cat(c, neg[cat]))
    if cat is C.CATEGORY_WORD:
        return as_bool(_isword(c))
    if cat in _CATS:
        return as_bool(char_test(c, _CATS[cat]))
    raise Unsupported(str(cat))


def _between(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    if lo >= 1 << CW:
        return False
    return mkbool(z3.And(z3.UGE(c, lo), z3.ULE(c, min(hi, (1 << CW) - 1))))


def _in(c, items, flags):
    neg = False
    rs = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            rs.append(as_bool(char_eq(c, av)))
        elif op is C.RANGE:
            rs.append(_between(c, av[0], av[1]))
        elif op is C.CATEGORY:
            rs.append(_cat(c, av))
        else:
            raise Unsupported(str(op))
    r = or_(*rs)
    return not_(r) if neg else r


class Matcher:
    def __init__(self, pattern, flags, text):
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        if self.flags & (re.IGNORECASE | re.LOCALE | re.VERBOSE):
            raise Unsupported("flags")
        self.cs = lift(text).cs
        self.text = text
        self.groups = {}

    def seq(self, items, i, pos, k):
        """Match items[i:] at pos, then the continuation k(pos); None or the final result."""
        if i == len(items):
            return k(pos)
        op, av = items[i]
        cs = self.cs

        def rest(p):
            return self.seq(items, i + 1, p, k)
        if op is C.LITERAL:
            return rest(pos + 1) if pos < len(cs) and truth(as_bool(char_eq(cs[pos], av))) else None
        if op is C.NOT_LITERAL:
            return rest(pos + 1) if pos < len(cs) and not truth(as_bool(char_eq(cs[pos], av))) \
                else None
        if op is C.ANY:
            if pos >= len(cs):
                return None
            if not self.flags & re.DOTALL and truth(as_bool(char_eq(cs[pos], 10))):
                return None
            return rest(pos + 1)
        if op is C.IN:
            return rest(pos + 1) if pos < len(cs) and truth(_in(cs[pos], av, self.flags)) else None
        if op is C.SUBPATTERN:
            g, add, rem, p = av
            if add or rem:
                raise Unsupported("inline flags")
            old = self.groups.get(g)

            def close(e):
                prev = self.groups.get(g)
                if g is not None:
                    self.groups[g] = (pos, e)
                r = rest(e)
                if r is None and g is not None:
                    if prev is None:
                        self.groups.pop(g, None)
                    else:
                        self.groups[g] = prev
                return r
            r = self.seq(list(p), 0, pos, close)
            if r is None and g is not None:
                if old is None:
                    self.groups.pop(g, None)
                else:
                    self.groups[g] = old
            return r
        if op is C.BRANCH:
            for p in av[1]:
                r = self.seq(list(p), 0, pos, rest)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is C.MAX_REPEAT

            def rep(n, at):
                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None
                    return self.seq(p, 0, at, lambda e: rep(n + 1, e) if e > at or n < lo else None)
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else rest(at)
                r = rest(at)
                return r if r is not None else more()
            return rep(0, pos)
        if op is C.AT:
            if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and
                                                  not self.flags & re.MULTILINE):
                return rest(pos) if pos == 0 else None
            if av is C.AT_END_STRING:
                return rest(pos) if pos == len(cs) else None
            if av is C.AT_END and not self.flags & re.MULTILINE:
                if pos == len(cs) or (pos == len(cs) - 1 and
                                      truth(as_bool(char_eq(cs[pos], 10)))):
                    return rest(pos)
                return None
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = pos > 0 and truth(as_bool(_isword(cs[pos - 1])))
                b = pos < len(cs) and truth(as_bool(_isword(cs[pos])))
                return rest(pos) if (a != b) == (av is C.AT_BOUNDARY) else None
            raise Unsupported(str(av))
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            p = list(p)
            if d < 0:
                lo, hi = sre_parse.SubPattern(self.tree.state, p).getwidth()
                if lo != hi or pos - lo < 0:
                    r = None
                else:
                    r = self.seq(p, 0, pos - lo, lambda e: True)
            else:
                r = self.seq(p, 0, pos, lambda e: True)
            if (r is not None) == (op is C.ASSERT):
                return rest(pos)
            return None
        if op is C.GROUPREF:
            if av not in self.groups:
                return None
            s, e = self.groups[av]
            n = e - s
            if pos + n > len(cs):
                return None
            for j in range(n):
                if not truth(as_bool(char_eq(cs[s + j], cs[pos + j]))):
                    return None
            return rest(pos + n)
        raise Unsupported(str(op))

    def at(self, pos, full=False):
        self.groups = {}
        end = self.seq(list(self.tree), 0, pos,
                       (lambda e: (e,) if e == len(self.cs) else None) if full else
                       (lambda e: (e,)))
        if end is None:
            return None
        return Match(self, pos, end[0], dict(self.groups))


class Match:
    def __init__(self, m, s, e, groups):
        self.m, self.s, self.e, self.g = m, s, e, groups
        self.string = m.text
        self.pos, self.endpos = 0, len(m.cs)

    def _num(self, g):
        if isinstance(g, str):
            return self.m.tree.state.groupdict[g]
        return g

    def _one(self, g, default=None):
        g = self._num(g)
        if g == 0:
            return mkstr(self.m.cs[self.s:self.e])
        if g > self.m.tree.state.groups - 1:
            raise IndexError("no such group")
        if g not in self.g:
            return default
        return mkstr(self.m.cs[self.g[g][0]:self.g[g][1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.m.tree.state.groups))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.m.tree.state.groupdict.items()}

    def start(self, g=0):
        g = self._num(g)
        return self.s if g == 0 else self.g.get(g, (-1, -1))[0]

    def end(self, g=0):
        g = self._num(g)
        return self.e if g == 0 else self.g.get(g, (-1, -1))[1]

    def span(self, g=0):
        return self.start(g), self.end(g)

    def __bool__(self):
        return True


def _pat(p, flags):
    if isinstance(p, re.Pattern):
        return p.pattern, p.flags & ~re.UNICODE
    return p, int(flags)


def match(p, s, flags=0):
    return Matcher(*_pat(p, flags), s).at(0)


def fullmatch(p, s, flags=0):
    return Matcher(*_pat(p, flags), s).at(0, True)


def finditer_list(p, s, flags=0):
    m = Matcher(*_pat(p, flags), s)
    out, pos = [], 0
    last_empty_ok = -1
    while pos <= len(m.cs):
        r = None
        for i in range(pos, len(m.cs) + 1):
            r = m.at(i)
            if r is not None and r.s == r.e and r.e == last_empty_ok:
                # an empty match right after the previous match is not allowed here; try non-empty
                r = None
                continue
            if r is not None:
                break
        if r is None:
            break
        out.append(r)
        if r.e == r.s:
            pos = r.e + 1
            last_empty_ok = -1
        else:
            pos = r.e
            last_empty_ok = -1
    return out


def search(p, s, flags=0):
    m = Matcher(*_pat(p, flags), s)
    for i in range(0, len(m.cs) + 1):
        r = m.at(i)
        if r is not None:
            return r
    return None


def findall(p, s, flags=0):
    out = []
    for r in finditer_list(p, s, flags):
        n = r.m.tree.state.groups - 1
        if n == 0:
            out.append(r.group())
        elif n == 1:
            out.append(r._one(1, ""))
        else:
            out.append(r.groups(""))
    return out


def sub(p, repl, s, count=0, flags=0):
    out, pos, n = [], 0, 0
    if not callable(repl) and "\\" in realize(repl):
        raise Unsupported("template")
    for r in finditer_list(p, s, flags):
        if count and n >= count:
            break
        out.extend(lift(s).cs[pos:r.s])
        out.extend(lift(repl(r) if callable(repl) else repl).cs)
        pos = r.e
        n += 1
    out.extend(lift(s).cs[pos:])
    return mkstr(out)


def split(p, s, maxsplit=0, flags=0):
    out, pos = [], 0
    for n, r in enumerate(finditer_list(p, s, flags)):
        if maxsplit and n >= maxsplit:
            break
        out.append(mkstr(lift(s).cs[pos:r.s]))
        out.extend(r.groups())
        pos = r.e
    out.append(mkstr(lift(s).cs[pos:]))
    return out


TABLE = {"match": match, "fullmatch": fullmatch, "search": search, "findall": findall,
         "split": split, "finditer": lambda *a, **k: iter(finditer_list(*a, **k)), "sub": sub}
