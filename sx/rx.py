# -*- coding: utf-8 -*-
"""Regular expressions over symbolic strings: a small backtracking matcher driven by the parsed pattern.
Anything it does not know is decided on the fully concretised subject by the native module."""
import re
import re._parser as sre_parse
import re._constants as C
import types
from . import core, values
from .values import SymStr, LazyVal, SYM, conc, force, mkstr, c_in, chars_of

_CAT = {
    C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
    C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W',
}


class _Unknown(Exception):
    pass


def _charset(items):
    neg, out = False, set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.add(av)
        elif op is C.NOT_LITERAL:
            out |= set(range(256)) - {av}
        elif op is C.RANGE:
            out |= set(range(av[0], av[1] + 1))
        elif op is C.CATEGORY:
            r = re.compile(_CAT[av])
            out |= set(c for c in range(256) if r.match(chr(c)))
        else:
            raise _Unknown()
    return frozenset(set(range(256)) - out) if neg else frozenset(out)


class _M(object):
    def __init__(self, chars, endpos):
        self.c, self.n = chars, endpos

    def run(self, seq, i, pos, groups, k):
        """match seq[i:] at pos, then continue with k(pos, groups)"""
        if i == len(seq):
            return k(pos, groups)
        op, av = seq[i]
        nxt = lambda p, g: self.run(seq, i + 1, p, g, k)
        if op is C.LITERAL:
            return self.one(frozenset([av]), pos, groups, nxt)
        if op is C.NOT_LITERAL:
            return self.one(frozenset(range(256)) - {av}, pos, groups, nxt)
        if op is C.ANY:
            return self.one(frozenset(range(256)) - {10}, pos, groups, nxt)
        if op is C.IN:
            return self.one(_charset(av), pos, groups, nxt)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return nxt(pos, groups) if pos == 0 else None
            if av is C.AT_END_STRING:
                return nxt(pos, groups) if pos == self.n else None
            if av is C.AT_END:
                if pos == self.n or (pos == self.n - 1 and core.eng().branch(c_in(self.c[pos], frozenset([10])))):
                    return nxt(pos, groups)
                return None
            raise _Unknown()
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise _Unknown()

            def done(p, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                return nxt(p, g)
            return self.run(list(sub), 0, pos, groups, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, p, g):
                def more(p2, g2):
                    if p2 == p and count >= lo:
                        return None
                    return rep(count + 1, p2, g2)
                if count < lo:
                    return self.run(sub, 0, p, g, more)
                if op is C.MAX_REPEAT:
                    if hi is C.MAXREPEAT or count < hi:
                        r = self.run(sub, 0, p, g, more)
                        if r is not None:
                            return r
                    return nxt(p, g)
                r = nxt(p, g)
                if r is None and (hi is C.MAXREPEAT or count < hi):
                    r = self.run(sub, 0, p, g, more)
                return r
            return rep(0, pos, groups)
        if op in (C.ASSERT, C.ASSERT_NOT) and av[0] == 1:
            r = self.run(list(av[1]), 0, pos, groups, lambda p, g: (p, g))
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, groups) if r is None else None
        raise _Unknown()

    def one(self, charset, pos, groups, nxt):
        if pos >= self.n:
            return None
        if core.eng().branch(c_in(self.c[pos], charset)):
            return nxt(pos + 1, groups)
        return None


class Match(object):
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups

    def _span(self, g):
        if g == 0:
            return (self._s, self._e)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def group(self, *gs):
        gs = gs or (0,)
        out = []
        for g in gs:
            a, b = self._span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._span(i + 1)[0] < 0 else self.group(i + 1) for i in range(self.re.groups))

    @property
    def lastindex(self):
        gs = [(self._span(i + 1)[1], -i - 1) for i in range(self.re.groups) if self._span(i + 1)[0] >= 0]
        return -max(gs)[1] if gs else None

    @property
    def lastgroup(self):
        i = self.lastindex
        return ([n for n, j in self.re.groupindex.items() if j == i] + [None])[0]

    def groupdict(self, default=None):
        return dict((n, self.group(i)) for n, i in self.re.groupindex.items())

    def __bool__(self):
        return True


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self._n = re.compile(pattern, flags)
        self.pattern, self.flags = pattern, flags
        self.groups, self.groupindex = self._n.groups, self._n.groupindex
        self._seq = None
        if not (self._n.flags & ~re.UNICODE) and isinstance(pattern, str):
            try:
                self._seq = list(sre_parse.parse(pattern))
            except Exception:
                self._seq = None

    def _sym(self, mode, s, *a):
        s = force(s)
        if type(s) is not SymStr or self._seq is None or a:
            return getattr(self._n, mode)(conc(s), *a)
        chars = s._chars()
        m = _M(chars, len(chars))
        try:
            starts = range(len(chars) + 1) if mode == 'search' else [0]
            for st in starts:
                if mode == 'fullmatch':
                    fin = lambda p, g: (p, g) if p == len(chars) else None
                else:
                    fin = lambda p, g: (p, g)
                r = m.run(self._seq, 0, st, {}, fin)
                if r is not None:
                    return Match(self, s, st, r[0], r[1])
            return None
        except _Unknown:
            return getattr(self._n, mode)(conc(s))

    def match(self, s, *a):
        return self._sym('match', s, *a)

    def fullmatch(self, s, *a):
        return self._sym('fullmatch', s, *a)

    def search(self, s, *a):
        return self._sym('search', s, *a)

    def _all(self, s, count=0):
        """every match, as the native finditer gives them"""
        chars = s._chars()
        m = _M(chars, len(chars))
        out, pos, advance = [], 0, False
        while not count or len(out) < count:
            r = None
            for st in range(pos, len(chars) + 1):
                stuck = advance and st == pos

                def fin(p, g):
                    return None if stuck and p == st else (p, g)
                r = m.run(self._seq, 0, st, {}, fin)
                if r is not None:
                    break
            if r is None:
                break
            out.append(Match(self, s, st, r[0], r[1]))
            pos, advance = r[0], r[0] == st
        return out

    def _each(self, s, count=0):
        """(the subject, its matches), or (the concrete subject, None)"""
        s = force(s)
        if type(s) is SymStr and self._seq is not None:
            try:
                return s, self._all(s, count)
            except _Unknown:
                pass
        return conc(s), None

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        s, found = self._each(s, count)
        if found is None:
            return self._n.subn(repl if callable(repl) else conc(repl), s, count)
        if callable(repl):
            fill = repl
        else:
            parts = sre_parse.parse_template(conc(repl), self._n)

            def fill(m):
                out = ''
                for x in parts:
                    out = out + ((m.group(x) or '') if isinstance(x, int) else x)
                return out
        out, at = '', 0
        for m in found:
            out = out + s[at:m.start()] + fill(m)
            at = m.end()
        return out + s[at:], len(found)

    def split(self, s, maxsplit=0):
        s, found = self._each(s, maxsplit)
        if found is None:
            return self._n.split(s, maxsplit)
        out, at = [], 0
        for m in found:
            out.append(s[at:m.start()])
            out.extend(m.groups())
            at = m.end()
        return out + [s[at:]]

    def findall(self, s):
        s, found = self._each(s)
        if found is None:
            return self._n.findall(s)
        return [m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups('') for m in found]

    def finditer(self, s):
        s, found = self._each(s)
        return self._n.finditer(s) if found is None else iter(found)


class ReModule(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 're')

    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(conc(p), flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def escape(self, s):
        return re.escape(conc(s))
