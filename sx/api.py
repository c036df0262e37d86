# -*- coding: utf-8 -*-
"""Symbolic mode of the harness interface (see capi.py)."""
from . import core
from .core import eng, BAtom, b_and, b_or, b_not, CheckFailed
from .capi import _Common, ConS, ReplayFailed, Skip, SCALARS, NAME, PRINT, URLC, case


# ----------------------------------------------------------------------------------------------------------------
class SymS(_Common):
    symbolic = True

    def __init__(self, bounds):
        _Common.__init__(self, bounds)
        from . import values
        self.V = values
        self._names = {}

    def mkdict(self, items=()):
        d = self.V.SDict()
        for k, v in items:
            d[k] = v
        return d

    def _thunk(self, fn):
        return self.V.Thunk(fn)

    def str(self, name, maxlen=2, minlen=0, alpha=NAME):
        e, V = eng(), self.V
        dom = frozenset(ord(c) for c in alpha)
        cs = [e.declare('%s[%d]' % (name, i), 'bv', dom) for i in range(maxlen)]
        if maxlen == minlen:
            e.inputs[name] = lambda: ''.join(chr(e.val(c)) for c in cs)
            return V.SymStr(cs) if cs else ''
        lv = e.declare(name + '#', 'bv', range(minlen, maxlen + 1))
        e.inputs[name] = lambda: ''.join(chr(e.val(c)) for c in cs[:e.val(lv)])
        return V.SymStr([V.Lazy(lv, cs)])

    def choice(self, name, options):
        """one of some concrete strings, undecided until it matters"""
        options = list(options)
        e, V = eng(), self.V
        if len(options) == 1:
            e.inputs[name] = lambda: 0
            return options[0]
        v = e.declare(name, 'bv', range(len(options)))
        e.inputs[name] = lambda: e.val(v)
        return V.SymStr([V.Choice(v, options)])

    def _decide(self, v):
        e = eng()
        d = e.dom[v.name]
        while len(d) > 1:
            x = min(d)
            if e.branch(BAtom(v, frozenset([x]))):
                return x
            d = e.dom[v.name]
        return min(d)

    def pick(self, name, options):
        """one of some arbitrary objects, decided now"""
        options = list(options)
        e = eng()
        v = e.declare(name, 'bv', range(len(options)))
        e.inputs[name] = lambda: e.val(v)
        return options[self._decide(v)]

    def bool(self, name):
        e = eng()
        v = e.declare(name, 'bool', (0, 1))
        e.inputs[name] = lambda: e.val(v)
        return self.V.SymBool(BAtom(v, core.ONE))

    def flag(self, name):
        return bool(self.bool(name))

    def int(self, name, values):
        e = eng()
        v = e.declare(name, 'int', values)
        e.inputs[name] = lambda: e.val(v)
        return self.V.SymInt(v)

    def length(self, name, lo, hi):
        e = eng()
        v = e.declare(name, 'bv', range(lo, hi + 1))
        e.inputs[name] = lambda: e.val(v)
        return self._decide(v)

    def any(self, name, maxlen=1, kinds=SCALARS, depth=0):
        e = eng()
        v = e.declare(name + '.kind', 'bv', range(len(kinds)))
        e.inputs[name + '.kind'] = lambda: e.val(v)
        return self.V.LazyVal(v, self._kinds(name, kinds, maxlen, depth))

    def dict(self, name, entries, required=(), most=None, least=None, keys=None):
        """dictionary with the given possible entries, each present or not; `most` bounds the number present to
        <= most or >= all-least (both kept: few present, or few absent)"""
        e = eng()
        d = self.V.SDict()
        items = list(entries.items() if hasattr(entries, 'items') else entries)
        opt = []
        for k, v in items:
            if callable(v):
                v = self.V.Thunk(v)
            if k in required:
                d._add_optional(k, v, True)
                continue
            p = e.declare('%s.%s?' % (name, k), 'bool', (0, 1))
            e.inputs['%s.%s?' % (name, k)] = (lambda p=p: e.val(p))
            opt.append(p)
            d._add_optional(k, v, p)
        n = len(opt)
        if most is not None and most < n:
            if least is None or n - least <= most + 1:
                if least is None:
                    e.card(opt, 0, most)
            elif self._decide(self._mode(name)):
                e.card(opt, n - least, n)
            else:
                e.card(opt, 0, most)
        return d

    def _mode(self, name):
        e = eng()
        v = e.declare(name + '.many', 'bool', (0, 1))
        e.inputs[name + '.many'] = lambda: e.val(v)
        return v

    def map(self, name, keys, mk, least=0):
        d = self.V.SDict()
        for i, k in enumerate(keys):
            d[k] = mk(i)
        return d

    def _b(self, c):
        if isinstance(c, core.B):
            return c
        return self.V.tob(c)

    def assume(self, c):
        eng().assume(self._b(c))

    def check(self, c, label, detail=''):
        self.log.append(label)
        eng().check(self._b(c), label, detail)

    def _same(self, a, b):
        V = self.V
        if a is b:
            return True
        if type(a) is V.LazyVal and type(b) is V.LazyVal and not a.done and not b.done and a.v is b.v:
            return True         # copies of one undecided value
        a, b = V.force(a), V.force(b)
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is V.SymStr or tb is V.SymStr:
            if ta is V.SymStr and tb in (str, V.SymStr):
                return a._eqb(b)
            if ta is str:
                return b._eqb(a)
            return False
        if ta in (V.SymBool, V.SymInt) or tb in (V.SymBool, V.SymInt):
            ka = bool if ta is V.SymBool else int if ta is V.SymInt else ta
            kb = bool if tb is V.SymBool else int if tb is V.SymInt else tb
            if ka is not kb:
                return False
            if ta is V.SymBool and tb is V.SymBool:
                return b_or([b_and([a.b, b.b]), b_and([b_not(a.b), b_not(b.b)])])
            return V.tob(a == b if ta in (V.SymBool, V.SymInt) else b == a)
        if isinstance(a, V.SDict) or isinstance(b, V.SDict):
            if not isinstance(b, V.SDict) or not isinstance(a, V.SDict):
                if isinstance(a, dict) and isinstance(b, dict):
                    a, b = V.SDict(a), V.SDict(b)
                else:
                    return False
            out = []
            ia, ib = a._rawitems(), b._rawitems()
            if len(ia) != len(ib):
                return False
            for k, v in ia:
                w = b._find(k)
                if w is V._MISS:
                    return False
                r = self._same(v, w)
                if r is False:
                    return False
                out.append(r)
            return b_and(out)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
                return False
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            out = []
            for x, y in zip(a, b):
                r = self._same(x, y)
                if r is False:
                    return False
                out.append(r)
            return b_and(out)
        if ta is not tb:
            return False
        return bool(a == b)

    def same(self, a, b):
        """deep, type-strict equality as one boolean term (no forking on leaves)"""
        return self.V.mkbool(self._same(a, b))

    eq = same

    def all(self, cs):
        return self.V.mkbool(b_and([self._b(c) for c in cs]))

    def any_of(self, cs):
        return self.V.mkbool(b_or([self._b(c) for c in cs]))

    def not_(self, c):
        return self.V.mkbool(b_not(self._b(c)))

    def fs(self, files):
        """a file system below /vfs"""
        from . import vfs
        return vfs.symbolic_on(files, self.V.conc)

    def conc(self, x):
        return self.V.conc(x)

    def copy(self, x):
        import copy
        return copy.deepcopy(x)
