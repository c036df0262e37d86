# -*- coding: utf-8 -*-
"""C10 comparing specification objects."""
from sx.capi import case
from pyopenapi.migration.versions.v1_2 import objects as v12
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30
from pyopenapi.utils import jp_split
from . import tables
from .gen import Gen

ASSUMPTIONS = ['the two objects vary independently at one position (a field, an element, a length, a name, a kind) at '
               'most `depth` children deep and agree elsewhere, where only the required parts or all parts are present',
               'numbers are not compared with booleans; an absent container is not compared with an empty one']
MODS = {'1.2': (tables.V12, v12), '2.0': (tables.V20, v20), '3.0.0': (tables.V30, v30)}
LEAF = ('str', 'zero', 'float', 'elist', 'edict')
FEW = ('str', 'zero')
ABSENT = object()


class Pair(object):
    def __init__(self, S, table, mod):
        self.S, self.table = S, table
        self.g = Gen(S, table, mod, 1, keys=('k/', ))
        self.g.leaf = self.g.text = lambda name: 'leaf'
        self.lists = self.place = False     # see KNOWN_FINDINGS: primitive lists, and locations

    def values(self, name, top):
        """two values of a field"""
        S = self.S
        if not top:
            return S.str(name + '.a', 1), S.str(name + '.b', 1)
        how = S.pick(name + '.values', ['plain', 'bool', 'list', 'longer', 'dict', 'names', 'mixed'])
        self.lists = how in ('list', 'longer', 'plain')

        def one(x):
            return S.any('%s.%s' % (name, x), 1, FEW)
        if how == 'plain':
            return S.any(name + '.a', 1, LEAF), S.any(name + '.b', 1, LEAF)
        if how == 'bool':
            return S.bool(name + '.a'), S.bool(name + '.b')
        if how == 'list':
            return [one('a'), one('b')], [one('c'), one('d')]
        if how == 'longer':
            return [one('a')], [one('c'), one('d')]
        if how == 'dict':
            return S.mkdict([('x', 0), ('k', one('a'))]), S.mkdict([('x', 0), ('k', one('b'))])
        if how == 'names':
            return S.mkdict([(S.str(name + '.ka', 1), 0)]), S.mkdict([(S.str(name + '.kb', 1), 0)])
        return one('a'), [one('b')]

    def obj(self, kind, depth, name='o'):
        """two dictionaries for a kind"""
        S, k, g = self.S, self.table[kind], self.g
        every = name == 'o' and S.pick(name + '.rest', [False, True])
        places = k.fields + [c for c in k.children if depth or c in k.required]
        if not places:
            return g.plain(kind, name, 1, True), g.plain(kind, name, 1, True)
        p = S.pick(name + '.at', places)
        a, b = S.mkdict(), S.mkdict()
        for f in k.fields:
            if f != p and (f in k.required or every):
                a[f] = b[f] = 'leaf'
        for c, spec in k.children.items():
            if c != p and (c in k.required or every):
                a[c] = g.plain_child(spec, '%s.%s' % (name, c), 1)
                b[c] = g.plain_child(spec, '%s.%s' % (name, c), 1)
        if p in k.fields:
            x, y = (S.str(name + '.ra', 2), S.str(name + '.rb', 2)) if p == '$ref' else self.values(name + '.' + p, name == 'o' and not every)
            a[p], b[p] = x, y
            if p not in k.required:
                missing = S.pick(name + '.in', ['none', 'one', 'both'])
                if missing != 'none':
                    del b[p]
                if missing == 'both':
                    del a[p]
        else:
            which = ['both'] if p in k.required else ['both', 'one']
            if S.pick(name + '.in', which) == 'one':
                a[p] = g.plain_child(k.children[p], '%s.%s' % (name, p), 1)
                S.assume(a[p] is True or a[p] is False or len(a[p]) > 0)
            else:
                a[p], b[p] = self.child(k.children[p], 0 if every else depth - 1, '%s.%s' % (name, p))
        return a, b

    def child(self, spec, depth, name):
        S, g = self.S, self.g
        if spec == 'str':
            self.lists = True
            return S.str(name + '.a', 2), S.str(name + '.b', 2)
        if isinstance(spec, str):
            if spec in tables.MAPS:
                return self.child(tables.MAPS[spec], depth, name)
            return self.obj(spec, depth if depth > 0 else 0, name)
        how, c = spec
        if how == 'ref':
            kind = S.pick(name + '.kinds', ['objects', 'references', 'mixed'])
            if kind == 'objects':
                return self.child(c, depth, name + '.' + how)
            if kind == 'references':
                return (S.mkdict([('$ref', '#/' + S.str(name + '.ra', 1))]),
                        S.mkdict([('$ref', '#/' + S.str(name + '.rb', 1))]))
            self.place = True
            return g.plain_child(c, name, 0), S.mkdict([('$ref', '#/')])
        if how == 'bool':
            kind = S.pick(name + '.kinds', ['objects', 'booleans', 'mixed'])
            if kind == 'objects':
                return self.child(c, depth, name + '.' + how)
            if kind == 'booleans':
                return S.pick(name + '.ba', [False, True]), S.pick(name + '.bb', [False, True])
            return S.pick(name + '.ba', [False, True]), g.plain_child(c, name, 0)

        def plain():
            return g.plain_child(c, name + '.0', 0)

        kind = S.pick(name + '.kinds', ['first', 'last', 'shorter', 'empty', 'names'] if how == 'map' else
                      ['first', 'last', 'shorter', 'empty'])
        if kind == 'names':
            v = plain()
            return S.mkdict([(S.str(name + '.ka', 2, alpha='a/~0'), v)]), \
                S.mkdict([(S.str(name + '.kb', 2, alpha='a/~0'), v)])
        if kind == 'empty':
            x, y = [], [plain()]
            self.place = self.place or how == 'list'
        elif kind == 'shorter':
            x, y = [plain(), plain()], [plain(), plain(), plain()]
            self.place = self.place or how == 'list'
        else:
            p, q = self.child(c, depth, name + '.e')
            x, y = ([p, plain()], [q, plain()]) if kind == 'first' else ([plain(), p], [plain(), q])
        if how == 'list':
            return x, y
        keys = ['n', '~1', 'q/']
        return S.mkdict([(keys[i], x[i]) for i in range(len(x))]), S.mkdict([(keys[i], y[i]) for i in range(len(y))])

    def same(self, kind, a, b):
        """all fields and children are equal"""
        S, k = self.S, self.table[kind]
        out = []
        for f in k.fields:
            d = k.default.get(f)
            out.append(S.same(a[f] if f in a else d, b[f] if f in b else d))
        for c, spec in k.children.items():
            if (c in a) != (c in b):
                return False
            if c in a:
                out.append(self.same_child(spec, a[c], b[c]))
        return S.all(out)

    def same_child(self, spec, a, b):
        S = self.S
        if spec == 'str':
            return S.same(a, b)
        if isinstance(spec, str):
            return self.same_child(tables.MAPS[spec], a, b) if spec in tables.MAPS else self.same(spec, a, b)
        how, c = spec
        if how == 'ref':
            if ('$ref' in a) != ('$ref' in b):
                return False
            return S.same(a, b) if '$ref' in a else self.same_child(c, a, b)
        if how == 'bool':
            if a is True or a is False or b is True or b is False:
                return a is b
            return self.same_child(c, a, b)
        if len(a) != len(b):
            return False
        if how == 'list':
            return S.all([self.same_child(c, a[i], b[i]) for i in range(len(a))])
        if not all([n in b for n in a]):
            return False
        return S.all([self.same_child(c, a[n], b[n]) for n in a])


def at(doc, tokens):
    for t in tokens:
        if isinstance(doc, list):
            if int(t) >= len(doc):
                return ABSENT
            doc = doc[int(t)]
        elif isinstance(doc, dict):
            if t not in doc:
                return ABSENT
            doc = doc[t]
        else:
            return ABSENT
    return doc


def verdict(S, r, label):
    S.check(type(r) is tuple and len(r) == 2, label)
    if r[0]:
        return True
    return False


@case(dict(depth=1), [dict(depth=2)])
def pairs(S):
    """every position of every kind, in both directions"""
    version, kind = S.pick('kind', [(v, k) for v in sorted(MODS) for k in sorted(MODS[v][0])
                                    if MODS[v][0][k].fields or MODS[v][0][k].children])
    table, mod = MODS[version]
    p = Pair(S, table, mod)
    a, b = p.obj(kind, S.B.depth)
    make = getattr(mod, kind)
    x, y = make(a, '#', {}), make(b, '#', {})
    want = p.same(kind, a, b)
    if p.lists:
        r, back = S.trap(lambda: x.compare(y)), S.trap(lambda: y.compare(x))
        right = r[0] == back[0] == 'ok'
        if right:
            right = want if r[1][0] else S.not_(want)
            right = S.all([right, (True if r[1][0] else False) == (True if back[1][0] else False)])
        if not S.known('compare-primitives', right, 'the verdict is right'):
            return
    r = S.returns(lambda: x.compare(y), 'comparing does not fail')
    same = verdict(S, r, 'a verdict and a location')
    S.check(want if same else S.not_(want), 'the verdict is right', lambda: '%s: %r, %r vs %r' % (kind, r, a, b))
    back = S.returns(lambda: y.compare(x), 'comparing does not fail')
    S.check(verdict(S, back, 'a verdict and a location') == same, 'the verdict is symmetric', kind)
    if not same:
        for loc in (r[1], back[1]):
            tokens = jp_split(loc)
            if p.place and not S.known('compare-location', len(tokens) > 0, 'a location is given'):
                continue
            S.check(len(tokens) > 0, 'a location is given', kind)
            u, v = at(a, tokens), at(b, tokens)
            if u is ABSENT or v is ABSENT:
                S.check((u is ABSENT) != (v is ABSENT), 'the location leads to a difference',
                        lambda: '%s: %r, %r vs %r' % (kind, loc, a, b))
            else:
                S.check(S.not_(S.same(u, v)), 'the location leads to a difference',
                        lambda: '%s: %r, %r vs %r' % (kind, loc, a, b))


@case(dict(depth=1), [dict(depth=2)])
def reflexive(S):
    """an object is the same as itself and as another object loaded from the same content"""
    version, kind = S.pick('kind', [(v, k) for v in sorted(MODS) for k in sorted(MODS[v][0])])
    table, mod = MODS[version]
    g = Gen(S, table, mod, 1, keys=('k/', 'l'))
    if S.pick('every', [False, True]):
        g.leaf = lambda name: 'leaf'
        doc = g.plain(kind, 'doc', S.B.depth, True)
    else:
        g.leaf = lambda name: S.any(name, 1, ('str', 'float'))
        doc = g.obj(kind, 'doc', S.B.depth - 1)
    make = getattr(mod, kind)
    x, y = make(doc, '#', {}), make(S.copy(doc), '#/b', {})
    for u, v in ((x, x), (x, y), (y, x)):
        r = S.returns(lambda: u.compare(v), 'comparing does not fail')
        S.check(r[0], 'equal content compares as same', lambda: '%s %r' % (kind, r))
    other = v20.Info({}) if kind != 'Info' else v20.Tag({})
    S.check(not x.compare(other)[0], 'objects of different kinds differ')
    S.check(not other.compare(x)[0], 'objects of different kinds differ')


@case(dict(), [])
def base(S):
    """a location is given below the base"""
    base_ = S.pick('base', ['#', '#/definitions/x', 'a'])
    name = S.str('name', 2, alpha='a/~01')
    t = S.any('t', 1, LEAF)
    x = v20.Schema({'properties': S.mkdict([(name, S.mkdict([('title', t)]))]), 'title': 's'})
    y = v20.Schema({'properties': S.mkdict([(name, {'title': 'x'})]), 'title': 's'})
    r = x.compare(y, base=base_)
    want = S.same(t, 'x')
    if r[0]:
        S.check(want, 'same')
    else:
        S.check(S.not_(want), 'different')
        S.check(S.same(r[1], base_ + '/properties/' + name.replace('~', '~0').replace('/', '~1') + '/title'),
                'the location lies below the base')
