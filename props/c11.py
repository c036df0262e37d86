# -*- coding: utf-8 -*-
"""C11 the object store answers for exact pointers only."""
from sx.capi import case
from pyopenapi.migration.store import SpecObjStore
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ASSUMPTIONS = ['stores of at most `entries` objects at two documents, two versions and pointers of the shape "#", '
               '"#/definitions/<name>" and "#/definitions/a/properties/<name>"; names are any string of at most '
               '`name` characters out of "/", "~", "a", and of two characters in queries',
               'lookups are at most two levels below a stored object']
URLS = ('http://h/a.json', 'http://h/b.json')
VERSIONS = ('2.0', '3.0.0')


def enc(x):
    return x.replace('~', '~0').replace('/', '~1')


class Model(object):
    """what is stored, by tokens"""

    def __init__(self, S, store):
        self.S, self.store, self.entries = S, store, []

    def put(self, url, tokens, version, obj):
        self.store.set(obj, url, pointer(tokens), version)
        self.entries = [e for e in self.entries
                        if not (e[0] == url and e[2] == version and self.eq(e[1], tokens))]
        self.entries.append((url, tokens, version, obj))

    def eq(self, a, b):
        if len(a) != len(b):
            return False
        for i in range(len(a)):
            if a[i] != b[i]:
                return False
        return True

    def under(self, a, base):
        return len(a) >= len(base) and self.eq(a[:len(base)], base)

    def get(self, url, tokens, version):
        best = sorted([e for e in self.entries if e[0] == url and e[2] == version and self.under(tokens, e[1])],
                      key=lambda e: -len(e[1]))
        for e in best:
            x = descend(e[3], tokens[len(e[1]):])
            if x is not None:
                return x
        return None

    def below(self, url, tokens, version):
        return [(e[1][len(tokens):], e[3]) for e in self.entries
                if e[0] == url and e[2] == version and self.under(e[1], tokens)]


def descend(obj, tokens):
    for t in tokens:
        if obj is None:
            return None
        if hasattr(obj, 'keys'):
            obj = obj[t] if t in obj else None
        elif isinstance(obj, (v2.Swagger, v3.OpenApi)):
            obj = obj.definitions if t == 'definitions' and isinstance(obj, v2.Swagger) else \
                obj.info if t == 'info' else None
        elif isinstance(obj, (v2.Schema, v3.Schema)):
            obj = obj.properties if t == 'properties' else obj.items if t == 'items' else \
                obj.title if t == 'title' else obj.description if t == 'description' else None
        elif isinstance(obj, (v2.Info, v3.Info)):
            obj = obj.title if t == 'title' else None
        else:
            obj = None
    return obj


def pointer(tokens):
    return '/'.join(['#'] + [enc(t) for t in tokens])


def make(S, mod, shape, name, inner):
    """an object to store; below it there is a property called `inner`"""
    spec = S.mkdict([('title', 's'), ('properties', S.mkdict([(inner, {'items': {'title': 'deep'}})]))])
    if shape == 'root':
        if mod is v2:
            return mod.Swagger(S.mkdict([('swagger', '2.0'), ('definitions', S.mkdict(
                [(name, spec), ('a', {'description': 'said in the document only'})] if name != 'a' else [(name, spec)])),
                                         ('info', {'title': ''})]), '#', {})
        return mod.OpenApi({'openapi': '3.0.0', 'info': {'title': '', 'version': ''}, 'paths': {}}, '#', {})
    return mod.Schema(spec, '#', {})


def where(S, i, shape, size, alpha='a/~'):
    if shape == 'root':
        return []
    if shape == 'nested':
        return ['definitions', 'a', 'properties', S.str('prop%d' % i, 1, alpha=alpha)]
    return ['definitions', S.str('name%d' % i, size, alpha=alpha)]


def fill(S, n, size):
    m = Model(S, SpecObjStore(['1.2', '2.0', '3.0.0']))
    for i in range(n):
        url, version = S.pick('for%d' % i, [(URLS[0], '2.0'), (URLS[0], '3.0.0'), (URLS[1], '2.0')]) if i else \
            (URLS[0], '2.0')
        shape = S.pick('shape%d' % i, ['root', 'schema', 'nested'])
        tokens = where(S, i, shape, size)
        m.put(url, tokens, version, make(S, v2 if version == '2.0' else v3, shape, 'ab', 'a/'))
    return m


def same_place(S, got, want):
    return got is want or (isinstance(want, str) and S.same(got, want))


@case(dict(entries=2, name=1), [dict(entries=2, name=2), dict(entries=3, name=1)])
def get(S):
    """a lookup returns what is stored there, or the descendant of the nearest stored ancestor that has one"""
    m = fill(S, S.B.entries, S.B.name)
    q = []
    if S.pick('deep', [False, True]):
        q = ['definitions', S.str('q', 2, alpha='ab/~')]
        rest = S.pick('rest', ['', 'p', 'pi', 'pit', 'x', 'd'])
        if rest in ('x', 'd'):
            q.append('xml' if rest == 'x' else 'description')
        elif rest:
            q += ['properties', S.pick('p', ['a/', None]) or S.str('p1', 1, alpha='a/~')]
            q += ['items'] if 'i' in rest else []
            q += ['title'] if 't' in rest else []
    else:
        q = S.pick('flat', [[], ['info'], ['info', 'title'], ['definitions'], ['def']])
    url, version = URLS[0], S.pick('version', VERSIONS)
    want = m.get(url, q, version)
    got = S.returns(lambda: m.store.get(url, pointer(q), version), 'a lookup does not fail')
    S.check(same_place(S, got, want), 'the object at the pointer, or nothing',
            lambda: '%r in %r gave %r, expected %r' % (pointer(q), [(u, pointer(t), v) for u, t, v, _ in m.entries],
                                                       got, want))


@case(dict(entries=2, name=2), [dict(entries=3, name=1), dict(entries=3, name=2)])
def get_under(S):
    """exactly what is stored at or below a pointer, by relative pointers, and removed only when asked for"""
    m = fill(S, S.B.entries, S.B.name)
    url, version = URLS[0], '2.0'
    base = S.pick('base', [[], None, 'deep'])
    if base is None:
        base = ['definitions', S.str('b', 2, alpha='ab/~')]
    elif base == 'deep':
        base = ['definitions', S.str('b1', 1, alpha='ab'), 'properties']
    remove = S.pick('remove', [True, False, None])
    want = m.below(url, base, version)
    args = (url, pointer(base), version)
    got = S.returns(lambda: m.store.get_under(*args) if remove is None else m.store.get_under(*args, remove=remove),
                    'collecting does not fail')
    got = {} if got is None else got
    S.check(len(got) == len(want), 'as many objects as are stored below',
            lambda: '%r below %r' % ([(u, pointer(t), v) for u, t, v, _ in m.entries], pointer(base)))
    for tokens, obj in want:
        k = '/'.join([enc(t) for t in tokens])
        S.check(k in got, 'keyed by its relative pointer', lambda: '%r not in %r' % (k, list(got)))
        S.check(got[k] is obj, 'the object stored there')
    for u, t, v, obj in m.entries:
        gone = remove is not False and u == url and v == version and m.under(t, base)
        now = m.store.get_under(u, pointer(t), v, remove=False)
        now = {} if now is None else now
        if gone:
            S.check('' not in now, 'removed when asked to')
        else:
            S.check('' in now and now[''] is obj, 'everything else stays')


@case(dict(steps=3), [dict(steps=4)])
def history(S):
    """storing, collecting and looking up in any order"""
    m = Model(S, SpecObjStore(['1.2', '2.0', '3.0.0']))
    places = [[], ['definitions', 'a'], ['definitions', 'ab'], ['definitions', 'a', 'properties', 'a/']]
    for i in range(S.B.steps):
        tokens = S.pick('at%d' % i, places)
        how = S.pick('step%d' % i, ['set2', 'set3', 'take', 'look'])
        if how == 'take':
            got = m.store.get_under(URLS[0], pointer(tokens), '2.0')
            want = m.below(URLS[0], tokens, '2.0')
            S.check(len(got or {}) == len(want), 'everything below is collected')
            m.entries = [e for e in m.entries if not (e[2] == '2.0' and m.under(e[1], tokens))]
        elif how == 'look':
            got = m.store.get_under(URLS[0], pointer(tokens), '3.0.0', remove=False)
            S.check(len(got or {}) == len(m.below(URLS[0], tokens, '3.0.0')), 'everything below is collected')
        else:
            version = '2.0' if how == 'set2' else '3.0.0'
            mod = v2 if how == 'set2' else v3
            m.put(URLS[0], tokens, version, make(S, mod, 'schema' if tokens else 'root', 'a', 'a/'))
        for t in places + [['definitions', 'a', 'title'], ['definitions', 'abc']]:
            for v in VERSIONS:
                want = m.get(URLS[0], t, v)
                got = S.returns(lambda: m.store.get(URLS[0], pointer(t), v), 'a lookup does not fail')
                S.check(same_place(S, got, want), 'the store answers for what is stored now')
                S.check(m.store.get(URLS[1], pointer(t), v) is None, 'other documents are empty')


@case(dict(), [])
def refused(S):
    """only objects of a specification are stored, and nothing is removed by accident"""
    store = SpecObjStore(['1.2', '2.0', '3.0.0'])
    bad = S.pick('bad', [{}, [], 'x', 1, None])
    S.raises(lambda: store.set(bad, URLS[0], '#', '2.0'), Exception, 'not an object')
    S.check(store.get(URLS[0], '#', '2.0') is None, 'and nothing is stored')
    S.raises(lambda: store.get_under(URLS[0], '', '2.0'), Exception, 'no pointer to remove under')
