# -*- coding: utf-8 -*-
"""C13 the newest usable version of an object."""
from sx.capi import case
from pyopenapi.migration.store import SpecObjStore
from pyopenapi.migration.versions.v2_0 import objects as v2

ASSUMPTIONS = ['stores over `versions` versions with at most one object per version out of the candidate pointers, '
               'and any subset of the relocations between neighbouring versions']
URL, OTHER = 'http://h/a.json', 'http://h/b.json'
ALL = ['1.0', '2.0', '3.0', '3.1', '10.0']


def schema():
    return v2.Schema({'title': 't', 'properties': {'p': {'title': 'u'}}}, '#', {})


@case(dict(versions=4), [dict(versions=5)])
def newest(S):
    """the newest stored version in the range, under its relocated pointer"""
    versions = ALL[:S.B.versions] if S.B.versions < 5 else ALL
    store = SpecObjStore(versions)
    start = S.pick('start', range(len(versions)))
    until = S.pick('until', [None] + list(range(len(versions))))
    S.assume(until is None or until >= start)
    # the pointer at every version
    moved, jps = [], []
    cur = '#/d/x'
    for i in range(len(versions)):
        if i > start and S.pick('moved%d' % i, [False, True]):
            nxt = '#/v%d/x' % i
            store.update_routes(URL, versions[i], {cur[:-2]: nxt[:-2]})
            cur = nxt
        jps.append(cur)
    stored = []
    for i in range(len(versions)):
        where = S.pick('stored%d' % i, ['no', 'here', 'other pointer', 'other document', 'above', 'longer'])
        obj = schema()
        if where == 'no':
            pass
        elif where == 'other document':
            store.set(obj, OTHER, jps[i], versions[i])
        elif where == 'other pointer':
            store.set(obj, URL, '#/other', versions[i])
        elif where == 'longer':
            store.set(obj, URL, jps[i] + 'y', versions[i])
        elif where == 'above':
            store.set(v2.Schema({}, '#', {}), URL, jps[i][:-2], versions[i])
        else:
            store.set(obj, URL, jps[i], versions[i])
            stored.append((i, obj))
    last = len(versions) - 1 if until is None else until
    best = [(i, obj) for i, obj in stored if start <= i <= last]
    args = (URL, '#/d/x', versions[start])
    got = S.returns(lambda: store.get_until(*args) if until is None else store.get_until(*args, until=versions[until]),
                    'asking does not fail')
    S.check(len(got) == 3, 'object, pointer and version')
    if not best:
        S.check(got == (None, None, None), 'nothing in the range', lambda: '%r' % (got, ))
    else:
        i, obj = best[-1]
        S.check(got[0] is obj, 'the newest object in the range', lambda: '%r, expected %s' % (got, versions[i]))
        S.check(got[1] == jps[i], 'under the pointer relocated to its version', lambda: '%r' % (got, ))
        S.check(got[2] == versions[i], 'together with its version', lambda: '%r' % (got, ))


@case(dict(name=2), [dict(name=3)])
def names(S):
    """any names; children of stored objects; the default versions"""
    store = SpecObjStore()
    name = S.str('name', S.B.name, alpha='a/~01')
    other = S.str('other', 1, alpha='a/~')
    e = name.replace('~', '~0').replace('/', '~1')
    o = other.replace('~', '~0').replace('/', '~1')
    store.update_routes(URL, '3.0.0', {'#': {'definitions': 'components/schemas'}})
    old, new = schema(), schema()
    child = S.pick('child', ['', '/properties/p'])
    have = S.pick('have', ['old', 'new', 'both', 'none', 'unrelated'])
    if have in ('old', 'both'):
        store.set(old, URL, '#/definitions/' + e, '2.0')
    if have in ('new', 'both'):
        store.set(new, URL, '#/components/schemas/' + e, '3.0.0')
    if have == 'unrelated':
        S.assume(S.not_(S.same(name, other)))
        store.set(new, URL, '#/components/schemas/' + o, '3.0.0')
        store.set(new, URL, '#/definitions/' + e, '3.0.0')
    until = S.pick('until', [None, '2.0', '3.0.0'])
    jp = '#/definitions/' + e + child
    got = S.returns(lambda: store.get_until(URL, jp, '2.0', until=until), 'asking does not fail')
    want = None
    if have in ('new', 'both') and until != '2.0':
        want = (new, '#/components/schemas/' + e + child, '3.0.0')
    elif have in ('old', 'both'):
        want = (old, jp, '2.0')
    if want is None:
        S.check(got[0] is None and got[1] is None and got[2] is None, 'nothing is stored', lambda: '%r' % (got, ))
    else:
        S.check(got[0] is (want[0].properties['p'] if child else want[0]), 'the newest object')
        S.check(S.same(got[1], want[1]), 'its pointer', lambda: '%r' % (got, ))
        S.check(got[2] == want[2], 'its version')
