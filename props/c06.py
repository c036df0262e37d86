# -*- coding: utf-8 -*-
"""C06 following references."""
from sx.capi import case
from pyopenapi import errs
from pyopenapi.utils import deref, final, CycleGuard
from pyopenapi.migration.versions.v2_0 import objects as v2, attrs as a2
from pyopenapi.migration.versions.v3_0_0 import objects as v3, attrs as a3

ASSUMPTIONS = ['chains of at most 5 objects; every link of the chain, the kind of each object and whether it carries '
               'a reference at all are symbolic']

KINDS = [
    ('schema', lambda d: v2.Schema(d), a2.SchemaAttributeGroup),
    ('ref2', lambda d: v2.Reference(d), a2.ReferenceAttributeGroup),
    ('ref3', lambda d: v3.Reference(d), a3.ReferenceAttributeGroup),
    ('item3', lambda d: v3.PathItem(d), a3.PathItemAttributeGroup),
    ('plain', lambda d: v3.Info(dict(title='t', version='1')), None),
    # an object without content
    ('empty', lambda d: v3.Callback(d), None),
]


def graph(S, n, kinds):
    """objects, and for every object the index of the object it refers to (None: not resolved, -1: no reference)"""
    objs, links = [], []
    for i in range(n):
        k = S.pick('kind%d' % i, kinds)
        name, make, group = KINDS[k]
        if group is None:
            objs.append(make({}))
            links.append(-1)
            continue
        state = S.pick('state%d' % i, ['resolved', 'unresolved', 'no attributes', 'none'] if not name.startswith('ref')
                       else ['resolved', 'unresolved', 'no attributes'])
        spec = {} if state == 'none' else {'$ref': S.str('r%d' % i, 1)}
        objs.append(make(spec))
        if state in ('resolved', 'unresolved'):
            objs[-1].get_attrs('migration', group)
        links.append({'resolved': 0, 'unresolved': None, 'no attributes': None, 'none': -1}[state])
    for i in range(n):
        if links[i] == 0:
            j = S.pick('next%d' % i, range(n))
            links[i] = j
            objs[i].get_attrs('migration').ref_obj = objs[j]
    return objs, links


def walk(links, start):
    """index of the end of the chain, or None for a cycle"""
    seen, cur = [], start
    while True:
        if cur in seen:
            return None
        seen.append(cur)
        if links[cur] is None or links[cur] == -1:
            return cur
        cur = links[cur]


@case(dict(n=3, kinds=6), [dict(n=4, kinds=2), dict(n=4, kinds=3)])
def chain(S):
    """deref reaches the end of any chain, or reports a cycle"""
    n = S.length('n', 1, S.B.n)
    objs, links = graph(S, n, range(S.B.kinds))
    end = walk(links, 0)
    r = S.trap(lambda: deref(objs[0]))
    if end is None:
        S.check(r[0] == 'err' and isinstance(r[1], errs.CycleDetectionError), 'a cycle is reported')
    else:
        S.check(r[0] == 'ok' and r[1] is objs[end], 'the end of the chain is returned',
                lambda: 'links %r gave %r' % (links, r))
        if links[0] is None or links[0] == -1:
            S.check(deref(objs[0]) is objs[0], 'an object without a resolved reference is returned as it is')


@case(dict(n=3), [dict(n=4)])
def guarded(S):
    """a guard shared between calls reports any object seen before"""
    n = S.length('n', 1, S.B.n)
    objs, links = graph(S, n, [1])
    guard = CycleGuard()
    seen = []
    for step in range(2):
        start = S.pick('start%d' % step, range(n))
        path, cur, cyc = [], start, False
        while True:
            if cur in seen:
                cyc = True
                break
            seen.append(cur)
            if links[cur] is None or links[cur] == -1:
                break
            cur = links[cur]
        r = S.trap(lambda: deref(objs[start], guard))
        if cyc:
            S.check(r[0] == 'err' and isinstance(r[1], errs.CycleDetectionError), 'an object seen before is a cycle')
            return
        S.check(r[0] == 'ok' and r[1] is objs[cur], 'the end of the chain is returned')


@case(dict(n=4), [dict(n=6)])
def guard_alone(S):
    """the guard reports exactly the objects it has seen; equal objects are not the same object"""
    objs = [v3.Reference({'$ref': '#/a'}) for _ in range(3)]
    guard = CycleGuard()
    seen = []
    for i in range(S.B.n):
        j = S.pick('j%d' % i, range(3))
        r = S.trap(lambda: guard.update(objs[j]))
        if j in seen:
            S.check(r[0] == 'err' and isinstance(r[1], errs.CycleDetectionError), 'seen before')
            return
        S.check(r[0] == 'ok', 'not seen before')
        seen.append(j)


@case(dict(), [])
def final_object(S):
    """final() gives the merged object when there is one"""
    ref = S.pick('ref', [True, False])
    merged = S.pick('merged', [True, False])
    item = v3.PathItem({'$ref': '#/x'} if ref else {})
    other = v3.PathItem({})
    a = item.get_attrs('migration', a3.PathItemAttributeGroup)
    if merged:
        a.final_obj = other
    want = other if ref and merged else item
    S.check(final(item) is want, 'merged object only for a reference')
    S.check(deref(None) is None, 'nothing')
