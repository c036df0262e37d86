# -*- coding: utf-8 -*-
"""C04 scoped names."""
from sx.capi import case
from pyopenapi.utils import ScopeDict, scope_compose, scope_split

ASSUMPTIONS = ['keys of one to three non-empty scopes; scopes are drawn from a small alphabet that includes the '
               'characters of the separator, but no scope contains the separator']
ALPHA = 'aA!#'


def scopes(S, name, n, maxlen, sep):
    out = []
    for i in range(n):
        s = S.str('%s.%d' % (name, i), maxlen, 1, ALPHA)
        out.append(s)
    return out


def compose(scopes_, sep):
    return sep.join(scopes_)


def last(key, sep):
    return key.rsplit(sep, 1)[-1]


def expected(keys, text, sep):
    """('ok', index) | 'missing' | 'ambiguous'"""
    for i, k in enumerate(keys):
        if k == text:
            return ('ok', i)
    ends = [i for i, k in enumerate(keys) if k.endswith(text)]
    if not ends:
        return 'missing'
    if len(ends) == 1:
        return ('ok', ends[0])
    l = last(text, sep)
    same = [i for i in ends if last(keys[i], sep) == l]
    if len(same) == 1:
        return ('ok', same[0])
    return 'ambiguous'


def build(S, shapes, sep, own):
    keys = []
    d = ScopeDict()
    if own:
        d.sep = sep
    for i, n in enumerate(shapes):
        sc = scopes(S, 'k%d' % i, n, S.B.len, sep)
        k = compose(sc, sep)
        S.assume(S.not_(S.any_of([S.same(k, o) for o in keys])))
        keys.append(k)
        d[k] = i
    return d, keys


def lookup(S, d, keys, how, text, sep):
    want = expected(keys, text, sep)
    r = S.trap(lambda: d[how])
    if want == 'missing':
        S.check(r[0] == 'err' and isinstance(r[1], KeyError), 'no key ends with the text: KeyError')
    elif want == 'ambiguous':
        S.check(r[0] == 'err' and isinstance(r[1], ValueError), 'several keys match: ambiguity error')
    else:
        S.check(r[0] == 'ok' and S.same(r[1], want[1]), 'the identified value is returned',
                lambda: 'keys %r text %r gave %r, expected key %r' % (keys, text, r, want[1]))


SHAPES = [(1,), (1, 1), (2,), (2, 1), (2, 2), (1, 1, 1), (2, 1, 2), (3, 2)]


@case(dict(len=2, text=4, shapes=7), [dict(len=2, text=6, shapes=8), dict(len=3, text=3, shapes=5)])
def by_text(S):
    """lookup by any text with the default separator"""
    shape = S.pick('shape', SHAPES[:S.B.shapes])
    d, keys = build(S, shape, '!##!', False)
    text = S.str('text', S.B.text, 1, ALPHA)
    lookup(S, d, keys, text, text, '!##!')


@case(dict(len=2, shapes=7, n=2), [dict(len=2, shapes=8, n=3), dict(len=3, shapes=5, n=2)])
def by_scopes(S):
    """lookup by a sequence of scopes"""
    sep = S.pick('sep', ['!##!', '/', '#'])
    shape = S.pick('shape', SHAPES[:S.B.shapes])
    for_ = ALPHA
    d, keys = build(S, shape, sep, sep != '!##!')
    n = S.length('n', 1, S.B.n)
    sc = scopes(S, 't', n, S.B.len, sep)
    for s in sc:
        S.assume(S.not_(sep in s))
    for k, m in zip(keys, shape):
        S.assume(len(k.split(sep)) == m)
    text = compose(sc, sep)
    how = S.pick('how', ['string', 'tuple', 'with none'])
    if how == 'string':
        lookup(S, d, keys, text, text, sep)
    elif how == 'tuple':
        lookup(S, d, keys, tuple(sc), text, sep)
    else:
        lookup(S, d, keys, (None,) + tuple(sc), text, sep)


@case(dict(len=2, n=2), [dict(len=2, n=3), dict(len=3, n=3)])
def deep_scopes(S):
    """names of three scopes looked up by their last ones"""
    sep = S.pick('sep', ['!##!', '/'])
    shape = S.pick('shape', [(3, 3), (3, 2), (3, 1), (4, 3)])
    d, keys = build(S, shape, sep, sep != '!##!')
    for k, m in zip(keys, shape):
        S.assume(len(k.split(sep)) == m)
    n = S.length('n', 1, S.B.n)
    sc = scopes(S, 't', n, S.B.len, sep)
    for s in sc:
        S.assume(S.not_(sep in s))
    lookup(S, d, keys, compose(sc, sep), compose(sc, sep), sep)


@case(dict(len=2, n=3), [dict(len=3, n=3)])
def compose_split(S):
    """composed scopes split into the same scopes; empty levels are left out"""
    sep = S.pick('sep', ['!##!', '/', '::'])
    n = S.length('n', 1, S.B.n)
    cur = S.pick('start', [None, ''])
    want = []
    for i in range(n):
        kind = S.pick('kind%d' % i, ['some', 'none'])
        if kind == 'none':
            cur = scope_compose(cur, None, sep=sep)
            continue
        s = S.str('s%d' % i, S.B.len, 1, 'ab!#')
        S.assume(S.not_(s[0] in '!#') and S.not_(s[-1] in '!#'))
        cur = scope_compose(cur, s, sep=sep)
        want.append(s)
    S.assume(want)
    text = sep.join(want)
    S.check(S.same(cur, text), 'scopes joined by the separator')
    S.check(S.same(scope_split(cur, sep=sep), want), 'split returns the scopes')
    S.check(S.same(scope_split(None), [None]), 'no scope')
