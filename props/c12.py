# -*- coding: utf-8 -*-
"""C12 relocation of pointers."""
from sx.capi import case
from pyopenapi.migration.store import SpecObjStore

ASSUMPTIONS = ['route tables of the forms listed in the harness (flat routes; nested routes with default, relative and '
               'absolute targets) whose names are any string of at most `name` characters out of "/", "~", "a", "b"; '
               'pointers with up to three tokens after their first',
               'not covered: tables in which a plain route and a nested route of one level overlap']
URL, OTHER, THIRD = 'http://h/a.json', 'http://h/b.json', 'http://h/c.json'
VERSIONS = ['1.2', '2.0', '3.0.0']


def enc(x):
    return x.replace('~', '~0').replace('/', '~1')


def tok(jp):
    return jp.split('/')


def starts(tokens, prefix):
    if len(prefix) > len(tokens):
        return False
    for i in range(len(prefix)):
        if tokens[i] != prefix[i]:
            return False
    return True


def relocated(jp, flat):
    """flat: [(source tokens, target pointer)], the longest source that is a prefix by whole tokens wins"""
    tokens = tok(jp)
    best = None
    for src, dst in flat:
        if starts(tokens, src) and (best is None or len(src) > len(best[0])):
            best = (src, dst)
    if best is None:
        return jp
    return '/'.join([best[1]] + tokens[len(best[0]):])


def flatten(routes, prefix=None):
    """[(source tokens, absolute target)] of a nested table; '' is the default of its level"""
    out = []
    for k, v in routes:
        src = (prefix or []) + (tok(k) if k else [])
        if isinstance(v, list):
            out += flatten(v, src)
        elif v[:1] == '#':
            out.append((src, v))
        else:
            out.append((src, '/'.join((prefix or []) + [v])))
    return out


def table(S, routes):
    """as the dictionary the store takes"""
    return S.mkdict([(k, table(S, v) if isinstance(v, list) else v) for k, v in routes])


def names(S):
    a = enc(S.str('a', S.B.name, 1, alpha='a/~'))
    b = enc(S.str('b', S.B.name, 1, alpha='ab'))
    S.assume(S.not_(S.same(a, b)))
    return a, b


def pointer(S, heads):
    head = S.pick('head', heads)
    n = S.length('tokens', 0, S.B.tokens)
    out = [head]
    for i in range(n):
        out.append(enc(S.str('t%d' % i, 2 if i == 0 else 1, alpha='ab/~' if i == 0 else 'ab')))
    return '/'.join(out)


def shapes(S):
    """a table of routes"""
    a, b = names(S)
    shape = S.pick('shape', ['flat', 'nested', 'paths', 'deep', 'whole', 'none'])
    if shape == 'flat':
        r = [('#/d/' + a, '#/c/x'), ('#/d/' + b, '#/e/' + b), ('#/d', '#/s')]
        if S.pick('order', [False, True]):
            r = r[::-1]
        return r if S.pick('default', [False, True]) else [x for x in r if x[0] != '#/d']
    if shape == 'nested':
        r = [('d', 'c/s'), ('p', [('', '#/c/p'), (a, '#/c/r/' + a), (b, 'moved')])]
        return [('#', r)]
    if shape == 'paths':
        r = [('p', [(a, [('q/1', 'x'), ('q/2', 'q/1'), ('get', [('q/0', 'x')])]), (b, [('q/1', '#/b')])])]
        return [('#', r)]
    if shape == 'deep':
        return [('#/d/' + a, [('p/b', 'p/c'), ('p', 'r')]), ('#/d/' + a + '/i', '#/i')]
    if shape == 'whole':
        return [('#', '#/c/' + a)]
    return []


HEADS = ['#', '#/d', '#/p', '#/dd', '#/d/a/p']


@case(dict(name=1, tokens=2), [dict(name=1, tokens=3), dict(name=2, tokens=2)])
def longest(S):
    """the longest route by whole tokens is replaced, the rest is kept"""
    routes = shapes(S)
    jp = pointer(S, HEADS)
    if S.pick('more', [False, True]):
        jp += S.pick('rest', ['/q/1', '/q/1/s', '/q/10', '/q/2', '/get/q/0', '/get/q/0/x/y', '/get/q', '/p/b/c', '/p/bc',
                              '/i', '/i/j'])
    store = SpecObjStore(VERSIONS)
    store.update_routes(URL, '3.0.0', table(S, routes))
    want = relocated(jp, flatten(routes))
    got = S.returns(lambda: store.relocate(URL, jp, '2.0', '3.0.0'), 'relocating does not fail')
    S.check(S.same(got, want), 'relocated by the longest route', lambda: '%r by %r gave %r, expected %r'
            % (jp, routes, got, want))
    got = S.returns(lambda: store.relocate(URL, jp, '2.0'), 'relocating to the default version does not fail')
    S.check(S.same(got, want), 'the newest version is the default target')
    S.check(S.same(store.relocate(OTHER, jp, '2.0', '3.0.0'), jp), 'routes of another document do not apply')
    S.check(S.same(store.relocate(URL, jp, '3.0.0', '3.0.0'), jp), 'nothing to do in the same version')


@case(dict(), [])
def steps(S):
    """exactly the steps between two versions, in order"""
    store = SpecObjStore(VERSIONS)
    a, b = enc(S.str('a', 2, 1, alpha='a/~')), enc(S.str('b', 1, 1, alpha='a~'))
    r2 = [('#/x/' + a, '#/y/' + b), ('#/x', '#/z')]
    r3 = [('#/y/' + b, '#/w'), ('#/y', '#/v'), ('#/x', '#/u'), ('#/z', '#/x')]
    order = S.pick('order', ['32', '23'])
    for i in order:
        store.update_routes(URL, '2.0' if i == '2' else '3.0.0', table(S, r2 if i == '2' else r3))
    jp = '/'.join([S.pick('head', ['#/x', '#/y', '#/z', '#'])] +
                  [enc(S.str('t%d' % i, 1, 1, alpha='a~/')) for i in range(S.length('n', 0, 2))])
    from_ = S.pick('from', VERSIONS)
    to = S.pick('to', VERSIONS)
    want = jp
    for v, r in (('2.0', r2), ('3.0.0', r3)):
        if VERSIONS.index(from_) < VERSIONS.index(v) <= VERSIONS.index(to):
            want = relocated(want, r and [(tok(s), d) for s, d in r])
    got = S.returns(lambda: store.relocate(URL, jp, from_, to), 'relocating does not fail')
    S.check(S.same(got, want), 'every step once, in order', lambda: '%r from %s to %s gave %r, expected %r'
            % (jp, from_, to, got, want))


@case(dict(n=3), [dict(n=4)])
def updates(S):
    """routes accumulate per document and version; the last one registered for a pointer counts"""
    store = SpecObjStore(VERSIONS)
    kept = []
    for i in range(S.length('n', 0, S.B.n)):
        url = S.pick('url%d' % i, [URL, OTHER, THIRD])
        src = S.pick('src%d' % i, ['#/d', '#/d/a', '#/d/ab', '#'])
        dst = S.pick('dst%d' % i, ['#/t%d' % i, None])
        store.update_routes(url, '3.0.0', {src: dst} if dst else {src: {}})
        if dst:
            kept = [k for k in kept if k[0] != (url, src)] + [((url, src), dst)]
    for url in (URL, OTHER, THIRD):
        for jp in ('#', '#/d', '#/d/a', '#/d/a/x', '#/d/ab', '#/d/abc', '#/e'):
            want = relocated(jp, [(tok(s), d) for (u, s), d in kept if u == url])
            got = S.returns(lambda: store.relocate(url, jp, '2.0', '3.0.0'), 'relocating does not fail')
            S.check(got == want, 'accumulated routes', lambda: '%r gave %r, expected %r' % (jp, got, want))


@case(dict(), [])
def versions(S):
    """unknown versions are refused, unknown documents are left alone"""
    store = SpecObjStore(VERSIONS)
    bad = S.pick('bad', ['1.1', '2.1', '3.0.1', '3.1.0', '', 'x'])
    S.raises(lambda: store.update_routes(URL, bad, {'#': '#/a'}), Exception, 'not a version')
    store.update_routes(URL, '3.0.0', {'#/b': '#/c'})
    if bad:
        S.raises(lambda: store.relocate(URL, '#/b', '2.0', bad), Exception, 'not a version')
    S.check(store.relocate(OTHER, '#/b', '2.0', '3.0.0') == '#/b', 'no routes')
