# -*- coding: utf-8 -*-
"""C07 Swagger 1.2 and 2.0 objects keep their fields."""
from sx.capi import case
from pyopenapi.migration.versions.v1_2 import objects as v12
from pyopenapi.migration.versions.v2_0 import objects as v20
from . import tables
from .gen import Gen, SCALAR
from .app import ROOT, load

ASSUMPTIONS = ['explicit null is treated as absent and is not generated; vendor extensions are not claimed',
               'per object at most `most` optional entries present, or all of them; nesting up to `depth`; field '
               'values of any JSON type, falsy ones included']


def run(S, g, kind, spec, mod):
    before = S.copy(spec)
    obj = S.returns(lambda: getattr(mod, kind)(spec, '#', {}), 'a valid object loads')
    g.check(obj, kind, before)
    g.dumps(obj, kind, before)
    S.check(S.same(spec, before), 'loading does not change the source')


@case(dict(most=1, depth=2), [dict(most=2, depth=1), dict(most=2, depth=2)])
def kinds20(S):
    """every 2.0 object kind on its own"""
    kind = S.pick('kind', sorted(tables.V20))
    g = Gen(S, tables.V20, v20, S.B.most, deep=1)
    g.siblings = True
    run(S, g, kind, g.obj(kind, kind, S.B.depth, S.B.most, every=True), v20)


@case(dict(most=1, depth=4), [dict(most=1, depth=5), dict(most=1, depth=6)])
def nested20(S):
    """chains of nested objects from the document root"""
    g = Gen(S, tables.V20, v20, S.B.most, keys=('p/~q',))
    g.siblings = True
    run(S, g, 'Swagger', g.obj('Swagger', 'doc', S.B.depth), v20)


@case(dict(most=2, depth=1), [dict(most=2, depth=2), dict(most=3, depth=1)])
def kinds12(S):
    """every 1.2 object kind on its own"""
    kind = S.pick('kind', sorted(tables.V12))
    g = Gen(S, tables.V12, v12, S.B.most, deep=1)
    g.siblings = True
    run(S, g, kind, g.obj(kind, kind, S.B.depth, S.B.most, every=True), v12)


@case(dict(most=1, depth=6), [dict(most=2, depth=6)])
def nested12(S):
    """chains of nested objects from the roots of both document kinds"""
    g = Gen(S, tables.V12, v12, S.B.most, keys=('p/~q',))
    g.siblings = True
    kind = S.pick('kind', ['ApiDeclaration', 'ResourceListing'])
    run(S, g, kind, g.obj(kind, 'doc', S.B.depth), v12)


@case(dict(depth=2), [dict(depth=3)])
def document20(S):
    """a 2.0 document loaded through the application"""
    g = Gen(S, tables.V20, v20, 1, keys=('p/~q',), leaf=SCALAR)
    g.siblings = True
    spec = g.obj('Swagger', 'doc', S.B.depth)
    S.assume(S.not_('swagger' in spec))
    spec['swagger'] = '2.0'
    before = S.copy(spec)
    a, obj = load({ROOT: spec})
    g.check(obj, 'Swagger', before)
    g.dumps(obj, 'Swagger', before)
    S.check(a.load_obj(ROOT) is obj, 'loading again gives the same object')
    S.check(S.same(a.original_spec_version, '2.0'), 'the version is known')


@case(dict(n=2), [dict(n=3)])
def document12(S):
    """a 1.2 listing and its declarations loaded through the application"""
    n = S.length('n', 1, S.B.n)
    names = ['p%d' % i for i in range(n)]
    g = Gen(S, tables.V12, v12, 1, keys=('p/~q',), leaf=SCALAR)
    g.siblings = True
    url, base = S.pick('base', [('http://h/d', 'http://h/d'), ('http://h/d/r.json', 'http://h/d')])
    spec = g.obj('ResourceListing', 'doc', 1, every=True)
    spec['swaggerVersion'] = '1.2'
    spec['apis'] = [S.mkdict([('path', '/' + x)]) for x in names]
    docs = {url: spec}
    for i, x in enumerate(names):
        docs[base + '/' + x] = g.obj('ApiDeclaration', x, 1) if i == 0 else g.plain('ApiDeclaration', x, 0)
    before = S.copy(docs)
    a, obj = load(docs, url)
    g.check(obj, 'ResourceListing', before[url])
    S.check(S.same(sorted(obj.cached_apis), names), 'every declaration is loaded')
    for x in names:
        g.check(obj.cached_apis[x], 'ApiDeclaration', before[base + '/' + x])
        S.check(S.same(g.norm('ApiDeclaration', obj.cached_apis[x].dump()),
                       g.strip('ApiDeclaration', before[base + '/' + x])), 'dump gives the content back')
