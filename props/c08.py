# -*- coding: utf-8 -*-
"""C08 OpenAPI 3.0.0 objects keep their fields."""
from sx.capi import case
from pyopenapi.migration.versions.v3_0_0 import objects as v30
from . import tables
from .gen import Gen, SCALAR
from .app import ROOT, load

ASSUMPTIONS = ['explicit null is treated as absent and is not generated; vendor extensions are not claimed',
               'per object at most `most` optional entries present, or all of them; nesting up to `depth`; field '
               'values of any JSON type, falsy ones included']


def run(S, g, kind, spec):
    before = S.copy(spec)
    obj = S.returns(lambda: getattr(v30, kind)(spec, '#', {}), 'a valid object loads')
    g.check(obj, kind, before)
    g.dumps(obj, kind, before)
    S.check(S.same(spec, before), 'loading does not change the source')


@case(dict(most=1, depth=2), [dict(most=2, depth=1), dict(most=2, depth=2)])
def kinds30(S):
    """every 3.0.0 object kind on its own"""
    kind = S.pick('kind', sorted(tables.V30))
    g = Gen(S, tables.V30, v30, S.B.most, deep=1)
    g.siblings = True
    run(S, g, kind, g.obj(kind, kind, S.B.depth, S.B.most, every=True))


@case(dict(most=1, depth=4), [dict(most=1, depth=5), dict(most=1, depth=6)])
def nested30(S):
    """chains of nested objects from the document root"""
    g = Gen(S, tables.V30, v30, S.B.most, keys=('p/~q',))
    g.siblings = True
    run(S, g, 'OpenApi', g.obj('OpenApi', 'doc', S.B.depth))


@case(dict(depth=2), [dict(depth=3)])
def document30(S):
    """a 3.0.0 document loaded through the application"""
    g = Gen(S, tables.V30, v30, 1, keys=('p/~q',), leaf=SCALAR)
    g.siblings = True
    spec = g.obj('OpenApi', 'doc', S.B.depth)
    S.assume(S.not_('openapi' in spec))
    spec['openapi'] = '3.0.0'
    before = S.copy(spec)
    a, obj = load({ROOT: spec})
    g.check(obj, 'OpenApi', before)
    g.dumps(obj, 'OpenApi', before)
    S.check(a.load_obj(ROOT) is obj, 'loading again gives the same object')
    S.check(S.same(a.original_spec_version, '3.0.0'), 'the version is known')


@case(dict(), [])
def alias_write(S):
    """writing through the alias of a reference is read back under its name"""
    kind = S.pick('kind', ['Reference', 'PathItem'])
    o = getattr(v30, kind)({'$ref': '#/a'})
    v = S.str('v', 2)
    if S.pick('how', ['alias', 'name']) == 'alias':
        o.ref = v
    else:
        setattr(o, '$ref', v)
    S.check(S.same(o.ref, v) and S.same(getattr(o, '$ref'), v), 'one value under both names')
