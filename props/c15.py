# -*- coding: utf-8 -*-
"""C15 schemas from 2.0 to 3.0.0."""
from sx.capi import case
from . import tables, up
from .app import migrate, ROOT
from .gen import Gen
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30
from pyopenapi.migration.versions.v2_0.scanner.upgrade import converters

ASSUMPTIONS = ['schemas with at most `most` keywords or sub-schemas at every level next to the schema with all of them, '
               'nested `depth` levels; keyword values of every JSON kind, falsy ones included; names of properties and '
               'definitions of two characters out of "a", "/", "~", next to fixed ones',
               'an empty discriminator, an empty list of required names and empty containers of sub-schemas may go']


class Schemas(Gen):
    """2.0 schemas that are valid as far as their shape goes"""

    def __init__(self, S, most, keys, rich=True):
        super(Schemas, self).__init__(S, tables.V20, v20, most, keys)
        self.rich = rich

    def leaf(self, name):
        S = self.S
        f = name[name.rfind('.') + 1:]
        if f == 'required':
            return S.pick(name, [[], ['r1'], ['n', 'r2'], ['r2', 'a/~b']])
        if f == 'type':
            return S.choice(name, ['string', 'object', 'array', 'file', 'integer'])
        if f in ('discriminator', 'url'):
            return S.str(name, 1)
        if f == 'enum':
            return S.any(name, 1, ('elist', 'list', 'list2'))
        if f in ('attribute', 'wrapped', 'readOnly', 'uniqueItems', 'exclusiveMaximum', 'exclusiveMinimum'):
            return S.bool(name)
        if f in ('default', 'example'):
            return S.any(name, 1, ('str', 'zero', 'false', 'true', 'estr', 'elist', 'edict', 'list', 'float'))
        return S.any(name, 1, ('str', 'zero', 'int', 'float', 'estr'))

    def obj(self, kind, name, depth, most=None, every=False, only=None):
        d = super(Schemas, self).obj(kind, name, depth, most, every, only)
        return self.fix(kind, d, name)

    def plain(self, kind, name, depth, every=False):
        d = super(Schemas, self).plain(kind, name, depth, every)
        if every and kind == 'Schema':
            del d['$ref']
        return self.fix(kind, d, name)

    def fix(self, kind, d, name):
        if kind == 'ExternalDocumentation' and 'url' not in d:
            d['url'] = self.S.str(name + '.url!', 1)
        return d


def document(S, name, schema, **more):
    doc = S.mkdict([('swagger', '2.0'), ('info', {'title': 't', 'version': '1'}),
                    ('paths', {'/p': {'get': {'responses': {'200': {'description': ''}}}}}),
                    ('definitions', S.mkdict([(name, schema), ('', {}), ('T', {'title': 'T'})]))])
    for k in more:
        doc[k] = more[k]
    return doc


def read(S, obj):
    return Gen(S, tables.V30, v30).read(obj)


def compare(S, got, spec, label):
    g = Gen(S, tables.V30, v30)
    want = g.strip('Schema', up.schema(S, spec)) if '$ref' not in spec else up.schema(S, spec)
    have = g.strip('Schema', got) if '$ref' not in got else got
    S.check(S.same(have, want), label, lambda: '%r gave %r, expected %r' % (spec, have, want))


@case(dict(depth=2, most=1), [dict(depth=3, most=1), dict(depth=1, most=2)])
def keywords(S):
    """every keyword at every position"""
    g = Schemas(S, S.B.most, ('a/~b', 'n'))
    spec = g.obj('Schema', 's', S.B.depth, every=True)
    if '$ref' in spec:
        spec = {'$ref': '#/definitions/T'}
    spec = local(S, spec)
    app, old, new = migrate({ROOT: document(S, 'X', spec)})
    compare(S, read(S, new.components.schemas['X']), spec, 'the migrated schema means the same')


def local(S, spec, target='#/definitions/T'):
    """point all references at an existing definition"""
    if isinstance(spec, list):
        return [local(S, x, target) for x in spec]
    if not isinstance(spec, dict):
        return spec
    out = S.mkdict()
    for k in spec:
        if k == '$ref':
            return S.mkdict([('$ref', target)])
        if k in ('items', 'additionalProperties', 'allOf'):
            out[k] = local(S, spec[k], target)
        elif k == 'properties':
            p = S.mkdict()
            for n in spec[k]:
                p[n] = local(S, spec[k][n], target)
            out[k] = p
        else:
            out[k] = spec[k]
    return out


@case(dict(name=2), [dict(name=3)])
def names(S):
    """schemas keep their names and places, whatever these are"""
    a, b = S.str('a', S.B.name, alpha='ab/~'), S.str('b', S.B.name, 1, alpha='a$/')
    p, q = S.str('p', S.B.name, alpha='a/~'), S.str('q', 1, 1, alpha='a/')
    S.assume(S.not_(S.same(p, q)))
    S.assume(S.not_(S.same(a, b)))
    S.assume(S.not_(S.same(a, 'T')))
    x = S.mkdict([('properties', S.mkdict([(p, {'title': 'p'}), (q, {'title': 'q', 'items': {'title': 'i'}})])),
                  ('allOf', [{'title': '0'}, {'title': '1', 'properties': S.mkdict([(p, {})])}])])
    y = S.mkdict([('title', 'y'), ('additionalProperties', {'properties': S.mkdict([(q, {'minimum': 0})])})])
    doc = S.mkdict([('swagger', '2.0'), ('info', {'title': 't', 'version': '1'}), ('paths', {}),
                    ('definitions', S.mkdict([(a, x), (b, y), ('T', {})]))])
    app, old, new = migrate({ROOT: doc})
    got = new.components.schemas
    S.check(len(got) == 3, 'as many schemas as definitions')
    for n, s in ((a, x), (b, y), ('T', {})):
        S.check(n in got, 'under the same name')
        compare(S, read(S, got[n]), s, 'the migrated schema means the same')


@case(dict(depth=1), [dict(depth=2)])
def places(S):
    """schemas of bodies and responses are upgraded like definitions; in parts of a document on their own, too"""
    where = S.pick('where', ['response', 'body', 'shared response', 'shared body', 'alone', 'file'])
    g = Schemas(S, 1, ('a/~b', ))
    spec = local(S, g.obj('Schema', 's', S.B.depth))
    if where == 'alone':
        from .app import load
        app, old = load({ROOT: document(S, 'X', spec)})
        part = app.load_obj(ROOT + '#/definitions/X', parser=v20.Schema)
        new = app.migrate_obj(part, ROOT + '#/definitions/X', '3.0.0')
        compare(S, local(S, read(S, new), '#/components/schemas/T'), spec, 'the migrated schema means the same')
        return
    if where == 'file':
        spec = S.mkdict([('type', 'file'), ('description', S.str('d', 1)), ('default', S.any('v', 1, ('str', 'zero')))])
        where = 'response'
    else:
        S.assume('type' not in spec or spec['type'] != 'file')
    resp, body = {'description': 'd', 'schema': spec}, {'name': 'b', 'in': 'body', 'schema': spec}
    op = {'responses': {'200': {'description': ''}}, 'consumes': ['a/b'], 'produces': ['a/b']}
    more = dict(consumes=['a/b'], produces=['a/b'])
    if where == 'response':
        op['responses'] = {'200': resp}
    elif where == 'body':
        op['parameters'] = [body]
    elif where == 'shared response':
        more['responses'] = {'R/': resp}
    elif where == 'shared body':
        more['parameters'] = {'B/': body}
    more['paths'] = {'/p': {'post': op}}
    app, old, new = migrate({ROOT: document(S, 'X', {}, **more)})
    new_op = new.paths['/p'].post
    if where == 'response':
        got = new_op.responses['200'].content
    elif where == 'body':
        got = new_op.requestBody.content
    elif where == 'shared response':
        got = new.components.responses['R/'].content
    else:
        got = new.components.requestBodies['B/'].content
    if len(spec) == 0 and (got is None or len(got) == 0):
        return
    S.check(got is not None and len(got) >= 1, 'offered under a media type')
    for k in got.keys():
        compare(S, read(S, got[k].schema) if got[k].schema is not None else {}, spec,
                'the migrated schema means the same')


@case(dict(), [])
def converter(S):
    """the converter alone, on schemas with all keywords"""
    g = Schemas(S, 1, ('a', ))
    g.leaf_ = g.leaf
    spec = g.plain('Schema', 's', S.pick('depth', [1, 2]), True)
    got = converters.to_schema(v20.Schema(spec, '#', {}), '#')
    compare(S, got, spec, 'the converted schema means the same')


SUB = {'items': [{'title': 'i'}], 'allOf': [[{'title': '0'}, {'title': '1'}]], 'additionalProperties': [False, True, {'title': 'a'}],
       'properties': [{'p': {'title': 'p'}, 'q/': {'minimum': 0}}], 'xml': [{'namespace': ''}, {'name': 'x', 'wrapped': False}],
       'externalDocs': [{'url': 'u'}], 'required': [['p', 'r']], 'enum': [[]], 'type': ['file', 'object'], 'discriminator': ['d']}
FLAGS = ('readOnly', 'uniqueItems', 'exclusiveMaximum', 'exclusiveMinimum')


@case(dict(), [])
def pairs(S):
    """any two keywords together, and all but any one"""
    every = [f for f in tables.V20['Schema'].fields if f != '$ref'] + sorted(tables.V20['Schema'].children)
    values = dict((f, lambda f=f: S.copy(S.pick(f, SUB[f])) if f in SUB else S.bool(f) if f in FLAGS else
                   S.any(f, 1, ('zero', 'str'))) for f in every)
    if S.pick('how', ['two', 'all but one']) == 'two':
        i = S.pick('i', range(len(every) - 1))
        j = S.pick('j', range(i + 1, len(every)))
        keep = [every[i], every[j]]
    else:
        i = S.pick('i', range(len(every)))
        keep = [f for f in every if f != every[i]]
    # a path of its own for each of the values of one or two keywords; else the last one of each
    spec = S.mkdict([(f, values[f]() if len(keep) < 3 or f == 'additionalProperties' else S.copy(SUB[f][-1]) if f in SUB else
                      S.bool(f) if f in FLAGS else 0) for f in keep])
    if len(keep) > 2 and 'xml' in keep:
        spec['xml'] = S.mkdict([('name', 'x'), ('wrapped', S.bool('wrapped')), ('attribute', S.bool('attribute'))])
    where = S.pick('where', ['definition', 'property']) if len(keep) > 2 else 'definition'
    s = spec if where == 'definition' else S.mkdict([('properties', S.mkdict([('h', spec)]))])
    app, old, new = migrate({ROOT: document(S, 'X', s)})
    compare(S, read(S, new.components.schemas['X']), s, 'the migrated schema means the same')
