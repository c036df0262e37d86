# -*- coding: utf-8 -*-
"""C18 responses from 2.0 to 3.0.0."""
from sx.capi import case
from . import tables, up, c16
from .app import migrate, ROOT
from .gen import Gen
from pyopenapi.migration.versions.v3_0_0 import objects as v30

ASSUMPTIONS = ['responses with every subset of description, schema, examples and at most `n` headers; schemas that are '
               'absent, empty, a reference, an object with symbolic names and values, or a file',
               'names of responses and headers are any string of at most two characters out of "a", "/", "~" (a status '
               'code or "default" next to them)',
               'a reference to a response with a schema is inlined or kept, one without a schema is kept',
               'the default media type is any single one']
MIMES = (['a/b'], ['a/b', 'application/json'], ['x/y;q="1/2"', 'c/*'])


def read(x):
    return Gen(None, tables.V30, v30)


def verify(S, got, spec, mimes, label='a response'):
    """got: a 3.0.0 response object"""
    S.check(type(got) is v30.Response, 'a response stays a response')
    S.check(S.same(got.description, spec['description'] if 'description' in spec else None), 'the description is kept',
            lambda: '%r gave %r' % (spec, got.description))
    S.check(got.links is None or len(got.links) == 0, 'no links are invented')
    content = got.content
    if 'schema' not in spec:
        S.check(content is None or len(content) == 0, 'no content without a schema')
    else:
        s = spec['schema']
        file_ = 'type' in s and s['type'] == 'file'
        S.check(content is not None, 'content for a schema')
        if file_:
            S.check(len(content) == 1 and 'application/octet-stream' in content, 'a file is binary content',
                    lambda: '%r' % (list(content.keys()), ))
        elif mimes:
            S.check(len(content) == len(mimes), 'exactly the media types produced',
                    lambda: '%r, expected %r' % (list(content.keys()), mimes))
            for t in mimes:
                S.check(t in content, 'exactly the media types produced',
                        lambda: '%r, expected %r' % (list(content.keys()), mimes))
        else:
            S.check(len(content) == 1, 'one default media type')
        g = Gen(S, tables.V30, v30)
        want = up.schema(S, s)
        for t in content.keys():
            S.check('/' in t, 'a media type')
            m = content[t]
            have = g.read(m.schema) if m.schema is not None else S.mkdict()
            S.check(S.same(have, want), 'the schema under every media type', lambda: '%r gave %r, expected %r' %
                    (s, have, want))
            S.check(m.encoding is None or len(m.encoding) == 0, 'no encoding is invented')
    headers = spec['headers'] if 'headers' in spec else {}
    S.check((0 if got.headers is None else len(got.headers)) == len(headers), 'as many headers')
    for n in headers:
        S.check(n in got.headers, 'headers keep their names')
        h = headers[n]
        c16.check(S, got.headers[n].dump(), h, 'header', h['collectionFormat'] if 'collectionFormat' in h else None,
                  'a header')


def schema(S, kinds=('none', 'empty', 'ref', 'object', 'scalar', 'file')):
    kind = S.pick('schema', kinds)
    if kind == 'none':
        return None
    if kind == 'empty':
        return S.mkdict()
    if kind == 'ref':
        return S.mkdict([('$ref', '#/definitions/D')])
    if kind == 'file':
        return S.mkdict([('type', 'file')])
    if kind == 'scalar':
        return S.mkdict([('type', S.choice('type', ['string', 'integer', 'array'])),
                         ('default', S.any('default', 1, ('zero', 'str', 'false', 'elist', 'estr')))])
    return S.mkdict([('type', 'object'), ('properties', S.mkdict([
        (S.str('prop', 1, alpha='a/~'), {'$ref': '#/definitions/D'}), ('p', {'minimum': 0})])),
        ('required', ['p'])])


def response(S, kinds=None, headers=1):
    r = S.dict('r', {'description': lambda: S.str('desc', 1), 'examples': lambda: {'a/b': 1}}, required=('description', ))
    s = schema(S, kinds) if kinds else schema(S)
    if s is not None:
        r['schema'] = s
    n = S.length('headers', 0, headers)
    if n:
        hs = S.mkdict()
        for i in range(n):
            h = S.dict('h%d' % i, {
                'description': lambda: S.str('h%d.d' % i, 1), 'type': lambda: S.choice('h%d.t' % i, ['string', 'array']),
                'default': lambda: S.any('h%d.v' % i, 1, ('zero', 'str', 'false')),
                'collectionFormat': lambda: 'csv', 'items': lambda: {'type': 'string', 'maximum': 0}}, most=1)
            h['maximum'] = 0
            hs[S.str('h%d.name' % i, 1, alpha='a/~') if not i else 'H'] = h
        r['headers'] = hs
    return r


def document(**more):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'definitions': {'D': {'type': 'object'}}}
    d.update(more)
    return d


def produces(S, d, op):
    where = S.pick('produces', ['operation', 'document', 'both', 'none', 'emptied'])
    if where == 'none':
        return []
    m = S.pick('mimes', MIMES)
    if where == 'operation':
        op['produces'] = m
    elif where == 'document':
        d['produces'] = m
    elif where == 'both':
        op['produces'], d['produces'] = m, ['o/o', 'p/p']
    else:
        op['produces'], d['produces'] = [], m
    return m


@case(dict(headers=1), [dict(headers=2)])
def direct(S):
    """responses of an operation"""
    vary = S.pick('vary', ['media types', 'content'])
    op = {}
    d = document()
    if vary == 'content':
        r = response(S, None, S.B.headers)
        mimes = S.pick('plain', [[], ['a/b']])
        if mimes:
            op['produces'] = mimes
    else:
        r = response(S, ('none', 'empty', 'object', 'scalar', 'file'), 0)
        mimes = produces(S, d, op)
    code = S.pick('code', ['200', 'default', '4XX'])
    other = {'description': '', 'schema': {'title': 'other'}, 'headers': {'O': {'type': 'string'}}}
    op['responses'] = S.mkdict([('201', other), (code, r)])
    d['paths'] = {'/p': {'get': op, 'post': {'responses': {code: {'description': 'nothing'}}}}}
    app, old, new = migrate({ROOT: d})
    item = new.paths['/p']
    S.check(len(item.get.responses) == 2 and len(item.post.responses) == 1, 'a response for every response')
    S.check(code in item.get.responses, 'under the same code')
    verify(S, item.get.responses[code], r, mimes)
    verify(S, item.get.responses['201'], other, mimes)
    verify(S, item.post.responses[code], {'description': 'nothing'}, [])


@case(dict(name=2), [dict(name=3)])
def shared(S):
    """shared responses and references to them"""
    vary = S.pick('vary', ['names', 'media types', 'content'])
    d, op = document(), {}
    name = S.str('name', S.B.name, 1, alpha='a/~') if vary == 'names' else '~/'
    if vary == 'names':
        r, mimes = response(S, ('none', 'ref'), 0), []
    elif vary == 'content':
        r, mimes = response(S, None, 1), []
    else:
        r = response(S, ('none', 'object', 'file'), 0)
        mimes = produces(S, d, op)
    use = S.mkdict([('$ref', '#/responses/' + name.replace('~', '~0').replace('/', '~1'))])
    op['responses'] = {'200': use, 'default': {'description': 'd'}}
    d['responses'] = S.mkdict([(name, r), ('other', {'description': 'o'})])
    d['paths'] = {'/p': {'get': op}}
    app, old, new = migrate({ROOT: d})
    S.check(len(new.components.responses) == 2 and name in new.components.responses, 'components under the same name')
    verify(S, new.components.responses[name], r, d['produces'] if 'produces' in d else [])
    verify(S, new.components.responses['other'], {'description': 'o'}, [])
    got = new.paths['/p'].get.responses
    S.check(len(got) == 2, 'a response for every response')
    got = got['200']
    if type(got) is v30.Reference:
        S.check(S.same(got.ref, '#/components/responses/' + name.replace('~', '~0').replace('/', '~1')),
                'a reference to the component', lambda: '%r' % (got.ref, ))
        S.check('schema' not in r or not mimes or 'produces' not in op or op['produces'] == [],
                'a reference stands for what the operation produces')
    else:
        verify(S, got, r, mimes)


@case(dict(ops=2), [dict(ops=3)])
def operations(S):
    """operations do not share what they produce, nor do the responses of one operation"""
    d = document(responses={'R': {'description': 'r', 'schema': {'title': 'r'}, 'headers': {'X': {'type': 'string'}}},
                            'E': {'description': 'e'}})
    dp = S.pick('document', [None, ['d/d']])
    if dp:
        d['produces'] = dp
    paths, ops = {'/p': {}, '/q': {}}, []
    parts = {'shared': {'$ref': '#/responses/R'}, 'empty': {'$ref': '#/responses/E'},
             'own': {'description': 'o', 'schema': {'type': 'object', 'title': 'o'}}, 'file': {'description': 'f', 'schema': {'type': 'file'}}}
    for i, (p, m) in enumerate([('/p', 'get'), ('/p', 'put'), ('/q', 'get')][:S.B.ops]):
        op = paths[p][m] = {}
        own = S.pick('produces%d' % i, [None, ['a/b'], ['c/d', 'a/b']])
        if own:
            op['produces'] = own
        first = S.pick('first%d' % i, ['shared', 'own', 'file'])
        second = S.pick('second%d' % i, ['shared', 'own', 'empty', None])
        op['responses'] = S.mkdict([('200', S.copy(parts[first]))] + ([('404', S.copy(parts[second]))] if second else []))
        ops.append((p, m, own or dp or [], own, (first, second)))
    d['paths'] = paths
    before = S.copy(d)
    app, old, new = migrate({ROOT: d})
    for p, m, mimes, own, kinds in ops:
        got = getattr(new.paths[p], m).responses
        S.check(len(got) == len([k for k in kinds if k]), 'a response for every response')
        for code, k in zip(('200', '404'), kinds):
            if k is None:
                continue
            x = got[code]
            if type(x) is v30.Reference:
                S.check(k == 'empty' or k == 'shared' and (not own or own == dp), 'a reference stands for what the operation '
                        'produces', lambda: '%s %s %s' % (p, m, code))
                S.check(x.ref == '#/components/responses/' + parts[k]['$ref'][12:], 'a reference to the component')
                continue
            spec = parts[k] if '$ref' not in parts[k] else before['responses'][parts[k]['$ref'][12:]]
            verify(S, x, spec, mimes)


@case(dict(), [])
def many(S):
    """all headers and all parts of a response together"""
    h = S.mkdict([(n, S.mkdict([('type', 'string'), ('default', S.any('v%d' % i, 1, ('zero', 'str', 'false')))]))
                  for i, n in enumerate(['A', 'B/', 'C'][:S.length('n', 1, 3)])])
    r = S.mkdict([('description', S.str('d', 1)), ('headers', h), ('examples', {'a/b': 0})])
    s = schema(S)
    if s is not None:
        r['schema'] = s
    codes = ['200', 'default', '404', '5XX'][:S.length('codes', 1, 4)]
    alike = S.flag('alike')
    rs = S.mkdict([(c, S.copy(r) if alike or c == codes[-1] else {'description': c, 'schema': {'title': c}}) for c in codes])
    op = {'responses': rs, 'produces': S.pick('produces', MIMES[:2])}
    app, old, new = migrate({ROOT: document(paths={'/p': {'get': op}})})
    got = new.paths['/p'].get.responses
    S.check(len(got) == len(codes), 'a response for every response')
    for c in codes:
        S.check(c in got, 'under the same code')
        verify(S, got[c], rs[c], op['produces'])
