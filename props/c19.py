# -*- coding: utf-8 -*-
"""C19 operations and document-level parts from 2.0 to 3.0.0."""
from sx.capi import case
from . import tables, up
from .app import migrate, ROOT
from .gen import Gen
from pyopenapi.migration.versions.v3_0_0 import objects as v30

ASSUMPTIONS = ['every subset of the optional parts, in groups as the cases say; names any string of at most `name` '
               'characters out of "a", "/", "~", "{"; values of one character or out of the kinds listed',
               'the default scheme may be http or https; empty containers may be left out, except the security '
               'requirements of an operation',
               'vendor extensions are not claimed']
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
FLOWS = {'implicit': 'implicit', 'password': 'password', 'application': 'clientCredentials',
         'accessCode': 'authorizationCode'}


def document(**more):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
    d.update(more)
    return d


def read(S, obj):
    g = Gen(S, tables.V30, v30)
    return g.strip(type(obj).__name__, g.read(obj)) if type(obj).__name__ not in tables.MAPS else None


def text(S, name):
    return S.str(name, 1)


def docs(S, name):
    return S.dict(name, {'description': lambda: text(S, name + '.d'), 'url': lambda: text(S, name + '.u')},
                  required=('url', ))


def choose(n, *alternatives):
    return alternatives[n]()


def nothing(x):
    return x is None or len(x) == 0


@case(dict(), [])
def info(S):
    """info with contact and license"""
    spec = S.dict('i', {'title': lambda: text(S, 'title'), 'version': lambda: text(S, 'version'),
                        'description': lambda: text(S, 'desc'), 'termsOfService': lambda: text(S, 'terms'),
                        'contact': lambda: S.dict('c', dict((k, lambda k=k: text(S, k)) for k in ('name', 'url', 'email'))),
                        'license': lambda: S.dict('l', {'name': lambda: text(S, 'lname'), 'url': lambda: text(S, 'lurl')},
                                                  required=('name', ))}, required=('title', 'version'))
    app, old, new = migrate({ROOT: document(info=spec)})
    want = Gen(S, tables.V30, v30).strip('Info', spec)
    S.check(S.same(read(S, new.info), want), 'info is kept', lambda: '%r gave %r' % (spec, read(S, new.info)))


@case(dict(), [])
def parts(S):
    """tags, external documentation and security of the document"""
    d = document()
    n = S.length('tags', 0, 2)
    tags = []
    rich = S.pick('rich', range(n)) if n else 0
    for i in range(n):
        t = S.dict('t%d' % i, {'description': lambda: text(S, 't%d.d' % i), 'externalDocs': lambda: docs(S, 't%d.e' % i)},
                   most=None if i == rich else 0)
        t['name'] = text(S, 't%d.n' % i)
        tags.append(t)
    if n or S.flag('no tags'):
        d['tags'] = tags
    if S.flag('docs?'):
        d['externalDocs'] = docs(S, 'docs')
    kind = S.pick('security', [None, 'empty', 'one', 'either', 'both', 'optional'])
    if kind:
        a = S.str('scheme', 1, alpha='a/~')
        d['security'] = {'empty': [], 'one': [S.mkdict([(a, ['s'])])], 'either': [S.mkdict([(a, [])]), {'b': ['s', 't']}],
                         'both': [S.mkdict([(a, []), ('b', ['s'])])], 'optional': [{}, S.mkdict([(a, [])])]}[kind]
    app, old, new = migrate({ROOT: d})
    got = [] if new.tags is None else [read(S, t) for t in new.tags]
    S.check(S.same(got, tags), 'tags are kept, in order', lambda: '%r gave %r' % (tags, got))
    if 'externalDocs' in d:
        S.check(S.same(read(S, new.externalDocs), d['externalDocs']), 'external documentation is kept')
    else:
        S.check(new.externalDocs is None, 'no external documentation is invented')
    got = [] if new.security is None else new.security.dump()
    S.check(S.same(got, d['security'] if 'security' in d else []), 'security is kept, in order')
    S.check(S.same(new.openapi, '3.0.0'), 'the version is stated')


@case(dict(), [])
def servers(S):
    """host, base path and schemes"""
    d, op = document(), {'responses': {'200': {'description': ''}}}
    for k, v in (('host', lambda: S.choice('host', ['h', 'h.x:80', 'h.x'])),
                 ('basePath', lambda: S.choice('base', ['/', '/v1', '/a/b~', '/v1/']))):
        if S.flag(k + '?'):
            d[k] = v()
    schemes = S.pick('schemes', [None, [], ['http'], ['https', 'http'], ['ws', 'wss', 'http']])
    own = S.pick('own', [None, [], ['https'], ['wss', 'http']])
    if schemes is not None:
        d['schemes'] = schemes
    if own is not None:
        op['schemes'] = own
    d['paths'] = {'/p': {'get': op, 'put': {'responses': {}}}}
    app, old, new = migrate({ROOT: d})
    base = d['basePath'] if 'basePath' in d else ''
    got = [s.url for s in new.servers]
    if 'host' not in d:
        S.check(len(got) == 1 and S.same(got[0], base or '/'), 'the base path is the server', lambda: '%r' % (got, ))
    else:
        rest = '://' + d['host'] + base
        if schemes:
            S.check(len(got) == len(schemes), 'one server for every scheme', lambda: '%r' % (got, ))
            for i in range(len(got)):
                S.check(S.same(got[i], schemes[i] + rest), 'server urls', lambda: '%r gave %r' % (d, got))
        else:
            S.check(len(got) >= 1, 'a server')
            for u in got:
                S.check(S.any_of([S.same(u, 'http' + rest), S.same(u, 'https' + rest)]), 'server urls',
                        lambda: '%r gave %r' % (d, got))
    o = new.paths['/p'].get
    mine = [] if o.servers is None else [s.url for s in o.servers]
    if own and 'host' in d:
        S.check(len(mine) == len(own), 'one server for every scheme of an operation')
        for i in range(len(mine)):
            S.check(S.same(mine[i], own[i] + rest), 'server urls of an operation', lambda: '%r gave %r' % (d, mine))
    else:
        S.check(not mine, 'no servers for an operation without schemes')
    S.check(nothing(new.paths['/p'].put.servers), 'no servers for an operation without schemes')


@case(dict(), [])
def operations(S):
    """the fields of an operation"""
    spec = S.dict('op', {
        'summary': lambda: text(S, 'summary'), 'description': lambda: text(S, 'desc'),
        'operationId': lambda: text(S, 'id'), 'deprecated': lambda: S.bool('deprecated'),
        'tags': lambda: choose(S.length('tags', 0, 2), list, lambda: [text(S, 'tag')], lambda: ['b', text(S, 'tag'), 'a']),
        'externalDocs': lambda: docs(S, 'docs'),
        'security': lambda: choose(S.length('sec', 0, 2), list, lambda: [S.mkdict([(S.str('scheme', 1, alpha='a/'), [])])],
                                   lambda: [{'x': ['s']}, {}]),
    }, most=2, least=1)
    spec['responses'] = {'200': {'description': ''}}
    method = S.pick('method', METHODS)
    other = {'operationId': 'other', 'responses': {'200': {'description': ''}}}
    item = S.mkdict([(method, spec)])
    more = S.pick('others', [None, 'get', 'patch'])
    if more == method:
        more = None
    if more:
        item[more] = other
    app, old, new = migrate({ROOT: document(paths=S.mkdict([('/p', item)]), security=[{'doc': []}])})
    p = new.paths['/p']
    for m in METHODS + ('trace', ):
        o = getattr(p, m)
        if m == method:
            want = S.mkdict([(k, spec[k]) for k in spec if k != 'security' and (k != 'tags' or len(spec[k]))])
            have = read(S, o)
            if 'security' in have:
                del have['security']
            S.check(S.same(have, want), 'an operation keeps its fields', lambda: '%r gave %r' % (spec, have))
            if 'security' in spec:
                S.check(o.security is not None and S.same(o.security.dump(), spec['security']),
                        'security of an operation, even none, is kept')
            else:
                S.check(o.security is None, 'no security is invented')
        elif m == more:
            S.check(S.same(o.operationId, 'other') and o.summary is None and o.security is None,
                    'other operations are themselves')
        else:
            S.check(o is None, 'no operation is invented')
    S.check(nothing(p.parameters) and nothing(p.servers), 'nothing else is invented')


@case(dict(name=2), [dict(name=3)])
def paths(S):
    """paths, methods and the order of parameters"""
    a = '/' + S.str('path0', S.B.name, alpha='a/~{')
    b = '/' + S.str('path1', 1, alpha='a/~')
    S.assume(S.not_(S.same(a, b)))
    where = {}
    items = S.mkdict()
    for i, k in enumerate((a, b)):
        items[k] = S.mkdict()
        for m in S.pick('methods%d' % i, [(), ('get', ), ('put', 'patch'), ('get', 'head'), ('options', 'delete')] if i == 0 else
                        [('get', ), ('delete', 'head')]):
            ps = [{'name': 'n%s%d' % (m, j), 'in': 'query', 'type': 'string'} for j in range(2)]
            if S.pick('swap%d%s' % (i, m), [False, True]):
                ps.reverse()
            items[k][m] = {'operationId': '%d%s' % (i, m), 'parameters': ps, 'responses': {}}
            where[(i, m)] = [p['name'] for p in ps]
        if i == 0:
            shared = S.pick('shared', [None, 'plain', 'body', 'form'])
            if shared:
                items[k]['parameters'] = [{'name': 'y', 'in': 'query', 'type': 'string'},
                                          {'name': 'x', 'in': 'header', 'type': 'string'}]
            if shared in ('body', 'form'):
                items[k]['parameters'].insert(1, {'name': 'b', 'in': 'body', 'schema': {}} if shared == 'body' else
                                              {'name': 'b', 'in': 'formData', 'type': 'string'})
    app, old, new = migrate({ROOT: document(paths=items)})
    S.check(len(new.paths) == 2, 'as many paths')
    for i, k in enumerate((a, b)):
        S.check(k in new.paths, 'a path keeps its name')
        item = new.paths[k]
        for m in METHODS:
            o = getattr(item, m)
            if (i, m) not in where:
                S.check(o is None, 'nothing is moved to another path or method')
                continue
            S.check(o is not None and S.same(o.operationId, '%d%s' % (i, m)), 'nothing is moved to another path or method')
            S.check(S.same([p.name for p in o.parameters], where[(i, m)]), 'the order of parameters is kept')
        ps = [] if item.parameters is None else [p.name for p in item.parameters]
        S.check(S.same(ps, ['y', 'x'] if 'parameters' in items[k] else []), 'the parameters of a path are kept')


@case(dict(), [])
def security(S):
    """security definitions"""
    kind = S.pick('kind', ['basic', 'apiKey'] + sorted(FLOWS))
    name = S.str('name', 2, alpha='a/~')
    spec = S.dict('s', {'description': lambda: text(S, 'desc')})
    if kind in ('basic', 'apiKey'):
        spec['type'] = kind
    else:
        spec['type'], spec['flow'] = 'oauth2', kind
        if kind in ('implicit', 'accessCode'):
            spec['authorizationUrl'] = text(S, 'au')
        if kind != 'implicit':
            spec['tokenUrl'] = text(S, 'tu')
        spec['scopes'] = S.dict('scopes', {'a/': lambda: text(S, 'scope'), 'b': lambda: ''})
    if kind == 'apiKey':
        spec['name'] = S.pick('well known', [None, 'Authorization', 'api_key', 'X-API-Key']) or text(S, 'key')
        spec['in'] = S.choice('in', ['query', 'header'])
    defs = S.mkdict([(name, spec)])
    two = S.flag('two')
    if two:
        defs['bb'] = {'type': 'basic'}
    app, old, new = migrate({ROOT: document(securityDefinitions=defs)})
    got = new.components.securitySchemes
    S.check(len(got) == len(defs) and name in got, 'schemes under the same names')
    want = S.mkdict()
    if 'description' in spec:
        want['description'] = spec['description']
    if kind == 'basic':
        want['type'], want['scheme'] = 'http', 'basic'
    elif kind == 'apiKey':
        want['type'], want['name'], want['in'] = 'apiKey', spec['name'], spec['in']
    else:
        flow = S.mkdict([(k, spec[k]) for k in ('authorizationUrl', 'tokenUrl', 'scopes') if k in spec])
        want['type'], want['flows'] = 'oauth2', S.mkdict([(FLOWS[kind], flow)])
    g = Gen(S, tables.V30, v30)
    have = g.read(got[name])
    S.check(S.same(have, want), 'the equivalent scheme', lambda: '%r gave %r' % (spec, have))
    if two:
        S.check(S.same(g.read(got['bb']), {'type': 'http', 'scheme': 'basic'}), 'the equivalent scheme')


@case(dict(name=2), [dict(name=3)])
def components(S):
    """what is shared keeps its names, and nothing else appears"""
    a = S.str('a', S.B.name, 1, alpha='a/~')
    d = document()
    which = S.pick('which', ['definitions', 'parameters', 'responses', 'bodies', 'all', 'none', 'same'])
    content = {'definitions': {'title': 'x'}, 'parameters': {'name': 'q', 'in': 'query', 'type': 'string'},
               'responses': {'description': 'r'}}
    for k in content:
        if which in (k, 'all', 'same'):
            d[k] = S.mkdict([(a if which != 'all' or k == 'parameters' else k, content[k])])
    body = {'name': 'b', 'in': 'body', 'schema': {}}
    if which == 'bodies':
        d['parameters'] = S.mkdict([(a, body), ('other', content['parameters'])])
    if S.flag('security'):
        d['securityDefinitions'] = S.mkdict([(a, {'type': 'basic'})])
    app, old, new = migrate({ROOT: d})
    c = new.components
    rename = {'definitions': 'schemas', 'parameters': 'parameters', 'responses': 'responses',
              'securityDefinitions': 'securitySchemes'}
    want = {}
    for k in rename:
        if k in d:
            want[rename[k]] = [n for n in d[k]]
    if which == 'bodies':
        want['parameters'], want['requestBodies'] = ['other'], [a]
    for k in tables.V30['Components'].children:
        got = getattr(c, k) if c is not None else None
        n = want.get(k, [])
        S.check((0 if got is None else len(got)) == len(n), 'as many components as there were',
                lambda: '%s: %r, expected %r' % (k, list(got.keys()) if got is not None else None, n))
        for x in n:
            S.check(x in got, 'components of the same name')
    if 'schemas' in want:
        S.check(S.same(c.schemas[want['schemas'][0]].title, 'x'), 'with their content')
    if 'responses' in want:
        S.check(S.same(c.responses[want['responses'][0]].description, 'r'), 'with their content')
    if 'parameters' in want:
        S.check(S.same(c.parameters[want['parameters'][0]].name, 'q'), 'with their content')


def whole_document(leave):
    """(2.0, 3.0.0) with everything but some of its parts"""
    def w(name, x):
        return [] if name in leave else [(name.split('.')[-1].rstrip('!'), x)]
    ext = {'url': 'u', 'description': ''}
    sec = [{'k': []}, {'o/': ['s', 't'], 'k': []}, {}]
    op_common = w('op.summary', 's') + w('op.description', 'd') + w('op.operationId', 'i') + w('op.deprecated', True) + \
        w('op.tags', ['b', 'a']) + w('op.externalDocs', ext) + w('op.security', sec)
    old_op = dict(op_common + w('op.schemes', ['wss', 'https']) + w('op.parameters', [
        {'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'multi'},
        {'$ref': '#/parameters/P~1'}, {'name': 'b', 'in': 'body', 'description': 'body', 'required': True,
                                       'schema': {'$ref': '#/definitions/D'}}]))
    old_op['responses'] = {'200': {'description': '', 'schema': {'$ref': '#/definitions/D'}}, 'default': {'$ref': '#/responses/R'}}
    old_op['consumes'], old_op['produces'] = ['a/b', 'c/d'], ['e/f']
    ref = {'$ref': '#/components/schemas/D'}
    new_op = dict(op_common)
    if 'op.schemes' not in leave and 'doc.host' not in leave:
        base = '/base' if 'doc.basePath' not in leave else ''
        new_op['servers'] = [{'url': 'wss://h' + base}, {'url': 'https://h' + base}]
    if 'op.parameters' not in leave:
        new_op['parameters'] = [{'name': 'q', 'in': 'query', 'style': 'form', 'explode': True,
                                 'schema': {'type': 'array', 'items': {'type': 'string'}}},
                                {'$ref': '#/components/parameters/P~1'}]
        new_op['requestBody'] = {'description': 'body', 'required': True, 'content': {'a/b': {'schema': ref}, 'c/d': {'schema': ref}}}
    new_op['responses'] = {'200': {'description': '', 'content': {'e/f': {'schema': ref}}},
                           'default': {'$ref': '#/components/responses/R'}}
    info = dict(w('info.description', 'd') + w('info.termsOfService', 't') + w('info.contact', {'name': 'n', 'url': 'u', 'email': 'e'}) +
                w('info.license', {'name': 'n', 'url': 'u'}))
    info['title'], info['version'] = 't', '0'
    tags = [{'name': 'b', 'description': 'd', 'externalDocs': ext}, {'name': 'a'}]
    path_p = w('path.parameters', [{'name': 'h', 'in': 'header', 'type': 'string', 'default': 0}])
    more = {'operationId': 'j', 'responses': {'204': {'description': 'x'}}}
    old = dict(w('doc.tags', tags) + w('doc.externalDocs', ext) + w('doc.security', sec) + w('doc.host', 'h') +
               w('doc.basePath', '/base') + w('doc.schemes', ['http', 'ws']))
    old['swagger'], old['info'] = '2.0', info
    old['paths'] = {'/a~{b}': dict([('put', old_op), ('get', more)] + path_p), '/': {'head': more}}
    old['definitions'] = {'D': {'type': 'object', 'properties': {'d/': {'$ref': '#/definitions/D'}}}}
    old['parameters'] = {'P/': {'name': 'p', 'in': 'path', 'required': True, 'type': 'integer', 'description': 'p'}}
    old['responses'] = {'R': {'description': 'r', 'headers': {'X': {'type': 'integer', 'description': 'x'}}}}
    old['securityDefinitions'] = dict(w('sec.k!', {'type': 'apiKey', 'name': 'n', 'in': 'header', 'description': ''}) +
                                      w('sec.o/!', {'type': 'oauth2', 'flow': 'accessCode', 'authorizationUrl': 'a',
                                                    'tokenUrl': 't', 'scopes': {'s': 'S', 't': ''}}) +
                                      w('sec.b!', {'type': 'basic'}))
    new = dict(w('doc.tags', tags) + w('doc.externalDocs', ext) + w('doc.security', sec))
    new['openapi'], new['info'] = '3.0.0', info
    base = '/base' if 'doc.basePath' not in leave else ''
    if 'doc.host' in leave:
        new['servers'] = [{'url': base or '/'}]
    elif 'doc.schemes' in leave:
        new['servers'] = [{'url': 'http://h' + base}]
    else:
        new['servers'] = [{'url': 'http://h' + base}, {'url': 'ws://h' + base}]
    path_n = w('path.parameters', [{'name': 'h', 'in': 'header', 'schema': {'type': 'string', 'default': 0}}])
    new['paths'] = {'/a~{b}': dict([('put', new_op), ('get', more)] + path_n), '/': {'head': more}}
    new['components'] = {
        'schemas': {'D': {'type': 'object', 'properties': {'d/': {'$ref': '#/components/schemas/D'}}}},
        'parameters': {'P/': {'name': 'p', 'in': 'path', 'required': True, 'description': 'p', 'schema': {'type': 'integer'}}},
        'responses': {'R': {'description': 'r', 'headers': {'X': {'description': 'x', 'schema': {'type': 'integer'}}}}}}
    schemes = dict(w('sec.k!', {'type': 'apiKey', 'name': 'n', 'in': 'header', 'description': ''}) +
                   w('sec.o/!', {'type': 'oauth2', 'flows': {'authorizationCode': {
                       'authorizationUrl': 'a', 'tokenUrl': 't', 'scopes': {'s': 'S', 't': ''}}}}) +
                   w('sec.b!', {'type': 'http', 'scheme': 'basic'}))
    if schemes:
        new['components']['securitySchemes'] = schemes
    return old, new


PARTS = ['op.summary', 'op.description', 'op.operationId', 'op.deprecated', 'op.tags', 'op.externalDocs', 'op.security', 'op.schemes',
         'op.parameters', 'info.description', 'info.termsOfService', 'info.contact', 'info.license', 'path.parameters', 'doc.tags',
         'doc.externalDocs', 'doc.security', 'doc.host', 'doc.basePath', 'doc.schemes', 'sec.k!', 'sec.o/!', 'sec.b!']


@case(dict(left=2), [dict(left=3)])
def whole(S):
    """a document with everything but any few of its parts"""
    n, leave, first = S.length('n', 0, S.B.left), [], 0
    for i in range(n):
        S.assume(first < len(PARTS))
        k = S.pick('left%d' % i, range(first, len(PARTS)))
        leave.append(PARTS[k])
        first = k + 1
    if S.flag('no security definitions'):
        leave += ['sec.k!', 'sec.o/!', 'sec.b!']
    d, want = whole_document(leave)
    app, old, new = migrate({ROOT: d})
    g = Gen(S, tables.V30, v30)
    have = g.strip('OpenApi', g.read(new))
    if 'doc.schemes' in leave and 'doc.host' not in leave:
        S.check(len(have['servers']) >= 1 and have['servers'][0]['url'] in ('http://h' + d.get('basePath', ''),
                                                                            'https://h' + d.get('basePath', '')), 'a server')
        have['servers'] = want['servers']
    S.check(S.same(have, g.strip('OpenApi', want)), 'the document means the same',
            lambda: 'without %r: %r, expected %r' % (leave, have, want))
