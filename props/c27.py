# -*- coding: utf-8 -*-
"""C27 migration leaves its source alone and can be repeated."""
from sx.capi import case
from . import tables
from .app import App, ROOT
from .gen import Gen
from pyopenapi.migration.versions.v1_2 import objects as v12
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30

ASSUMPTIONS = ['documents with one or two of the features listed in the harness, out of every pair, their texts any string '
               'of one character; histories of at most `steps` operations',
               'objects of the version asked for may change while they are migrated (their references become absolute); '
               'those of older versions do not',
               'references into a second document are spelt alike as long as the same documents have been loaded']
OTHER = 'http://h/d/b.json'
MODS = {'1.2': (tables.V12, v12), '2.0': (tables.V20, v20), '3.0.0': (tables.V30, v30)}


def read(S, obj):
    t, m = MODS[obj.__swagger_version__]
    out = Gen(S, t, m).read(obj)
    if obj.__swagger_version__ == '1.2':
        c = S.mkdict([(k, Gen(S, t, m).read(obj.cached_apis[k])) for k in obj.cached_apis])
        return [out, c]
    return out


def schema(S, n):
    return {'type': 'object', 'title': S.str(n, 1), 'required': ['q', 'p', 'f'], 'enum': ['f', 'e'], 'discriminator': 'p',
            'properties': {'p': {'type': 'string', 'default': 'x'}, 'q': {'$ref': '#/definitions/T'}, 'f': {'type': 'file'}},
            'allOf': [{'$ref': '#/definitions/T'}, {'items': {'type': 'integer'}}],
            'additionalProperties': {'$ref': '#/definitions/T'}, 'xml': {'name': 'x'}, 'externalDocs': {'url': 'u'}}


BODY = {'name': 'b', 'in': 'body', 'required': True, 'schema': {'$ref': '#/definitions/T'}}
FORM = {'name': 'f', 'in': 'formData', 'type': 'array', 'items': {'type': 'string', 'enum': ['b', 'a']}, 'collectionFormat': 'multi',
        'required': True}
FILE = {'name': 'g', 'in': 'formData', 'type': 'file'}


def op(**more):
    d = {'responses': {'200': {'description': 'd'}}}
    d.update(more)
    return d


def feature(S, k, n, d, docs):
    """adds a feature to a 2.0 document"""
    def part(key):
        if key not in d:
            d[key] = {}
        return d[key]
    t = lambda: S.str(n + '.t', 1)
    path = '/' + n
    if k == 'schema':
        part('definitions')['D' + n] = schema(S, n + '.s')
    elif k == 'body':
        d['paths'][path] = {'put': op(parameters=[dict(BODY, description=t())], consumes=['c/d', 'a/b']), 'post': op()}
    elif k == 'shared body':
        part('parameters')['B' + n] = dict(BODY, description=t())
        d['paths'][path] = {'put': op(parameters=[{'$ref': '#/parameters/B' + n}])}
    elif k == 'item body':
        d['paths'][path] = {'parameters': [dict(BODY, description=t()), {'name': 'q', 'in': 'query', 'type': 'string'}],
                            'put': op(consumes=['a/b']), 'post': op()}
    elif k == 'form':
        d['paths'][path] = {'put': op(parameters=[dict(FORM, description=t()), FILE]), 'get': op(parameters=[FILE])}
    elif k == 'item form':
        d['paths'][path] = {'parameters': [dict(FORM, description=t())], 'put': op(parameters=[FILE]), 'post': op(),
                            'patch': op(parameters=[{'name': 'i', 'in': 'formData', 'type': 'integer', 'required': True}],
                                        consumes=['application/x-www-form-urlencoded'])}
    elif k == 'shared form':
        part('parameters')['F' + n] = dict(FORM, description=t())
        d['paths'][path] = {'parameters': [{'$ref': '#/parameters/F' + n}], 'put': op(), 'post': op()}
    elif k == 'parameters':
        part('parameters')['P' + n] = {'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'string', 'enum': ['b', 'a']},
                                       'collectionFormat': 'pipes', 'enum': [['b'], ['a']], 'description': t()}
        d['paths'][path] = {'put': op(parameters=[{'$ref': '#/parameters/P' + n}]), 'parameters': [{'$ref': '#/parameters/P' + n}]}
    elif k in ('places', 'formats'):
        d['paths'][path] = {'put': op(parameters=[
            {'name': 'p%d' % i, 'in': w, 'required': True, 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': f}
            for i, (w, f) in enumerate([('header', 'csv'), ('path', 'csv')] if k == 'places' else
                                       [('query', 'csv'), ('query', 'multi'), ('query', 'ssv'), ('query', 'pipes')])])}
    elif k == 'responses':
        part('responses')['R' + n] = {'description': t(), 'schema': schema(S, n + '.s'),
                                      'headers': {'X': {'type': 'array', 'items': {'type': 'string', 'enum': ['b', 'a']}}}}
        d['paths'][path] = {'get': op(responses={'200': {'$ref': '#/responses/R' + n}, 'default': {'description': 'd'}},
                                      produces=['c/d', 'a/b']),
                            'put': op(responses={'200': {'description': 'd', 'schema': {'type': 'file'}}})}
    elif k == 'security':
        part('securityDefinitions')['S' + n] = {'type': 'oauth2', 'flow': 'accessCode', 'authorizationUrl': t(), 'tokenUrl': 'u',
                                                'scopes': {'s': 'd', 'a': 'd'}}
        part('securityDefinitions')['A' + n] = {'type': 'basic'}
        d['security'] = [{'S' + n: ['s', 'a']}, {'A' + n: []}]
        d['paths'][path] = {'get': op(security=[{'S' + n: ['s'], 'A' + n: []}]), 'put': op(security=[])}
    elif k == 'document':
        d.update({'host': 'h', 'basePath': '/v', 'schemes': ['ws', 'http'], 'tags': [{'name': t(), 'externalDocs': {'url': 'u'}}],
                  'externalDocs': {'url': 'u'}, 'consumes': ['a/b'], 'produces': ['c/d']})
        d['info'] = {'title': 't', 'version': '1', 'contact': {'name': 'n'}, 'license': {'name': 'l'}}
        d['paths'][path] = {'get': op(tags=['y', 'x'], schemes=['https'], externalDocs={'url': 'u'}, deprecated=True)}
    elif k == 'item':
        d['paths'][path] = {'$ref': '#/paths/~1target' + n, 'get': op(summary=t())}
        d['paths']['/target' + n] = {'put': op(), 'parameters': [{'name': 'q', 'in': 'query', 'type': 'string'}],
                                     '$ref': '#/paths/~1third' + n}
        d['paths']['/third' + n] = {'post': op()}
    elif k == 'far':
        part('definitions')['E' + n] = {'properties': {'p': {'$ref': 'b.json#/definitions/Q'}}}
        d['paths'][path] = {'$ref': 'b.json#/paths/~1i', 'get': op(
            parameters=[{'$ref': 'b.json#/parameters/P'}, {'$ref': 'b.json#/parameters/B'}],
            responses={'200': {'$ref': 'b.json#/responses/R'}})}
        docs[OTHER] = {'definitions': {'Q': schema(S, n + '.s'), 'T': {'type': 'string'}},
                       'parameters': {'P': {'name': 'p', 'in': 'query', 'type': 'string', 'description': t()}, 'B': BODY},
                       'responses': {'R': {'description': 'd', 'schema': {'$ref': '#/definitions/T'}}},
                       'paths': {'/i': {'put': op(), 'parameters': [FORM]}}}
    elif k == 'codes':
        d['paths'][path] = {'get': op(responses=S.mkdict([(200, {'description': t()}), ('default', {'description': 'd'})]))}


FEATURES = ['schema', 'body', 'shared body', 'item body', 'form', 'item form', 'shared form', 'parameters', 'responses',
            'security', 'document', 'item', 'far', 'codes', 'places', 'formats']


def document(S, ks):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'T': {'type': 'string'}}}
    docs = {ROOT: d}
    for i, k in enumerate(ks):
        feature(S, k, 'n%d' % i, d, docs)
    return docs


def places(S, ks, new):
    """what does not depend on anything else that was migrated before"""
    for i, k in enumerate(ks):
        if k in ('places', 'formats'):
            got = [p.dump().get('style') for p in new.paths['/n%d' % i].put.parameters]
            want = ['simple', 'simple'] if k == 'places' else ['form', 'form', 'spaceDelimited', 'pipeDelimited']
            S.check(got == want, 'a parameter gives the same whatever was migrated before', lambda: '%r, expected %r' % (got, want))


def strings(S, x):
    if hasattr(x, 'keys'):
        return S.mkdict([(str(k) if isinstance(k, int) else k, strings(S, x[k])) for k in x])
    if isinstance(x, list):
        return [strings(S, v) for v in x]
    return x


def unchanged(S, docs, kept, app=None):
    S.check(S.same(docs, kept), 'the source is unchanged', lambda: '%r, was %r' % (docs, kept))
    if app:
        for u in docs:
            if u in app.src.fetched:
                S.check(S.same(app.resolver.resolve(u), strings(S, kept[u])), 'the parsed source of the resolver is unchanged',
                        lambda: '%r, was %r' % (app.resolver.resolve(u), kept[u]))


@case(dict(), [])
def once(S):
    """2.0 to 3.0.0 leaves the source, repeats in another application"""
    a = S.pick('first', FEATURES)
    b = S.pick('second', [None] + FEATURES)
    docs = document(S, [a] + ([b] if b else []))
    kept = S.copy(docs)
    app = App(docs, yaml='codes' in (a, b))
    old = app.load_obj(ROOT)
    before = read(S, old)
    unchanged(S, docs, kept, app)
    via = S.pick('via', [None, '2.0'])
    if via:
        S.check(app.migrate_obj(old, ROOT, via) is old, 'an object of that version already')
        S.check(S.same(read(S, old), before), 'normalising leaves the content')
    new = app.migrate_obj(old, ROOT, '3.0.0')
    unchanged(S, docs, kept, app)
    S.check(S.same(read(S, old), before), 'the object of the older version is unchanged',
            lambda: '%r, was %r' % (read(S, old), before))
    first = read(S, new)
    places(S, [a, b], new)
    again = app.migrate_obj(old, ROOT, '3.0.0')
    S.check(S.same(read(S, again), first), 'migrating again gives an equal document', lambda: '%r, was %r' % (read(S, again), first))
    S.check(S.same(read(S, new), first), 'the first result is unchanged', lambda: '%r, was %r' % (read(S, new), first))
    S.check(S.same(read(S, old), before), 'the object of the older version is still unchanged')
    app2 = App(docs, resolver=app.resolver if S.flag('same resolver') else None,
               yaml='codes' in (a, b))
    other = app2.migrate_obj(app2.load_obj(ROOT), ROOT, '3.0.0')
    S.check(S.same(read(S, other), first), 'a second application gives an equal document',
            lambda: '%r, was %r' % (read(S, other), first))
    unchanged(S, docs, kept, app)
    third = app.migrate_obj(new, ROOT, '3.0.0')
    S.check(S.same(read(S, third), first), 'migrating the result to its version leaves it')


STEPS = ['load', 'to 2.0', 'to 3.0.0', 'part', 'part to 3.0.0', 'compare', 'other', 'resolve', 'merge']


@case(dict(steps=3), [dict(steps=4)])
def histories(S):
    """any sequence of operations leaves the source and gives the same in the end"""
    a = S.pick('feature', ['schema', 'item body', 'shared form', 'far', 'item', 'responses'])
    docs = document(S, [a])
    docs[OTHER] = docs.get(OTHER) or {'definitions': {'Q': {'type': 'string'}}}
    kept = S.copy(docs)
    twin = App(docs)
    fresh = read(S, twin.migrate_obj(twin.load_obj(ROOT), ROOT, '3.0.0'))
    app = App(docs)
    old = app.load_obj(ROOT)
    before = read(S, old)
    n = S.length('n', 1, S.B.steps)
    for i in range(n):
        k = S.pick('s%d' % i, STEPS)
        if k == 'load':
            S.check(app.load_obj(ROOT) is old, 'loaded once')
        elif k == 'to 2.0':
            app.migrate_obj(old, ROOT, '2.0')
        elif k == 'to 3.0.0':
            app.migrate_obj(old, ROOT, '3.0.0')
        elif k == 'part':
            app.resolve_obj(ROOT + '#/definitions/T', '2.0', parser=v20.Schema)
        elif k == 'part to 3.0.0':
            app.resolve_obj(ROOT + '#/definitions/T', '2.0', parser=v20.Schema, to_spec_version='3.0.0')
        elif k == 'compare':
            S.check(old.compare(twin.load_obj(ROOT))[0], 'equal to that of the other application')
        elif k == 'other':
            twin.migrate_obj(twin.load_obj(ROOT), ROOT, '3.0.0')
        elif k == 'resolve':
            app.resolve_obj('http://h/d/b.json#/definitions/Q', '2.0', parser=v20.Schema, to_spec_version='3.0.0')
        elif k == 'merge':
            x = v20.PathItem({}, '#', {})
            for p in old.paths.keys():
                x.merge_children(old.paths[p])
    S.check(S.same(docs, kept), 'the source is unchanged')
    S.check(S.same(read(S, old), before), 'the object of the older version is unchanged')
    new = app.migrate_obj(old, ROOT, '3.0.0')
    S.check(S.same(read(S, new), fresh), 'the same document in the end', lambda: '%r, expected %r' % (read(S, new), fresh))
    S.check(S.same(read(S, old), before), 'the object of the older version is unchanged')
    unchanged(S, docs, kept, app)


REFS = {'schemas': 'schemas', 'parameters': 'parameters', 'responses': 'responses', 'requestBodies': 'requestBodies',
        'headers': 'headers', 'links': 'links', 'examples': 'examples', 'callbacks': 'callbacks', 'item': None}


@case(dict(), [])
def newest(S):
    """3.0.0 documents with references of every kind"""
    ks = [S.pick('a', sorted(REFS)), S.pick('b', sorted(REFS))]
    url = S.pick('url', ['', 'b.json', 'http://h/d/b.json'])
    t = S.str('t', 1)
    comp = {'schemas': {'x': {'title': t, 'required': ['q', 'p'], 'enum': ['f', 'e'], 'discriminator': {'propertyName': 'p', 'mapping': {'a': 'b'}}}},
            'parameters': {'x': {'name': 'n', 'in': 'query', 'schema': {'$ref': '#/components/schemas/x'}}},
            'responses': {'x': {'description': t, 'content': {'a/b': {'schema': {'$ref': '#/components/schemas/x'}}}}},
            'requestBodies': {'x': {'content': {'a/b': {'schema': {'$ref': '#/components/schemas/x'}}}}},
            'headers': {'x': {'schema': {'$ref': '#/components/schemas/x'}}}, 'links': {'x': {'operationId': t}},
            'examples': {'x': {'value': {'a': [t]}}}, 'callbacks': {'x': {'e': {'get': op()}}}}
    o = op()
    for k in ks:
        r = {'$ref': url + '#/components/%s/x' % k}
        if k == 'schemas':
            comp['schemas']['u'] = {'properties': {'p': r}}
        elif k == 'parameters':
            o['parameters'] = [r]
        elif k == 'responses':
            o['responses'] = {'200': r}
        elif k == 'requestBodies':
            o['requestBody'] = r
        elif k == 'headers':
            comp['responses']['u'] = {'description': 'd', 'headers': {'X': r}}
        elif k == 'links':
            comp['responses']['v'] = {'description': 'd', 'links': {'l': r}}
        elif k == 'examples':
            comp['parameters']['u'] = {'name': 'n', 'in': 'query', 'examples': {'e': r}}
        elif k == 'callbacks':
            o['callbacks'] = {'c': r}
    paths = {'/p': {'put': o}, '/x': {'get': op()}}
    if 'item' in ks:
        paths['/p']['$ref'] = url + '#/paths/~1x'
    d = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': paths, 'components': comp}
    docs = {ROOT: d}
    if url:
        docs[OTHER] = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/x': {'get': op()}},
                       'components': S.copy(comp)}
    kept = S.copy(docs)
    app = App(docs)
    obj = app.load_obj(ROOT)
    before = read(S, obj)
    S.check(S.same(docs, kept), 'loading leaves the source')
    new = app.migrate_obj(obj, ROOT, '3.0.0')
    unchanged(S, docs, kept, app)
    got = read(S, new)
    if url != 'b.json':
        S.check(S.same(got, before), 'nothing to be changed', lambda: '%r, was %r' % (got, before))
    again = app.migrate_obj(new, ROOT, '3.0.0')
    S.check(S.same(read(S, again), got), 'migrating again gives an equal document')
    app2 = App(docs, resolver=app.resolver if S.flag('same resolver') else None)
    S.check(S.same(read(S, app2.migrate_obj(app2.load_obj(ROOT), ROOT, '3.0.0')), got), 'a second application gives an equal document')
    app3 = App(docs)
    S.check(S.same(read(S, app3.load_obj(ROOT)), before), 'a document loaded afterwards is as it was before')
    unchanged(S, docs, kept, app)


@case(dict(), [])
def oldest(S):
    """1.2 to 2.0 and 3.0.0"""
    t = S.str('t', 1)
    o = {'method': 'POST', 'nickname': t, 'type': 'M', 'parameters': [
        {'paramType': 'body', 'name': 'b', 'type': 'M'}, {'paramType': 'query', 'name': 'q', 'type': 'string', 'allowMultiple': True,
                                                        'enum': ['b', 'a'], 'defaultValue': 'a'}]}
    for k, v in (('consumes', ['c/d', 'a/b']), ('produces', ['c/d', 'a/b']), ('authorizations', {'o': [{'scope': 's', 'description': 'd'}]})):
        if S.flag(k):
            o[k] = v
    decl = {'swaggerVersion': '1.2', 'basePath': 'http://x.y/z', 'resourcePath': '/r', 'consumes': ['e/f'], 'produces': ['g/h'],
            'apis': [{'path': '/p', 'operations': [o, dict(o, method='GET', parameters=[])]}],
            'models': {'M': {'id': 'M', 'subTypes': ['N'], 'required': ['q', 'p'], 'properties': {
                'p': {'type': 'integer', 'minimum': '0', 'enum': ['2', '1']}, 'q': {'type': 'array', 'items': {'$ref': 'N'}}}},
                       'N': {'id': 'N', 'properties': {}}}}
    if S.flag('form'):
        decl['apis'].append({'path': '/f', 'operations': [dict(o, type='void', parameters=[
            {'paramType': 'form', 'name': 'f', 'type': 'File'}])]})
    listing = {'swaggerVersion': '1.2', 'apis': [{'path': '/r'}], 'info': {'title': 't', 'description': 'd'}, 'authorizations': {
        'o': {'type': 'oauth2', 'scopes': [{'scope': 's', 'description': 'd'}], 'grantTypes': {
            'implicit': {'loginEndpoint': {'url': 'u'}, 'tokenName': 'n'}}}}}
    docs = {ROOT: listing, 'http://h/d/r': decl}
    if S.flag('two'):
        listing['apis'].append({'path': '/s'})
        docs['http://h/d/s'] = dict(decl, resourcePath='/s', apis=[{'path': '/p2', 'operations': [o]}])
    kept = S.copy(docs)
    app = App(docs)
    old = app.load_obj(ROOT)
    before = read(S, old)
    to = S.pick('to', ['2.0', '3.0.0'])
    first = app.migrate_obj(old, ROOT, to)
    got = read(S, first)
    unchanged(S, docs, kept, app)
    S.check(S.same(read(S, old), before), 'the object of the older version is unchanged',
            lambda: '%r, was %r' % (read(S, old), before))
    again = app.migrate_obj(old, ROOT, to)
    S.check(S.same(read(S, again), got), 'migrating again gives an equal document', lambda: '%r, was %r' % (read(S, again), got))
    S.check(S.same(read(S, first), got), 'the first result is unchanged')
    app2 = App(docs, resolver=app.resolver if S.flag('same resolver') else None)
    other = app2.load_obj(ROOT)
    if S.flag('in steps'):
        other = app2.migrate_obj(other, ROOT, '2.0')
    S.check(S.same(read(S, app2.migrate_obj(other, ROOT, to)), got), 'a second application gives an equal document, in steps as well')
    unchanged(S, docs, kept, app)
    if to == '2.0':
        mid = read(S, first)
        app.migrate_obj(first, ROOT, '3.0.0')
        S.check(S.same(read(S, first), mid), 'the object of the older version is unchanged')


def renamed(S, x, known):
    """the names that make up the content, with a letter appended"""
    def other(v):
        return v + 'z' if v in known else v
    if isinstance(x, dict):
        return S.mkdict([(other(k), renamed(S, x[k], known)) for k in x])
    if isinstance(x, list):
        return [renamed(S, v, known) for v in x]
    return other(x) if isinstance(x, str) else x


MINE = ('p', 'q', 'e', 'f', 'b', 'g', 'i', 's', 'u', 'a')


@case(dict(), [])
def unrelated(S):
    """an application knows nothing of the documents of another one"""
    a = S.pick('first', [f for f in FEATURES if f != 'codes'])
    docs = document(S, [a])
    b = S.pick('second', ['the same with other names', 'the same'] + [f for f in FEATURES if f not in ('codes', a)])
    if b == 'the same with other names':
        docs2 = dict((u, renamed(S, docs[u], MINE)) for u in docs)
        back = lambda x: renamed(S, x, MINE)
    elif b == 'the same':
        docs2, back = S.copy(docs), lambda x: x
    else:
        docs2, back = {}, None
        d = document(S, [])[ROOT]
        feature(S, b, 'n1', d, docs2)
        docs2[ROOT] = d
    order = S.pick('order', ['one by one', 'loaded first'])
    one, two = App(docs), App(docs2)
    if order == 'loaded first':
        o1, o2 = one.load_obj(ROOT), two.load_obj(ROOT)
        n2 = two.migrate_obj(o2, ROOT, '3.0.0')
        n1 = one.migrate_obj(o1, ROOT, '3.0.0')
    else:
        n1 = one.migrate_obj(one.load_obj(ROOT), ROOT, '3.0.0')
        n2 = two.migrate_obj(two.load_obj(ROOT), ROOT, '3.0.0')
    first = read(S, n1)
    places(S, [a], n1)
    if not back:
        places(S, [None, b], n2)
    if back:
        # consistent names make the second document the first one
        S.check(S.same(read(S, n2), back(first)), 'the second document is the first one with other names',
                lambda: '%r, expected %r' % (read(S, n2), back(first)))
    else:
        three = App(S.copy(docs2))
        n3 = three.migrate_obj(three.load_obj(ROOT), ROOT, '3.0.0')
        S.check(S.same(read(S, n2), read(S, n3)), 'a document gives the same in every application')
    S.check(S.same(read(S, n1), first), 'the first document stays as it is')
