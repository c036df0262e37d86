# -*- coding: utf-8 -*-
"""C21 references designate the same thing after migration."""
import weakref
from sx.capi import case
from .app import App, ROOT
from .tables import V20, V30, MAPS
from pyopenapi.utils import deref, final
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30

ASSUMPTIONS = ['targets are named definitions and the schemas below them, shared parameters and responses (all kinds of '
               'components in 3.0.0), path items and their parameters; names are any string of at most `name` characters '
               'out of those of the case, one of two names may extend the other',
               'at most two documents, three targets in a chain',
               'a reference to a response may be replaced by the content of its target (media types depend on where it is '
               'used), one to a form parameter by the property it stands for',
               'how the pointer into a document that was never loaded as a whole is spelt is not claimed, only what it '
               'leads to']
TABLES = {'2.0': V20, '3.0.0': V30}
OTHER = 'http://h/d/b.json'
PAIRS = [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')]
ATTR = {'$ref': 'ref', 'allOf': 'all_of', 'anyOf': 'any_of', 'oneOf': 'one_of', 'not': 'not_', 'in': 'in_',
        'requestBody': 'request_body', 'requestBodies': 'request_bodies', 'securitySchemes': 'security_schemes',
        'additionalProperties': 'additional_properties'}
OLD = {'schemas': 'definitions'}


def enc(s):
    return s.replace('~', '~0').replace('/', '~1')


def dec(s):
    return s.replace('~1', '/').replace('~0', '~')


def doc(version, **parts):
    d = {'swagger': '2.0'} if version == '2.0' else {'openapi': '3.0.0'}
    d['info'], d['paths'] = {'title': 't', 'version': '1'}, parts.pop('paths', {})
    if version == '2.0':
        for k in parts:
            d[OLD.get(k, k)] = parts[k]
    else:
        d['components'] = parts
    return d


def base(version, kind):
    return '#/%s/' % OLD.get(kind, kind) if version == '2.0' else '#/components/%s/' % kind


def at(root, tokens):
    """what the tokens of a pointer address, through the declared attributes"""
    x = root
    for t in tokens:
        if x is None:
            return None
        if hasattr(x, 'keys'):
            x = x[t] if t in x else None
        elif hasattr(x, '__getitem__'):
            x = x[int(t)]
        else:
            x = getattr(x, ATTR.get(t, t))
    return x


def whole(x):
    """the object behind a weak reference"""
    return x.resolve.__self__ if isinstance(x, weakref.ProxyTypes) else x


def split(S, ref, url):
    """(url, decoded tokens) of a reference used in a document"""
    i = ref.find('#')
    S.check(i >= 0, 'a pointer', lambda: ref)
    u, jp = ref[:i], ref[i + 1:]
    S.check(jp[:1] == '/', 'a pointer', lambda: ref)
    if u and u[:4] != 'http':
        u = 'http://h/d/' + u
    return u or url, [dec(t) for t in jp[1:].split('/')]


def isref(x):
    return getattr(x, 'ref', None) is not None and type(x).__name__ in ('Reference', 'Schema')


def target(ref):
    return ref.get_attrs('migration').ref_obj


def normalised(ref):
    return ref.get_attrs('migration').normalized_ref


def follow(S, obj, url, trees, what):
    """checks a reference of the document at url; what it leads to. trees: {url: migrated document}"""
    t = target(obj)
    S.check(t is not None, 'references are resolved', lambda: '%s: %s' % (what, obj.ref))
    u, tokens = split(S, obj.ref, url)
    n, tokens2 = split(S, normalised(obj), url)
    S.check(S.same(u, n) and S.same(tokens, tokens2), 'the normalised reference designates the same',
            lambda: '%s and %s' % (obj.ref, normalised(obj)))
    if u in trees:
        there = at(trees[u], tokens)
        S.check(there is not None and whole(t) is there, 'the reference addresses the object it is resolved to in the migrated '
                'document', lambda: '%s: %s at %s, resolved to %r' % (what, there, obj.ref, whole(t)))
    return whole(t)


def end(S, obj, url, trees, what, most=4):
    """follows references to what is no reference"""
    x = obj
    while isref(x) and most:
        nxt = follow(S, x, url, trees, what)
        url, _ = split(S, x.ref, url)
        x = nxt
        most -= 1
    return x


def media(content):
    return content[list(content.keys())[0]]


def setup(docs, to, order=(ROOT, )):
    """loads and migrates documents in that order"""
    app, trees = App(docs), {}
    for u in order:
        trees[u] = app.migrate_obj(app.load_obj(u), u, to)
    return app, trees


VERBS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace')


def adorn(x, version, op=False):
    """everything that has nothing to do with references, wherever it may stand"""
    if isinstance(x, list):
        for y in x:
            adorn(y, version)
    if not hasattr(x, 'keys') or '$ref' in x and not [k for k in x if k in VERBS]:
        return x
    for k in list(x):
        adorn(x[k], version, k in VERBS and hasattr(x[k], 'keys') and 'responses' in x[k])

    def add(**more):
        for k in more:
            if k not in x:
                x[k] = more[k]
    if op:
        add(deprecated=True, summary='s', description='o', operationId='o', tags=['t', 'u'], externalDocs={'url': 'u'}, security=[{'k': []}])
        if version == '2.0':
            add(schemes=['https', 'ws'])
        else:
            add(servers=[{'url': 'u'}])
    elif 'name' in x and 'in' in x:
        add(required=True)
        if version != '2.0':
            add(deprecated=True, allowEmptyValue=True)
    elif 'title' in x and 'version' not in x:
        add(description='s', default='d', example={'e': 'f'}, readOnly=True, required=['q', 'p'], xml={'name': 'n', 'wrapped': True},
            externalDocs={'url': 'u'}, minProperties=1, type='object')
        if version != '2.0':
            add(nullable=True, writeOnly=True, deprecated=True)
    elif 'openapi' in x or 'swagger' in x:
        add(tags=[{'name': 't'}], security=[{'k': []}], externalDocs={'url': 'u'})
        if version == '2.0':
            add(host='h.i', basePath='/v', schemes=['https'], securityDefinitions={'k': {'type': 'basic'}})
        else:
            add(servers=[{'url': 'u'}])
    return x


def names(S, alpha):
    """two different names, the second may extend the first"""
    n1 = S.str('n1', S.B.name, alpha=alpha)
    n2 = S.str('n2', 1, alpha=alpha)
    if S.flag('extends'):
        n2 = n1 + S.pick('by', ['', '/', '~1', 'a']) + n2
    S.assume(not S.same(n1, n2))
    return n1, n2


WHERE = ['property', 'items', 'allOf', 'additional', 'deep', 'body', 'response']


def place(S, where, ref, version, d):
    """puts a reference to a schema somewhere into a document; where the reference is afterwards (2.0, 3.0.0)"""
    shared = d['definitions'] if version == '2.0' else d['components']['schemas']
    r = {'$ref': ref}
    if where == 'body':
        op = {'responses': {}}
        if version == '2.0':
            op['parameters'] = [{'in': 'body', 'name': 'b', 'schema': r}]
        else:
            op['requestBody'] = {'content': {'a/b': {'schema': r}}}
        d['paths']['/p'] = {'post': op}
        return lambda to, x: x.paths['/p'].post.parameters[0].schema if to == '2.0' else \
            media(x.paths['/p'].post.request_body.content).schema
    if where == 'response':
        d['paths']['/p'] = {'get': {'responses': {'200': {'description': 'd', 'schema': r} if version == '2.0' else
                                                  {'description': 'd', 'content': {'a/b': {'schema': r}}}}}}
        return lambda to, x: x.paths['/p'].get.responses['200'].schema if to == '2.0' else \
            media(x.paths['/p'].get.responses['200'].content).schema
    holder = {'property': {'properties': {'p/q': r}}, 'items': {'items': r}, 'allOf': {'allOf': [{}, r]},
              'additional': {'additionalProperties': r},
              'deep': {'properties': {'x': {'items': {'allOf': [r]}}}}}[where]
    shared['Holder'] = holder

    def get(to, x):
        h = (x.definitions if to == '2.0' else x.components.schemas)['Holder']
        return {'property': lambda: h.properties['p/q'], 'items': lambda: h.items, 'allOf': lambda: h.all_of[1],
                'additional': lambda: h.additional_properties,
                'deep': lambda: h.properties['x'].items.all_of[0]}[where]()
    return get


@case(dict(name=2), [dict(name=3)])
def schemas(S):
    """references to definitions and schemas below them, whatever their names"""
    version, to = S.pick('version', PAIRS)
    where = S.pick('where', WHERE)
    n1, n2 = names(S, 'a/~1') if where == 'property' else ('a/~1', 'a/~1/')
    p = S.str('p', 1, alpha='a/~') if where == 'items' else 'a/~'
    one = {'title': 'one', 'properties': S.mkdict([(p, {'title': 'below'}), ('other', {'title': 'beside'})]),
           'items': {'title': 'item'}, 'allOf': [{'title': 'all'}], 'additionalProperties': {'title': 'more'}}
    d = doc(version, schemas=S.mkdict([(n1, one), (n2, {'title': 'two', 'properties': S.mkdict([(p, {'title': 'far'})])})]))
    b = base(version, 'schemas')
    ref, want = S.pick('target', [lambda: (b + enc(n1), 'one'), lambda: (b + enc(n2), 'two'),
                                  lambda: (b + enc(n1) + '/properties/' + enc(p), 'below'),
                                  lambda: (b + enc(n2) + '/properties/' + enc(p), 'far'),
                                  lambda: (b + enc(n1) + '/items', 'item'), lambda: (b + enc(n1) + '/allOf/0', 'all'),
                                  lambda: (b + enc(n1) + '/additionalProperties', 'more')])()
    spelt = S.pick('spelt', ['', 'a.json', ROOT])
    get = place(S, where, spelt + ref, version, d)
    app, trees = setup({ROOT: d}, to)
    r = get(to, trees[ROOT])
    S.check(isref(r), 'still a reference', lambda: '%r' % (r, ))
    x = follow(S, r, ROOT, trees, where)
    S.check(x.title == want, 'the object designated by the original document', lambda: '%s: %s, expected %s' % (r.ref, x.title, want))
    # asked for by its original reference
    y, _ = app.resolve_obj(ROOT + ref, version, parser=v20.Schema if version == '2.0' else v30.Schema, to_spec_version=to)
    S.check(whole(y) is x, 'the original reference leads there as well')


def three(S, names_, kind, version, refs):
    """definitions which refer to others: refs[i] is the index of the target"""
    out = S.mkdict()
    for i in range(3):
        if refs[i] is not None:
            out[names_[i]] = {'$ref': base(version, kind) + enc(names_[refs[i]])}
        elif kind == 'schemas':
            out[names_[i]] = {'title': 'n%d' % i}
        elif kind == 'responses':
            out[names_[i]] = {'description': 'n%d' % i}
        elif version == '2.0':
            out[names_[i]] = {'description': 'n%d' % i, 'name': 'n%d' % i, 'in': 'query', 'type': 'string'}
        else:
            out[names_[i]] = {'description': 'n%d' % i, 'name': 'n%d' % i, 'in': 'query', 'schema': {'type': 'string'}}
    return out


def marker(x, kind):
    return x.title if kind == 'schemas' else x.description


@case(dict(), [])
def chains(S):
    """definitions that are references to others"""
    version, to = S.pick('version', PAIRS)
    kind = S.pick('kind', ['schemas', 'responses', 'parameters'])
    ns = S.pick('names', [('a', 'b', 'c'), ('c', 'b', 'a'), ('a', 'a/b', 'a~1b')])
    refs = S.pick('refs', [(1, None, None), (1, 2, None), (None, 2, 0), (2, None, 1), (1, None, 1)])
    if version == '2.0' and kind != 'schemas':
        # shared parameters and responses of 2.0 are no references
        S.assume(False)
    d = doc(version, **{kind: three(S, ns, kind, version, refs)})
    app, trees = setup({ROOT: d}, to)
    for i in range(3):
        x = at(trees[ROOT], [OLD[kind] if to == '2.0' else 'components'] + ([] if to == '2.0' else [kind]) + [ns[i]])
        j = i
        while refs[j] is not None:
            j = refs[j]
        y = end(S, x, ROOT, trees, 'chain')
        S.check(marker(y, kind) == 'n%d' % j, 'the end of the chain', lambda: '%s, expected n%d' % (marker(y, kind), j))
        S.check(whole(deref(x)) is y, 'following references leads there', lambda: '%r' % (deref(x), ))


@case(dict(name=2), [dict(name=3)])
def shared(S):
    """references to shared parameters and responses, whatever their names"""
    version, to = S.pick('version', PAIRS)
    n1, n2 = names(S, 'a/~1')
    what = S.pick('what', ['query', 'body', 'response', 'content'])
    extra = S.pick('level', ['operation', 'item']) if what in ('query', 'body') else 'operation'
    kind = 'responses' if what in ('response', 'content') else 'requestBodies' if what == 'body' and version != '2.0' else 'parameters'

    def part(m, alike):
        if kind == 'responses':
            s = {'description': m}
            if alike and what == 'content':
                if version == '2.0':
                    s['schema'] = {'title': m}
                else:
                    s['content'] = {'a/b': {'schema': {'title': m}}}
            return s
        if kind == 'requestBodies':
            return {'description': m, 'content': {'a/b': {'schema': {'title': m}}}}
        if what == 'body' and alike:
            return {'description': m, 'name': m, 'in': 'body', 'schema': {'title': m}}
        s = {'description': m, 'name': m, 'in': 'query'}
        s.update({'type': 'string'} if version == '2.0' else {'schema': {'type': 'string'}})
        return s
    # an empty name of a body is not told from the default route
    S.assume(what != 'body' or n1 != '' and n2 != '')
    alike = S.flag('alike')
    d = doc(version, **{kind: S.mkdict([(n1, part('one', True)), (n2, part('two', alike))])})
    r = {'$ref': base(version, kind) + enc(n1)}
    also = {'$ref': base(version, kind) + enc(n2)} if S.flag('both') and not (what == 'body' and alike) else None
    if kind == 'requestBodies':
        S.assume(extra == 'operation' and also is None)
        item = {'post': {'responses': {}, 'requestBody': r}}
    elif kind == 'responses':
        item = {'post': {'responses': S.mkdict([('200', r)] + ([('404', also)] if also else []))}}
    elif extra == 'operation':
        item = {'post': {'responses': {}, 'parameters': [r] + ([also] if also else [])}}
    else:
        item = {'post': {'responses': {}}, 'parameters': [r] + ([also] if also else [])}
    d['paths'] = {'/p': item}
    if alike:
        adorn(d, version)
    app, trees = setup({ROOT: d}, to)
    p = trees[ROOT].paths['/p']
    moved = what == 'body' and to == '3.0.0'
    if kind == 'responses':
        got = [p.post.responses['200']] + ([p.post.responses['404']] if also else [])
    elif moved:
        got = [p.post.request_body] + ([(p.post if extra == 'operation' else p).parameters[0]] if also else [])
    else:
        got = list((p.post if extra == 'operation' else p).parameters)
    S.check(len(got) == (2 if also else 1), 'no reference is lost')
    for i in range(len(got)):
        want = ('one', 'two')[i]
        x = got[i]
        inlined = to != version and (kind == 'responses' and (i == 0 or alike) and what == 'content' or what == 'body' and i == 0)
        S.check(inlined or isref(x), 'still a reference', lambda: '%r' % (x, ))
        x = end(S, x, ROOT, trees, what)
        S.check(x.description == want, 'the object designated by the original document',
                lambda: '%s, expected %s' % (x.description, want))
        if what in ('content', 'body') and i == 0:
            s = x.schema if to == '2.0' else media(x.content).schema
            S.check(s.title == want, 'with its content')
        n = (n1, n2)[i]
        builder = v20 if version == '2.0' else v30
        parser = {'responses': builder.Response, 'parameters': builder.Parameter}.get(kind) or v30.RequestBody
        y, _ = app.resolve_obj(ROOT + base(version, kind) + enc(n), version, parser=parser, to_spec_version=to)
        z = at(trees[ROOT], ([] if to == '2.0' else ['components']) +
               ['requestBodies' if moved and (i == 0 or alike) else kind] + [n])
        S.check(z is not None and whole(y) is z, 'the original reference leads to the shared object',
                lambda: '%r, expected %r' % (y, z))


@case(dict(name=1), [dict(name=2)])
def items(S):
    """references to path items and their parameters"""
    version, to = S.pick('version', PAIRS)
    n1 = '/' + S.str('n1', S.B.name, alpha='a/~{')
    n2 = n1 + S.str('n2', 1, 1, alpha='a/~')
    what = S.pick('what', ['item', 'parameter', 'response'])

    def item(m):
        q = {'description': m, 'name': m, 'in': 'query'}
        q.update({'type': 'string'} if version == '2.0' else {'schema': {'type': 'string'}})
        first = {'name': 'h', 'in': 'header'}
        first.update({'type': 'string'} if version == '2.0' else {'schema': {'type': 'string'}})
        if version == '2.0' and body:
            first = {'name': 'b', 'in': 'body', 'schema': {}}
        return {'get': {'summary': m, 'responses': {'200': {'description': m}}}, 'parameters': [first, q]}
    body = S.flag('body')
    to_, t = (n1, 'one') if S.flag('first') else (n2, 'two')
    ref = {'item': '', 'parameter': '/parameters/1', 'response': '/get/responses/200'}[what]
    ref = '#/paths/' + enc(to_) + ref
    r = {'$ref': ref}
    user = {'item': r, 'parameter': {'put': {'responses': {}, 'parameters': [r]}},
            'response': {'put': {'responses': {'200': r}}}}[what]
    d = doc(version, paths=S.mkdict([(n1, item('one')), (n2, item('two')), ('x', user)]))
    app, trees = setup({ROOT: d}, to)
    u = trees[ROOT].paths['x']
    if what == 'item':
        x = follow(S, u, ROOT, trees, what)
        S.check(x is trees[ROOT].paths[to_] and x.get.summary == t, 'the path item designated by the original document')
        f = getattr(u.get_attrs('migration'), 'final_obj', None)
        S.check(f.get.summary == t, 'and merged')
    else:
        x = u.put.parameters[0] if what == 'parameter' else u.put.responses['200']
        S.check(what == 'response' or isref(x), 'still a reference')
        x = end(S, x, ROOT, trees, what)
        S.check(x.description == t, 'the object designated by the original document', lambda: '%s, expected %s' % (x.description, t))


KINDS = [('schemas', {'title': 'x'}, 'x'), ('responses', {'description': 'x'}, 'x'),
         ('parameters', {'name': 'n', 'in': 'query', 'description': 'x', 'schema': {}}, 'x'),
         ('examples', {'summary': 'x'}, 'x'), ('requestBodies', {'description': 'x', 'content': {}}, 'x'),
         ('headers', {'description': 'x', 'schema': {}}, 'x'),
         ('securitySchemes', {'description': 'x', 'type': 'http', 'scheme': 'basic'}, 'x'),
         ('links', {'description': 'x', 'operationId': 'o'}, 'x'), ('callbacks', {'e': {'summary': 'x'}}, 'x')]
USERS = {
    'schemas': [('schemas', lambda r: {'properties': {'p': r}}, lambda h: h.properties['p']),
                ('schemas', lambda r: {'not': r}, lambda h: h.not_), ('schemas', lambda r: {'anyOf': [{}, r]}, lambda h: h.any_of[1]),
                ('schemas', lambda r: {'oneOf': [r]}, lambda h: h.one_of[0]),
                ('parameters', lambda r: {'name': 'n', 'in': 'query', 'schema': r}, lambda h: h.schema),
                ('parameters', lambda r: {'name': 'n', 'in': 'query', 'content': {'a/b': {'schema': r}}},
                 lambda h: h.content['a/b'].schema),
                ('headers', lambda r: {'schema': r}, lambda h: h.schema),
                ('headers', lambda r: {'content': {'a/b': {'schema': r}}}, lambda h: h.content['a/b'].schema)],
    'responses': [('responses', lambda r: r, lambda h: h)],
    'parameters': [('parameters', lambda r: r, lambda h: h)],
    'examples': [('parameters', lambda r: {'name': 'n', 'in': 'query', 'examples': {'e': r}}, lambda h: h.examples['e']),
                 ('headers', lambda r: {'examples': {'e': r}}, lambda h: h.examples['e']),
                 ('requestBodies', lambda r: {'content': {'a/b': {'examples': {'e': r}}}}, lambda h: h.content['a/b'].examples['e']),
                 ('examples', lambda r: r, lambda h: h)],
    'requestBodies': [('requestBodies', lambda r: r, lambda h: h)],
    'headers': [('responses', lambda r: {'description': 'd', 'headers': {'X': r}}, lambda h: h.headers['X']),
                ('requestBodies', lambda r: {'content': {'a/b': {'encoding': {'p': {'headers': {'X': r}}}}}},
                 lambda h: h.content['a/b'].encoding['p'].headers['X']), ('headers', lambda r: r, lambda h: h)],
    'securitySchemes': [('securitySchemes', lambda r: r, lambda h: h)],
    'links': [('responses', lambda r: {'description': 'd', 'links': {'l': r}}, lambda h: h.links['l']),
              ('links', lambda r: r, lambda h: h)],
    'callbacks': [('callbacks', lambda r: r, lambda h: h)],
}
PARSERS = {'schemas': 'Schema', 'responses': 'Response', 'parameters': 'Parameter', 'examples': 'Example',
           'requestBodies': 'RequestBody', 'headers': 'Header', 'securitySchemes': 'SecurityScheme', 'links': 'Link',
           'callbacks': 'Callback'}
OPERATION = [('responses', lambda r: {'responses': {'200': r}}, lambda o: o.responses['200']),
             ('parameters', lambda r: {'responses': {}, 'parameters': [r]}, lambda o: o.parameters[0]),
             ('requestBodies', lambda r: {'responses': {}, 'requestBody': r}, lambda o: o.request_body),
             ('callbacks', lambda r: {'responses': {}, 'callbacks': {'c': r}}, lambda o: o.callbacks['c'])]


def said(kind, x):
    return x.title if kind == 'schemas' else x.summary if kind == 'examples' else x['e'].summary if kind == 'callbacks' else \
        x.description


@case(dict(name=1), [dict(name=2)])
def components(S):
    """3.0.0: references to every kind of component from every place, in one or two documents"""
    kind, src, _ = S.pick('kind', KINDS)
    n = S.str('n', S.B.name, alpha='a/~')
    S.assume(n != 'Holder')
    far = S.pick('far', ['no', 'versioned', 'fragment', 'loaded before', 'loaded after'])
    # known finding of C28: an object loaded ahead under an empty name replaces its container
    S.assume(far != 'loaded after' or n != '')
    src = S.copy(src)
    parts = {}
    parts[kind] = S.mkdict([(n, src), (n + 'a', S.copy(src))])
    beside = parts[kind][n + 'a']
    if kind == 'schemas':
        beside['title'] = 'y'
    elif kind == 'examples':
        beside['summary'] = 'y'
    elif kind == 'callbacks':
        beside['e'] = {'summary': 'y'}
    else:
        beside['description'] = 'y'
    r = S.mkdict([('$ref', ('' if far == 'no' else 'b.json') + '#/components/%s/' % kind + enc(n))])
    here = parts if far == 'no' else {}
    users = USERS[kind] + [o for o in OPERATION if o[0] == kind]
    i = S.pick('user', range(len(users)))
    holder, make, get = users[i]
    inop = i >= len(USERS[kind])
    level = S.pick('level', ['op', 'item']) if inop and kind == 'parameters' else 'op'
    paths = {}
    if inop:
        paths['/p'] = {'put': make(r)} if level == 'op' else {'put': {'responses': {}}, 'parameters': [r]}
    else:
        if holder not in here:
            here[holder] = {}
        here[holder]['Holder'] = make(r)
    docs = {ROOT: doc('3.0.0', paths=paths, **here)}
    if far == 'fragment':
        docs[OTHER] = {'components': parts}
    elif far != 'no':
        docs[OTHER] = doc('3.0.0', **parts)
    order = {'loaded before': (OTHER, ROOT), 'loaded after': (ROOT, OTHER)}.get(far, (ROOT, ))
    app, trees = setup(docs, '3.0.0', order)
    root = trees[ROOT]
    x = (get(root.paths['/p'].put) if level == 'op' else root.paths['/p'].parameters[0]) if inop else \
        get(at(root, ['components', holder, 'Holder']))
    S.check(isref(x), 'still a reference', lambda: '%r' % (x, ))
    y = follow(S, x, ROOT, trees if far != 'loaded after' else {ROOT: root}, kind)
    S.check(type(y) is getattr(v30, PARSERS[kind], type(y)), 'an object of that kind', lambda: '%r' % (y, ))
    S.check(said(kind, y) == 'x', 'the object designated by the original document', lambda: '%s at %s' % (said(kind, y), x.ref))
    u, tokens = split(S, x.ref, ROOT)
    S.check(u == (ROOT if far == 'no' else OTHER) and S.same(tokens, ['components', kind, n]), 'the reference stays what it was',
            lambda: x.ref)
    if far == 'loaded after':
        z = trees[OTHER].components
        S.check(said(kind, at(z, [kind, n])) == 'x' and said(kind, at(z, [kind, n + 'a'])) == 'y', 'the document loaded afterwards')


@case(dict(name=1), [dict(name=2)])
def documents(S):
    """2.0: references into another document, in every order"""
    to = S.pick('to', ['2.0', '3.0.0'])
    n = S.str('n', S.B.name, alpha='a/~')
    what = S.pick('what', ['schema', 'below', 'query', 'body', 'response', 'content', 'item'])
    inner = S.pick('inner', ['plain', 'local', 'back']) if what in ('schema', 'body', 'content') else 'plain'
    # where in the target the reference is
    spot = S.pick('spot', ['properties', 'items', 'additionalProperties', 'allOf', 'deep', 'far']) if inner != 'plain' else 'properties'
    order = S.pick('order', ['root only', 'other first', 'other after', 'part first'])
    S.assume(spot == 'properties' or n == 'a' and order in ('root only', 'other after'))
    # known finding of C28: an object loaded ahead under an empty name replaces its container
    S.assume(order != 'other after' or n != '')
    far = S.flag('versioned') if order in ('root only', 'part first') else True
    s = {'plain': {'title': 'below'}, 'local': {'$ref': '#/definitions/T'}, 'back': {'$ref': 'a.json#/definitions/T'}}[inner]
    s = {'properties': ('properties', S.mkdict([(n, s)])), 'items': ('items', s), 'additionalProperties': ('additionalProperties', s),
         'allOf': ('allOf', [{'title': 'y'}, s]), 'deep': ('properties', {'a': {'items': {'items': s}}}),
         'far': ('additionalProperties', {'properties': {'a': {'allOf': [s]}}})}[spot]
    s = S.mkdict([('title', 'x'), s])
    parts = {'definitions': S.mkdict([('T', {'title': 'inner'})])}
    kind = {'schema': 'definitions', 'below': 'definitions', 'query': 'parameters', 'body': 'parameters',
            'response': 'responses', 'content': 'responses'}.get(what)
    src = {'schema': s, 'below': s, 'query': {'description': 'x', 'name': 'q', 'in': 'query', 'type': 'string'},
           'body': {'description': 'x', 'name': 'b', 'in': 'body', 'schema': s}, 'response': {'description': 'x'},
           'content': {'description': 'x', 'schema': s}}.get(what)
    paths = {}
    if what == 'item':
        path = '/' + n
        paths = S.mkdict([(path, {'get': {'summary': 'x', 'responses': {}}})])
        jp = '#/paths/' + enc(path)
    else:
        name = n if n not in ('T', ) else 'TT'
        if kind in parts:
            parts[kind][name] = src
        else:
            parts[kind] = S.mkdict([(name, src)])
        jp = '#/%s/' % kind + enc(name)
    use = jp + ('/properties/' + enc(n) if what == 'below' else '')
    r = S.mkdict([('$ref', 'b.json' + use)])
    item = {'query': {'put': {'responses': {}, 'parameters': [r]}}, 'body': {'put': {'responses': {}, 'parameters': [r]}},
            'response': {'put': {'responses': {'200': r}}}, 'content': {'put': {'responses': {'200': r}}}, 'item': r}.get(what)
    mine = {'T': {'title': 'outer'}}
    if item is None:
        mine['Holder'] = {'properties': {'p': r}}
    docs = {ROOT: doc('2.0', paths={'/p': item} if item is not None else {}, definitions=mine),
            OTHER: doc('2.0', paths=paths, **parts) if far else S.mkdict([('paths', paths)] + [(k, parts[k]) for k in sorted(parts)])}
    parser = {'schema': v20.Schema, 'below': v20.Schema, 'query': v20.Parameter, 'body': v20.Parameter,
              'response': v20.Response, 'content': v20.Response, 'item': v20.PathItem}[what]
    app, trees, part = App(docs), {}, None
    if order == 'part first':
        part = S.trap(lambda: app.resolve_obj(OTHER + use, '2.0', parser=parser, to_spec_version=to))
        # a part can be asked for only once the version of the application is known
    for u in {'other first': (OTHER, ROOT), 'other after': (ROOT, OTHER)}.get(order, (ROOT, )):
        trees[u] = app.migrate_obj(app.load_obj(u), u, to)
    root = trees[ROOT]
    seen = trees if order == 'other first' else {ROOT: root}
    want = 'below' if what == 'below' else 'x'
    if what == 'item':
        f = root.paths['/p'].get_attrs('migration').final_obj if to == '3.0.0' else \
            root.paths['/p'].get_attrs('migration').ref_obj
        S.check(f is not None and f.get.summary == 'x', 'the path item of the other document')
        return
    if item is None:
        x = (root.definitions if to == '2.0' else root.components.schemas)['Holder'].properties['p']
    elif what in ('response', 'content'):
        x = root.paths['/p'].put.responses['200']
    elif what == 'body' and to == '3.0.0':
        x = root.paths['/p'].put.request_body
    else:
        x = root.paths['/p'].put.parameters[0]
    inlined = to == '3.0.0' and what in ('body', 'content')
    S.check(inlined or isref(x), 'still a reference', lambda: '%r' % (x, ))
    y = end(S, x, ROOT, seen, what)
    S.check((y.title if kind == 'definitions' else y.description) == want, 'the object designated by the original document')
    S.check(y.__swagger_version__ == to, 'of the version asked for')
    if what in ('schema', 'body', 'content'):
        sch = y if what == 'schema' else y.schema if to == '2.0' else media(y.content).schema
        S.check(sch.title == 'x', 'with its content')
        more = sch.additionalProperties if to == '2.0' else sch.additional_properties
        all_of = lambda x: x.allOf if to == '2.0' else x.all_of
        z = sch.properties[n] if spot == 'properties' else sch.items if spot == 'items' else \
            more if spot == 'additionalProperties' else all_of(sch)[1] if spot == 'allOf' else \
            sch.properties['a'].items.items if spot == 'deep' else all_of(more.properties['a'])[0]
        # the pointer into a document that is loaded only afterwards may be spelt as it was
        z = end(S, z, OTHER if not inlined else ROOT, seen if inner != 'back' or order != 'other first' else {}, 'inner')
        S.check(z.title == {'plain': 'below', 'local': 'inner', 'back': 'outer'}[inner], 'references inside the target',
                lambda: '%s' % (z.title, ))
    if order == 'other after':
        b = trees[OTHER]
        k = {'definitions': 'schemas'}.get(kind, kind)
        k = 'requestBodies' if what == 'body' else k
        z = at(b, [kind, name] if to == '2.0' else ['components', k, name])
        S.check(z is not None and (z.title if kind == 'definitions' else z.description) == 'x', 'the document loaded afterwards')
    back, _ = app.resolve_obj(OTHER + use, '2.0', parser=parser, to_spec_version=to)
    S.check(S.same((back.title if kind == 'definitions' else back.description), want), 'the original reference leads there',
            lambda: '%r' % (back, ))


@case(dict(), [dict(docs=3)])
def hops(S):
    """chains of references through other documents, whole ones or fragments"""
    version, to = S.pick('version', PAIRS)
    kind, src, _ = S.pick('kind', KINDS if version == '3.0.0' else [KINDS[0]])
    where = [ROOT] + [S.pick('doc%d' % i, ['http://h/d/%s.json' % x for x in 'abc']) for i in range(2)]
    whole_ = {OTHER: S.flag('b versioned'), 'http://h/d/c.json': S.flag('c versioned')}
    S.assume(where[1] != where[2] or where[1] == ROOT or not whole_['http://h/d/c.json'] or OTHER in where)
    b = base(version, kind)
    order = (ROOT, )
    if where[1] != ROOT and whole_[where[1]]:
        order = S.pick('order', [(ROOT, ), (where[1], ROOT)])
    # known finding of C28: objects loaded ahead under names that need encoding
    N = ['N/0', 'N~1', '~01'] if len(order) == 1 else ['N0', 'N1', 'N2']
    parts = {}
    for i in range(2):
        nxt = where[i + 1]
        spelt = '' if nxt == where[i] and S.flag('short%d' % i) else nxt[len('http://h/d/'):]
        parts.setdefault(where[i], {})[N[i]] = {'$ref': spelt + b + enc(N[i + 1])}
    parts.setdefault(where[2], {})[N[2]] = S.copy(src)
    if kind == 'schemas' and S.flag('below'):
        # the last target has a reference as well
        parts[where[2]][N[2]]['items'] = {'$ref': ROOT + b + 'Last'}
    parts[ROOT]['Last'] = S.copy(src)
    docs = {}
    for u in parts:
        if u == ROOT or whole_[u]:
            docs[u] = doc(version, **{kind: parts[u]})
        else:
            docs[u] = {'definitions': parts[u]} if version == '2.0' else {'components': {kind: parts[u]}}
    app, trees = setup(docs, to, order)
    root = trees[ROOT]
    x = at(root, [OLD[kind] if to == '2.0' else 'components'] + ([] if to == '2.0' else [kind]) + [N[0]])
    y = x
    for i in range(2):
        S.check(isref(y) and type(y) is type(x), 'a reference', lambda: '%r' % (y, ))
        # the pointer into a document that is loaded only afterwards may be spelt as it was
        y = follow(S, y, where[i], {} if len(order) > 1 and where[i] != ROOT else {ROOT: root}, 'hop')
    S.check(not isref(y) and said(kind, y) == 'x', 'the end of the chain', lambda: '%r' % (y, ))
    S.check(y.__swagger_version__ == to, 'of the version asked for')
    S.check(whole(deref(x)) is y, 'following references leads there', lambda: '%r' % (deref(x), ))
    if kind == 'schemas' and y.items is not None:
        z = follow(S, y.items, where[2], {} if len(order) > 1 else {ROOT: root}, 'below the end')
        S.check(len(order) > 1 or z is at(root, ['definitions' if to == '2.0' else 'components'] + ([] if to == '2.0' else ['schemas']) + ['Last']),
                'a reference below the end of the chain')
        S.check(z.title == 'x', 'a reference below the end of the chain')


@case(dict(name=1), [dict(name=2)])
def models(S):
    """1.2: references to models, from 1.2 to the version asked for"""
    to = S.pick('to', ['2.0', '3.0.0'])
    res = '/' + S.str('resource', 1, alpha='a/~')
    m0 = S.str('m0', S.B.name, 1, alpha='a/~')
    m1 = S.pick('m1', ['b', 'a~1', 'a'])
    S.assume(not S.same(m0, m1))
    other = S.pick('other', ['/b', '/a/a'])
    S.assume(not S.same(res, other))
    where = S.pick('where', ['property', 'items', 'sub type', 'body', 'returns', 'returns items'])
    how = S.pick('how', ['$ref', 'type']) if where not in ('sub type', ) else '$ref'
    r = {how: m0}
    a = {'id': m0, 'description': 'x', 'properties': {'p': {'type': 'string'}}}
    b = {'id': m1, 'description': 'y', 'properties': {'p': {'type': 'string'}}}
    op = {'method': 'POST', 'nickname': 'n', 'type': 'void', 'parameters': []}
    if where == 'property':
        b['properties']['q'] = r
    elif where == 'items':
        b['properties']['q'] = {'type': 'array', 'items': r}
    elif where == 'sub type':
        a['subTypes'] = [m1]
    elif where == 'body':
        op['parameters'].append(dict([('paramType', 'body'), ('name', 'b')] + [(k, r[k]) for k in r]))
    elif where == 'returns':
        op['type'] = m0
    else:
        op['type'], op['items'] = 'array', r
    # the other resource has a model of the same name
    decl = {'swaggerVersion': '1.2', 'basePath': 'http://x.y', 'resourcePath': res, 'models': S.mkdict([(m0, a), (m1, b)]),
            'apis': [{'path': '/p', 'operations': [op]}]}
    decl2 = {'swaggerVersion': '1.2', 'basePath': 'http://x.y', 'resourcePath': other, 'apis': [],
             'models': S.mkdict([(m0, {'id': m0, 'description': 'far', 'properties': {'p': {'type': 'string'}}})])}
    docs = {ROOT: {'swaggerVersion': '1.2', 'apis': [{'path': '/r0'}, {'path': '/r1'}]}}
    docs['http://h/d/r0'], docs['http://h/d/r1'] = decl, decl2
    app, trees = setup(docs, to)
    root = trees[ROOT]
    found = []
    table = root.definitions if to == '2.0' else root.components.schemas
    for k in table.keys():
        if table[k].description == 'y':
            found.append(table[k])
    S.check(len(found) == 1 and len(table) == 3, 'a schema for every model', lambda: '%r' % (list(table.keys()), ))
    y = found[0]
    o = root.paths['/p'].post
    if where == 'property':
        x = y.properties['q']
    elif where == 'items':
        x = y.properties['q'].items
    elif where == 'sub type':
        x = y.all_of[0]
    elif where == 'body':
        x = o.parameters[0].schema if to == '2.0' else media(o.request_body.content).schema
    else:
        x = o.responses['default']
        x = x.schema if to == '2.0' else media(x.content).schema
        if where == 'returns items':
            x = x.items
    S.check(isref(x), 'a reference')
    t = end(S, x, ROOT, trees, where)
    S.check(t.description == 'x', 'the model of that name in the same resource', lambda: '%s by %s' % (t.description, x.ref))


PLURAL = {'3.0.0': dict((v, k) for k, v in PARSERS.items()),
          '2.0': {'Schema': 'definitions', 'Parameter': 'parameters', 'Response': 'responses'}}
PLAIN = {'Parameter': {'name': 'x', 'in': 'query'}, 'Response': {'description': 'x'}, 'RequestBody': {'content': {}},
         'Header': {}, 'Link': {'operationId': 'x'}, 'SecurityScheme': {'type': 'x'}, 'Example': {}, 'Schema': {},
         'Callback': {'x': {}}, 'Info': {'title': 'x', 'version': 'x'}, 'Server': {'url': 'x'}}


class Everywhere(object):
    """documents with references at every position, of which one branch is entered; `refs` records the positions"""

    def __init__(self, S, version):
        self.S, self.version, self.refs = S, version, []
        self.table, self.targets = TABLES[version], PLURAL[version]

    def reaches(self, c, seen=()):
        """a position that may have references in it"""
        if c == 'str':
            return False
        if isinstance(c, tuple):
            return c[0] == 'ref' or self.reaches(c[1], seen)
        if self.version == '2.0' and c == 'Schema':
            return True
        if c in MAPS:
            return self.reaches(MAPS[c], seen)
        if c in seen:
            return False
        return len([x for x in self.table[c].children.values() if self.reaches(x, seen + (c, ))]) > 0

    def ref(self, kind, tokens):
        self.refs.append((tokens, kind))
        return {'$ref': ('#/' if self.version == '2.0' else '#/components/') + self.targets[kind] + '/T~1'}

    def obj(self, kind, tokens, depth, all_, name):
        S = self.S
        if kind in MAPS:
            return {'x': self.child(MAPS[kind][1], tokens + ['x'], depth, all_, name)}
        children = [c for c in sorted(self.table[kind].children) if self.reaches(self.table[kind].children[c])]
        focus = S.pick(name, [None] + children) if children and depth else None
        out = dict(PLAIN.get(kind, {}))
        for c in children:
            if c == focus:
                out[c] = self.child(self.table[kind].children[c], tokens + [c], depth - 1, all_, name + '.' + c, True)
            elif all_:
                out[c] = self.child(self.table[kind].children[c], tokens + [c], 0, False, name + '.' + c)
        return out

    def child(self, c, tokens, depth, all_, name, focus=False):
        """without focus: a reference, or something plain"""
        if isinstance(c, tuple) and c[0] == 'bool':
            c = c[1]
        if isinstance(c, str):
            c = ('ref', c) if self.version == '2.0' and c == 'Schema' else c
        if isinstance(c, str):
            return self.obj(c, tokens, depth if focus else 0, all_, name)
        if c[0] == 'ref':
            if focus and depth and self.S.pick(name + '.inside', [True, False]):
                return self.obj(c[1], tokens, depth, all_, name)
            return self.ref(c[1], tokens)
        if c[0] == 'list':
            first = self.child(c[1], tokens + ['0'], 0, False, name + '.0')
            return [first, self.child(c[1], tokens + ['1'], depth, all_, name + '.1', focus)]
        first = self.child(c[1], tokens + ['a/'], 0, False, name + '.a')
        return {'a/': first, 'b': self.child(c[1], tokens + ['b'], depth, all_, name + '.b', focus)}


def sown(version, leave):
    """a document with references everywhere except in some of its parts; names of the targets in the migrated one, by
    the version migrated to"""
    d = doc(version, schemas={'D': {'title': 'D'}, 'E/': {'title': 'E/'}})
    names_ = {'2.0': [], '3.0.0': []}
    new = version == '3.0.0'

    def use(part, name, kind, url='', becomes=None, again=True):
        """a list with the reference, or an empty one"""
        if part in leave:
            return []
        if again:
            names_['2.0'].append(name)
            for b in becomes or [name]:
                names_['3.0.0'].append(b)
        return [{'$ref': url + base(version, kind) + enc(name)}]

    def first(l, other):
        return l[0] if l else other
    defs = d['components']['schemas'] if new else d['definitions']
    plain = {'title': '-'}
    defs['Chain'] = first(use('chain', 'D', 'schemas'), dict(plain))
    defs['Holder'] = {'title': 'Holder', 'properties': {'a': first(use('property', 'E/', 'schemas'), plain), 'b': plain},
                      'items': first(use('items', 'D', 'schemas'), plain), 'allOf': use('allOf', 'Chain', 'schemas') + [plain],
                      'additionalProperties': {'items': first(use('additional', 'E/', 'schemas'), plain)}}
    defs['Far'] = {'title': 'Far', 'properties': {'f': first(use('far', 'X', 'schemas', 'b.json'), plain)}}
    body_schema = first(use('body schema', 'E/', 'schemas'), plain)
    resp_schema = first(use('response schema', 'Holder', 'schemas'), plain)
    q = {'in': 'query', 'name': 'q', 'description': 'P~'}
    h = {'in': 'header', 'name': 'h'}
    if new:
        q['schema'], h['schema'] = {'type': 'string'}, {'type': 'string'}
        c = d['components']
        c['parameters'] = {'P~': q}
        c['requestBodies'] = {'B': {'description': 'B', 'content': {'a/b': {'schema': body_schema}}}}
        c['responses'] = {'R': {'description': 'R'}, 'S/': {'description': 'S/', 'content': {'a/b': {'schema': resp_schema}}}}
    else:
        q['type'], h['type'] = 'string', 'string'
        d['parameters'] = {'P~': q, 'B': {'in': 'body', 'name': 'b', 'description': 'B', 'schema': body_schema}}
        d['responses'] = {'R': {'description': 'R'}, 'S/': {'description': 'S/', 'schema': resp_schema}}
    op = {'responses': {}, 'parameters': [h] + use('operation parameter', 'P~', 'parameters')}
    # what is inlined where it is used has references of its own
    inner = [] if 'body schema' in leave else ['E/']
    if new:
        for r in use('body', 'B', 'requestBodies'):
            op['requestBody'] = r
    else:
        op['parameters'] += use('body', 'B', 'parameters', becomes=inner if inner else ['-'])
    op['responses']['200'] = first(use('response', 'S/', 'responses', becomes=None if new else
                                       ['Holder' if 'response schema' not in leave else '-']),
                                   {'description': '-'})
    op['responses']['default'] = first(use('default', 'R', 'responses'), {'description': '-'})
    d['paths'] = {'/a': {'parameters': use('item parameter', 'P~', 'parameters') + [{k: h[k] for k in h}], 'put': op},
                  '/b': {'get': {'responses': {'200': {'description': '-'}}}}, '/c': {}}
    for name, path, ref in (('item', '/b', '#/paths/~1a'), ('far item', '/c', 'b.json#/paths/~1x')):
        if name not in leave:
            d['paths'][path]['$ref'] = ref
    far = doc(version, schemas={'X': {'title': 'X'}}, paths={'/x': {'head': {'responses': {'200': {'description': '-'}}}}})
    return {ROOT: d, OTHER: far}, names_


SOWN = ['chain', 'property', 'items', 'allOf', 'additional', 'far', 'body schema', 'response schema', 'operation parameter', 'body',
        'response', 'default', 'item parameter', 'item', 'far item']


@case(dict(left=2), [dict(left=3)])
def together(S):
    """documents with references everywhere but in any few parts"""
    version, to = S.pick('version', PAIRS)
    n, leave, at0 = S.length('n', 0, S.B.left), [], 0
    for i in range(n):
        j = S.pick('left%d' % i, range(at0, len(SOWN) - (n - 1 - i)))
        leave.append(SOWN[j])
        at0 = j + 1
    docs, want = sown(version, leave)
    far = S.flag('far first')
    if S.flag('adorned'):
        for u in docs:
            adorn(docs[u], version)
    app, trees = setup(docs, to, (OTHER, ROOT) if far else (ROOT, ))
    root = trees[ROOT]
    got = []

    def walk(x):
        x = whole(x)
        if hasattr(x, 'keys'):
            for k in x.keys():
                walk(x[k])
        elif hasattr(x, '__getitem__') and not isinstance(x, str):
            for y in x:
                walk(y)
        elif hasattr(x, '__children__'):
            if isref(x):
                y = follow(S, x, ROOT, trees, 'together')
                last = dec(x.ref[x.ref.rfind('/') + 1:])
                got.append(last)
                while isref(y):
                    y = whole(target(y))
                s = y.title if type(y).__name__ == 'Schema' else y.description
                S.check(s == ('D' if last == 'Chain' and 'chain' not in leave else '-' if last == 'Chain' else last),
                        'the object designated by the original document', lambda: '%s by %s' % (s, x.ref))
                return
            for c in x.__children__:
                walk(getattr(x, c))
    for c in ('paths', 'components') if to == '3.0.0' else ('paths', 'definitions', 'parameters', 'responses'):
        walk(getattr(root, c))
    names_ = sorted([x for x in want[to] if x != '-'])
    S.check(sorted(got) == names_, 'as many references as there were', lambda: '%r, expected %r' % (sorted(got), names_))
    for name, path, there in (('item', '/b', lambda: root.paths['/a']), ('far item', '/c', None)):
        t = root.paths[path].get_attrs('migration')
        f = t.final_obj if t else None
        if name in leave:
            S.check(f is None, 'nothing is merged without a reference')
        else:
            S.check(f is not None and (f.put if there else f.head) is not None, 'path items are merged')
            if there:
                S.check(whole(t.ref_obj) is there(), 'the path item referred to')


@case(dict(depth=3), [dict(depth=4), dict(depth=5)])
def everywhere(S):
    """references at every position of documents, one or many at a time"""
    version, to = S.pick('version', PAIRS)
    e = Everywhere(S, version)
    kinds = sorted(e.targets) + ['PathItem']
    if to != version:
        kinds = ['Schema']              # other kinds of 2.0 change their place
    kind = S.pick('kind', kinds)
    all_ = S.pick('all', [False, True])
    if kind == 'PathItem':
        at_ = ['paths', '/p']
    else:
        at_ = ([] if version == '2.0' else ['components']) + [e.targets[kind], 'Holder']
    d = doc(version)
    held = e.obj(kind, at_, S.B.depth, all_, 'h')
    S.assume(len(e.refs) > 0)
    if version == '2.0':
        for k in e.targets:
            d[e.targets[k]] = {'T/': dict(PLAIN[k])}
    else:
        d['components'] = dict((e.targets[k], {'T/': dict(PLAIN[k])}) for k in e.targets)
    x = d
    for t in at_[:-1]:
        x = x[t]
    x[at_[-1]] = held
    if all_ and version == '3.0.0':
        # a reference among the components of every kind
        for k in sorted(e.targets):
            d['components'][e.targets[k]]['R'] = e.ref(k, ['components', e.targets[k], 'R'])
    item = kind == 'PathItem' and S.flag('item')
    if item:
        d['paths']['/q~'] = {}
        held['$ref'] = '#/paths/~1q~0'
    app, trees = setup({ROOT: d}, to)
    root = trees[ROOT]
    if item:
        S.check(whole(root.paths['/p'].get_attrs('migration').ref_obj) is root.paths['/q~'], 'the path item referred to')
    for tokens, k in e.refs:
        if to != version:
            tokens = ['components', 'schemas'] + tokens[1:]
        r = at(root, tokens)
        S.check(r is not None and isref(r), 'still a reference', lambda: '%r at %s' % (r, tokens))
        y = follow(S, r, ROOT, trees, '/'.join(tokens))
        z = at(root, ([PLURAL[to][k]] if to == '2.0' else ['components', PLURAL[to][k]]) + ['T/'])
        S.check(z is not None and y is z, 'the object designated by the original document', lambda: '%s' % tokens)
