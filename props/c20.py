# -*- coding: utf-8 -*-
"""C20 a 1.2 API as a 2.0 document."""
from sx.capi import case
from . import tables
from .app import App, ROOT, SEP
from .gen import Gen
from pyopenapi.errs import SchemaError
from pyopenapi.utils import jp_compose
from pyopenapi.migration.versions.v2_0 import objects as v20

ASSUMPTIONS = ['declarations are valid 1.2: references name models of the same resource, minimum and maximum are given '
               'for integers and numbers, the limits of an integer are integral; names of models, properties, '
               'resources and authorizations are any string of at most `name` characters out of "a", "/", "~"',
               'response messages, the descriptions of resources and APIs, and tokens of grant types are not claimed',
               'several authorizations may become one security requirement or several',
               'the flow of the authorization code grant is whatever the tests pin (access_code)']
H = 'http://x.y'


def upgrade(decls, version='2.0', **listing):
    d = {'swaggerVersion': '1.2', 'apis': [{'path': '/r%d' % i} for i in range(len(decls))]}
    d.update(listing)
    docs = {ROOT: d}
    for i in range(len(decls)):
        docs['http://h/d/r%d' % i] = decls[i]
    app = App(docs)
    return app.migrate_obj(app.load_obj(ROOT), ROOT, version)


def declare(apis=(), models=None, resource='/r', base=H, **more):
    d = {'swaggerVersion': '1.2', 'basePath': base, 'resourcePath': resource, 'apis': list(apis)}
    if models is not None:
        d['models'] = models
    d.update(more)
    return d


def api(path, *ops):
    return {'path': path, 'operations': list(ops)}


def operation(method='GET', **more):
    d = {'method': method, 'nickname': 'op', 'type': 'void', 'parameters': []}
    d.update(more)
    return d


def read(S, obj):
    return tidy(S, Gen(S, tables.V20, v20).read(obj))


def tidy(S, x):
    """null and empty objects are absent"""
    if hasattr(x, 'keys'):
        out = S.mkdict()
        for k in x:
            v = tidy(S, x[k])
            if v is not None and not (hasattr(v, 'keys') and not len(v)):
                out[k] = v
        return out
    if isinstance(x, list):
        return [tidy(S, v) for v in x]
    return x


def present(S, d):
    return S.mkdict([(k, d[k]) for k in d if d[k] is not None])


def text(S, name):
    return S.str(name, 1)


def name(S, n):
    return S.str(n, S.B.name, 1, alpha='a/~')


def ref(resource, model):
    scope = resource[1:]
    token = (scope + SEP + model if scope else model).replace('~', '~0').replace('/', '~1')
    return '#/definitions/' + token


def number(S, n, type_):
    """a limit in 1.2 and in 2.0"""
    if type_ == 'integer':
        i = S.pick(n, range(8))
        return ['0', '-1', '2.0', '12345678901234567', 0, 3, '1.5e2', '-3.0'][i], [0, -1, 2, 12345678901234567, 0, 3, 150, -3][i]
    i = S.pick(n, range(5))
    return ['0', '-0.5', '1e3', 0, 2.5][i], [0.0, -0.5, 1000.0, 0.0, 2.5][i]


def datatype(S, n, models, resource, kinds=('string', 'integer', 'number', 'boolean', 'array', 'ref', 'type'), most=2):
    """fields of a data type and the schema they stand for"""
    kind = S.pick(n + '.kind', kinds)
    src, want = S.mkdict(), S.mkdict()
    if kind == 'ref':
        src['$ref'] = models
        want['$ref'] = ref(resource, models)
    elif kind == 'type':
        src['type'] = models
        want['$ref'] = ref(resource, models)
    else:
        src['type'] = want['type'] = kind
    if kind == 'array':
        of = S.pick(n + '.items', ['string', 'integer', 'ref', 'type'])
        if of == 'ref':
            src['items'], want['items'] = {'$ref': models}, {'$ref': ref(resource, models)}
        elif of == 'type':
            src['items'], want['items'] = {'type': models}, {'$ref': ref(resource, models)}
        else:
            src['items'], want['items'] = {'type': of}, {'type': of}
            if S.flag(n + '.items.format?'):
                src['items']['format'] = want['items']['format'] = text(S, n + '.items.format')
    facets = {'format': lambda: text(S, n + '.format'), 'uniqueItems': lambda: S.bool(n + '.unique'),
              'defaultValue': lambda: S.any(n + '.default', 1, ('str', 'zero', 'false', 'int', 'true')),
              'enum': lambda: [text(S, n + '.enum'), 'b']}
    limits = {}
    if kind in ('integer', 'number'):
        for f in ('minimum', 'maximum'):
            def limit(f=f):
                a, b = number(S, n + '.' + f, kind)
                limits[f] = b
                return a
            facets[f] = limit
    more = S.dict(n, facets, most=most)
    for f in more:
        src[f] = more[f]
        want['default' if f == 'defaultValue' else f] = limits[f] if f in limits else more[f]
    return src, want


@case(dict(name=1, most=1), [dict(name=2, most=1), dict(name=1, most=2)])
def properties(S):
    """properties of a model"""
    resource = '/' + S.str('resource', 1, alpha='a/~')
    model = name(S, 'model')
    prop = name(S, 'prop')
    src, want = datatype(S, 'p', model, resource, most=S.B.most)
    if S.flag('described'):
        src['description'] = want['description'] = text(S, 'desc')
    m = {'id': model, 'properties': S.mkdict([(prop, src), ('other', {'type': 'string'})])}
    got = upgrade([declare(models=S.mkdict([(model, m)]), resource=resource)])
    d = got.definitions
    S.check(len(d) == 1 and ref(resource, model) == jp_compose(list(d.keys())[0], base='#/definitions'),
            'a definition for the model')
    s = read(S, d[list(d.keys())[0]])
    S.check(S.same(list(s), ['properties']), 'nothing is invented for a model', lambda: '%r' % (s, ))
    S.check(S.same(s['properties'], S.mkdict([(prop, want), ('other', {'type': 'string'})])), 'properties are kept',
            lambda: '%r gave %r' % (m, s))


@case(dict(name=1), [dict(name=2)])
def models(S):
    """models of two resources, their own fields and their sub types"""
    r0 = '/' + S.str('resource', 1, alpha='a/~')
    r1 = '/' + S.pick('other', ['a', 'b'])
    same = S.same(r0, r1)
    m0, m1 = name(S, 'model0'), name(S, 'model1')
    S.assume(S.not_(S.same(m0, m1)))
    fields = S.dict('m', {'description': lambda: text(S, 'desc'), 'discriminator': lambda: text(S, 'disc'),
                          'required': lambda: [text(S, 'req'), 'q'][:S.length('req.n', 1, 2)]})
    a = {'id': m0, 'properties': {'x': {'type': 'string'}}}
    for k in fields:
        a[k] = fields[k]
    b = {'id': m1, 'properties': {'y': {'$ref': m0}}}
    sub = S.pick('sub', [None, 'parent first', 'child first', 'empty'])
    if sub:
        a['subTypes'] = [] if sub == 'empty' else [m1]
    order = [(m1, b), (m0, a)] if sub == 'child first' else [(m0, a), (m1, b)]
    third = {'id': 'Z', 'properties': {'z': {'type': 'Z'}}}
    got = upgrade([declare(models=S.mkdict(order), resource=r0),
                   declare(models={'Z': third}, resource=r1)]).definitions
    want = S.mkdict([(k, fields[k]) for k in fields])
    want['properties'] = {'x': {'type': 'string'}}
    child = {'properties': {'y': {'$ref': ref(r0, m0)}}}
    if sub in ('parent first', 'child first'):
        child['allOf'] = [{'$ref': ref(r0, m0)}]
    expected = [(r0, m0, want), (r0, m1, child), (r1, 'Z', {'properties': {'z': {'$ref': ref(r1, 'Z')}}})]
    S.check(len(got) == 3, 'one definition for every model', lambda: '%r' % (list(got.keys()), ))
    for r, m, w in expected:
        k = r[1:] + SEP + m if len(r) > 1 else m
        S.check(k in got, 'definitions are qualified by their resources')
        S.check(S.same(read(S, got[k]), w), 'models are kept', lambda: '%r gave %r' % (w, read(S, got[k])))


@case(dict(), [])
def inheritance(S):
    """any sub types among three models, in any order"""
    ids = ['A', 'B/', 'C~']
    subs, docs = {}, {}
    for i in range(3):
        others = [m for m in ids if m != ids[i]]
        subs[ids[i]] = S.pick('sub%d' % i, [None, others[:1], others[1:], others, others[::-1]])
        docs[ids[i]] = {'id': ids[i], 'properties': {'p%d' % i: {'type': 'string'}}}
        if subs[ids[i]] is not None:
            docs[ids[i]]['subTypes'] = subs[ids[i]]
    order = S.pick('order', [[0, 1, 2], [2, 0, 1], [1, 0, 2]])
    got = upgrade([declare(models=S.mkdict([(ids[i], docs[ids[i]]) for i in order]))]).definitions
    S.check(len(got) == 3, 'one definition for every model', lambda: '%r' % (list(got.keys()), ))
    for i in range(3):
        d = read(S, got['r' + SEP + ids[i]])
        parents = [m for m in ids if ids[i] in (subs[m] or [])]
        have = [x['$ref'] for x in d['allOf']] if 'allOf' in d else []
        S.check(sorted(have) == sorted([ref('/r', m) for m in parents]), 'a reference to every parent',
                lambda: '%s: %r' % (ids[i], have))
        S.check(S.same(d['properties'], {'p%d' % i: {'type': 'string'}}), 'models are kept', lambda: '%r' % (d, ))


@case(dict(), [])
def parameters(S):
    """parameters of every kind"""
    where = S.pick('paramType', ['path', 'query', 'header', 'form', 'body'])
    p = S.dict('p', {'description': lambda: text(S, 'desc'), 'required': lambda: S.bool('required')})
    want = S.mkdict([(k, p[k]) for k in p])
    p['paramType'], p['name'] = where, text(S, 'name')
    want['in'] = 'formData' if where == 'form' else where
    want['name'] = p['name']
    if where == 'body':
        src, schema = datatype(S, 's', 'M', '/r', most=1)
        for k in src:
            p[k] = src[k]
        want['schema'] = schema
    else:
        kinds = ['string', 'integer', 'number', 'boolean', 'array', 'multiple string', 'multiple integer', 'multiple array']
        if where == 'form':
            kinds.append('File')
        kind = S.pick('kind', kinds)
        multiple = kind[:9] == 'multiple '
        type_ = p['type'] = kind[9:] if multiple else kind
        if multiple:
            p['allowMultiple'] = True
        elif S.flag('single'):
            p['allowMultiple'] = False
        target = want
        want['type'] = 'file' if type_ == 'File' else type_
        if type_ == 'array':
            p['items'] = {'type': S.pick('items', ['string', 'integer'])}
            want['items'] = {'type': p['items']['type']}
            if S.flag('format?'):
                p['items']['format'] = want['items']['format'] = text(S, 'format')
            want['collectionFormat'] = 'csv'
        elif multiple:
            want['type'] = 'array'
            want['collectionFormat'] = 'csv'
            target = want['items'] = S.mkdict([('type', type_)])
        facet = S.pick('facet', [None, 'format', 'enum', 'default', 'minimum', 'maximum', 'unique'])
        if facet == 'format' and type_ != 'array':
            p['format'] = target['format'] = text(S, 'format')
        elif facet == 'enum' and type_ != 'array':
            p['enum'] = target['enum'] = [text(S, 'enum'), 'b']
        elif facet == 'default':
            p['defaultValue'] = S.any('default', 1, ('str', 'zero', 'false'))
            want['default'] = [p['defaultValue']] if multiple and type_ != 'array' else p['defaultValue']
        elif facet in ('minimum', 'maximum') and type_ in ('integer', 'number'):
            p[facet], target[facet] = number(S, 'limit', type_)
        elif facet == 'unique' and want['type'] == 'array':
            p['uniqueItems'] = want['uniqueItems'] = S.bool('unique')
    second = {'paramType': 'query', 'name': 'z', 'type': 'string'}
    params = [p, second] if S.pick('order', [0, 1]) == 0 else [second, p]
    got = upgrade([declare([api('/p', operation(parameters=params))],
                           {'M': {'id': 'M', 'properties': {'a': {'type': 'string'}}}})])
    got = got.paths['/p'].get.parameters
    S.check(len(got) == 2, 'as many parameters')
    i = params.index(p) if not S.symbolic else (0 if params[0] is p else 1)
    S.check(S.same(read(S, got[1 - i]), {'in': 'query', 'name': 'z', 'type': 'string'}), 'parameters are kept, in order')
    S.check(S.same(read(S, got[i]), want), 'parameters are kept', lambda: '%r gave %r' % (p, read(S, got[i])))


@case(dict(most=1), [dict(most=2)])
def operations(S):
    """fields of an operation, media types and return type"""
    resource = '/' + S.str('resource', 1, alpha='a/~')
    op = S.dict('op', {'summary': lambda: text(S, 'summary'), 'notes': lambda: text(S, 'notes'),
                       'deprecated': lambda: S.choice('deprecated', ['true', 'false']),
                       'consumes': lambda: [text(S, 'consumes'), 'b'], 'produces': lambda: [text(S, 'produces')],
                       'parameters': list,
                       'responseMessages': lambda: [{'code': 400, 'message': 'no'}]}, most=S.B.most)
    op['method'], op['nickname'] = 'GET', text(S, 'nick')
    returns, schema = S.mkdict([('type', 'void')]), None
    if S.flag('returns'):
        returns, schema = datatype(S, 't', 'M', resource, most=S.B.most - 1)
    for k in returns:
        op[k] = returns[k]
    more = S.dict('decl', {'consumes': lambda: [text(S, 'dc')], 'produces': lambda: [text(S, 'dp'), 'd']}, most=1)
    got = upgrade([declare([api('/p', op)], {'M': {'id': 'M', 'properties': {'a': {'type': 'string'}}}},
                           resource=resource, **dict((k, more[k]) for k in more))])
    o = got.paths['/p'].get
    S.check(S.same(o.operationId, op['nickname']), 'the nickname is kept')
    S.check(S.same(o.summary, op['summary']) if 'summary' in op else o.summary is None, 'the summary is kept')
    S.check(S.same(o.description, op['notes']) if 'notes' in op else o.description is None, 'the notes are kept')
    S.check(S.same(bool(o.deprecated), 'deprecated' in op and S.same(op['deprecated'], 'true')), 'deprecation is kept')
    for k in ('consumes', 'produces'):
        v = op[k] if k in op else more[k] if k in more else []
        w = getattr(o, k)
        S.check(S.same(list(w or []), v), 'media types are kept', lambda: '%r gave %r' % (v, w))
    tags = [resource[1:]] if len(resource) > 1 else []
    S.check(S.same(list(o.tags or []), tags), 'tagged by the resource')
    for t in tags:
        S.check(S.same([x.name for x in got.tags], [t]), 'a tag for the resource')
    S.check(len(o.parameters or []) == 0, 'no parameters are invented')
    S.check(S.same(list(o.responses.keys()), ['default']), 'the return value is the default response')
    r = read(S, o.responses['default'])
    del r['description']
    S.check(S.same(r, S.mkdict() if schema is None else S.mkdict([('schema', schema)])), 'the return type is kept',
            lambda: '%r gave %r' % (returns, r))


@case(dict(name=2), [dict(name=3)])
def paths(S):
    """every operation under its absolute path and method"""
    bases = [(H, H), (H + '/api', H), (H + '/', H + '/a'), (H, 'https://x.y'), (H, 'http://z'), ('/v1', '/v')]
    base = S.pick('bases', bases)
    p = ['/' + S.str('path0', S.B.name, alpha='a/?;'), '/' + S.str('path1', 1, alpha='a/')]
    m0 = S.pick('m0', ['GET', 'put', 'Delete', 'PATCH', 'POST', 'HEAD', 'OPTIONS'])
    two = S.pick('m1', [None, 'POST'])
    # queries and parameters of a path need no second operation
    S.assume(two is None or not S.any_of(['?' in p[0], ';' in p[0]]))
    if two == m0:
        two = 'GET'
    first = [operation(m0, nickname='n0')] + ([operation(two, nickname='n1')] if two else [])
    split = S.flag('split') if two else False
    apis = [api(p[0], first[0]), api(p[0], first[1])] if split else [api(p[0], *first)]
    empty = S.flag('empty')
    if empty:
        apis.append({'path': '/none'})
    decls = [declare(apis, base=base[0], resource='/r0'),
             declare([api(p[1], operation('TRACE' if False else 'GET', nickname='n2'))], base=base[1], resource='/r1')]
    where = [(base[0] + p[0], m0.lower(), 'n0')] + ([(base[0] + p[0], two.lower(), 'n1')] if two else [])
    S.assume(S.not_(S.same(base[0] + p[0], base[1] + p[1])) if 'get' in [w[1] for w in where] else True)
    where.append((base[1] + p[1], 'get', 'n2'))
    got = upgrade(decls)
    S.check(S.same(list(got.schemes), ['http', 'https']), 'schemes')
    host = got.host
    if S.same(base[0][:1], '/'):
        S.check(not host, 'no host is invented')
    found = 0
    for k in got.paths.keys():
        for m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch'):
            if getattr(got.paths[k], m) is not None:
                found += 1
    S.check(found == len(where), 'one operation for every declared operation', lambda: '%r' % (list(got.paths.keys()), ))
    for url, m, nick in where:
        k = url
        if host:
            S.check(S.any_of([S.same(url[:7 + len(host)], 'http://' + host), S.same(url[:8 + len(host)], 'https://' + host)]),
                    'every path is of the host')
            k = url[url.index('://') + 3 + len(host):]
        k = k[len(got.basePath):] if got.basePath else k
        S.check(k in got.paths, 'the absolute path is kept', lambda: '%r not in %r of %r' % (k, list(got.paths.keys()), host))
        o = getattr(got.paths[k], m)
        S.check(o is not None and S.same(o.operationId, nick), 'the method is kept')


@case(dict(name=1), [dict(name=2)])
def authorizations(S):
    """authorizations become security definitions"""
    kind = S.pick('kind', ['basicAuth', 'apiKey', 'implicit', 'code', 'both'])
    n = S.str('name', 2, alpha='a/~')
    a, want = S.mkdict(), S.mkdict()
    flow = None
    if kind == 'basicAuth':
        a['type'], want['type'] = 'basicAuth', 'basic'
    elif kind == 'apiKey':
        a['type'] = want['type'] = 'apiKey'
        a['keyname'] = want['name'] = text(S, 'key')
        a['passAs'] = want['in'] = S.choice('as', ['header', 'query'])
    else:
        a['type'] = want['type'] = 'oauth2'
        g = a['grantTypes'] = S.mkdict()
        if kind != 'code':
            u = S.str('login', 1, 1)
            g['implicit'] = {'loginEndpoint': {'url': u}}
            if S.flag('token name'):
                g['implicit']['tokenName'] = 't'
            want['authorizationUrl'] = u
        if kind != 'implicit':
            u = S.str('token', 1, 1)
            g['authorization_code'] = {'tokenRequestEndpoint': {'url': 'q', 'clientIdName': 'i'}, 'tokenEndpoint': {'url': u}}
            want['tokenUrl'] = u
        ns = S.length('scopes', 0, 2)
        a['scopes'] = []
        if ns:
            want['scopes'] = S.mkdict()
        for i in range(ns):
            k, v = ['a/', 'b'][i], text(S, 'scope%d' % i)
            a['scopes'].append({'scope': k, 'description': v})
            want['scopes'][k] = v
    auths = S.mkdict([(n, a)])
    two = S.flag('two')
    if two:
        auths['second'] = {'type': 'basicAuth'}
    got = upgrade([declare()], authorizations=auths).securityDefinitions
    S.check(len(got) == len(auths) and n in got, 'a security definition for every authorization, under its name')
    have = read(S, got[n])
    if kind in ('implicit', 'code', 'both'):
        flow = have['flow']
        del have['flow']
        S.check(S.same(flow, 'implicit') if kind != 'code' else flow in ('accessCode', 'access_code'), 'the flow')
        if kind == 'code' and 'authorizationUrl' in have:
            S.check(S.same(have['authorizationUrl'], 'q'), 'the url of the authorization code grant')
            del have['authorizationUrl']
    S.check(S.same(have, want), 'the matching security definition', lambda: '%r gave %r' % (a, have))
    if two:
        S.check(S.same(read(S, got['second']), {'type': 'basic'}), 'the matching security definition')


def flat(reqs):
    """names with their scopes"""
    out = []
    for r in reqs or []:
        for k in r.keys():
            out.append((k, list(r[k])))
    return out


@case(dict(name=1), [dict(name=2)])
def security(S):
    """authorizations of operations, else of their declaration"""
    own = S.pick('own', [None, 'none', 'one', 'two'])
    decl = S.pick('decl', [None, 'one'])
    def make(how, n):
        if how == 'none':
            return S.mkdict()
        k = name(S, n)
        scopes = [{'scope': 's', 'description': 'd'}, {'scope': text(S, n + '.scope')}][:S.length(n + '.scopes', 0, 2)]
        return S.mkdict([(k, scopes)] + ([('other', [{'scope': 't'}])] if how == 'two' else []))
    op, more = operation(), {}
    if own:
        op['authorizations'] = make(own, 'own.name')
    if decl:
        more['authorizations'] = make(decl, 'decl.name')
    got = upgrade([declare([api('/p', op, operation('PUT'))], **more)])
    def expect(auths):
        return [(k, [s['scope'] for s in auths[k]]) for k in auths]
    have = flat(got.paths['/p'].get.security)
    src = op['authorizations'] if own else more['authorizations'] if decl else {}
    S.check(S.same([list(x) for x in have], [list(x) for x in expect(src)]), 'the security of an operation',
            lambda: '%r, %r gave %r' % (op, more, have))
    have = flat(got.paths['/p'].put.security)
    S.check(S.same([list(x) for x in have], [list(x) for x in expect(more['authorizations'] if decl else {})]),
            'the security of an operation')
    S.check(len(got.security or []) == 0, 'no security for the whole document')


@case(dict(), [])
def info(S):
    """info, contact, license and tags"""
    listing = S.dict('l', {'apiVersion': lambda: S.str('version', 1),
                           'info': lambda: S.dict('i', dict((k, lambda k=k: S.str(k, 1, 1)) for k in (
                               'termsOfServiceUrl', 'contact', 'license', 'licenseUrl')))})
    if 'info' in listing:
        listing['info']['title'], listing['info']['description'] = S.str('title', 1, 1), S.str('description', 1, 1)
    r1 = S.pick('r1', ['/re', '/a~', '/'])
    got = upgrade([declare(resource='/re'), declare(resource=r1)], **dict((k, listing[k]) for k in listing))
    i = listing['info'] if 'info' in listing else {}
    want = S.mkdict()
    if 'apiVersion' in listing:
        want['version'] = listing['apiVersion']
    for a, b in (('title', 'title'), ('description', 'description'), ('termsOfServiceUrl', 'termsOfService')):
        if a in i:
            want[b] = i[a]
    if 'contact' in i:
        want['contact'] = {'email': i['contact']}
    if 'license' in i or 'licenseUrl' in i:
        want['license'] = S.mkdict([(b, i[a]) for a, b in (('license', 'name'), ('licenseUrl', 'url')) if a in i])
    have = read(S, got.info)
    S.check(S.same(present(S, have), want), 'info is kept', lambda: '%r gave %r' % (listing, have))
    names = [t.name for t in got.tags if t.name]
    S.check(S.same(names, ['re'] + ([r1[1:]] if r1 in ('/a~', ) else [])), 'a tag for every resource')
    S.check(S.same(got.swagger, '2.0'), 'the version is stated')


@case(dict(), [])
def newest(S):
    """migrating to 3.0.0 is the upgrade of the 2.0 document"""
    p = {'paramType': S.pick('in', ['query', 'body', 'form']), 'name': text(S, 'name'),
         'type': S.pick('type', ['string', 'integer'])}
    auth = S.pick('auth', [None, {'type': 'basicAuth'}, {'type': 'apiKey', 'keyname': 'k', 'passAs': 'header'},
                           {'type': 'oauth2', 'scopes': [{'scope': 's', 'description': 'd'}],
                            'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}}}}])
    ret, _ = datatype(S, 't', 'M', '/r', most=1)
    op = operation(parameters=[p], **dict((k, ret[k]) for k in ret))
    more = {'authorizations': {'x': auth}} if auth else {}
    def build():
        return [declare([api('/p', op)], {'M': {'id': 'M', 'properties': {'a': {'$ref': 'M'}}}})]
    new = upgrade(build(), '3.0.0', info={'title': 't', 'description': 'd'}, **more)
    old = upgrade(build(), '2.0', info={'title': 't', 'description': 'd'}, **more)
    S.check(S.same(new.openapi, '3.0.0'), 'a 3.0.0 document')
    app = App({ROOT: old.dump()})
    again = app.migrate_obj(app.load_obj(ROOT), ROOT, '3.0.0')
    S.check(S.same(new.dump(), again.dump()), 'one upgrade after the other',
            lambda: '%r and %r' % (new.dump(), again.dump()))


@case(dict(), [])
def errors(S):
    """what 2.0 can not say is refused"""
    p = {'paramType': S.pick('in', ['path', 'query', 'header', 'form']), 'name': text(S, 'name')}
    bad = S.pick('bad', ['ref', 'ref of items', 'kind of items', 'limits', 'kind of multiple'])
    if bad == 'ref':
        p['$ref'] = 'M'
    elif bad == 'ref of items':
        p['type'], p['items'] = 'array', {'$ref': 'M'}
    elif bad == 'kind of items':
        p['type'], p['items'] = 'array', {'type': 'M'}
    elif bad == 'limits':
        p['type'] = S.pick('type', ['string', 'boolean'])
        p[S.pick('limit', ['minimum', 'maximum'])] = S.choice('value', ['1', '0', '-1', 0, 2])
    else:
        p['type'], p['allowMultiple'] = 'M', True
    S.raises(lambda: upgrade([declare([api('/p', operation(parameters=[p]))],
                                      {'M': {'id': 'M', 'properties': {'a': {'type': 'string'}}}})]),
             SchemaError, 'what 2.0 can not say is refused')


def whole_api(leave):
    """(listing and declarations of 1.2, the 2.0 document) with everything but some of its parts"""
    def w(part, *items):
        return [] if part in leave else list(items)
    listing = dict(w('version', ('apiVersion', '7')) + w('info', ('info', dict(
        [('title', 'T'), ('description', 'D')] + w('terms', ('termsOfServiceUrl', 'u')) + w('contact', ('contact', 'c@d')) +
        w('license', ('license', 'L')) + w('licenseUrl', ('licenseUrl', 'lu'))))) + w('auths', ('authorizations', dict(
            w('auth.k', ('k', {'type': 'apiKey', 'keyname': 'n', 'passAs': 'query'})) +
            w('auth.o', ('o/', {'type': 'oauth2', 'scopes': [{'scope': 's', 'description': 'S'}, {'scope': 't', 'description': ''}],
                                'grantTypes': {'implicit': {'loginEndpoint': {'url': 'lo'}, 'tokenName': 'x'}}})) +
            w('auth.b', ('b', {'type': 'basicAuth'}))))))
    info = {}
    if 'version' not in leave:
        info['version'] = '7'
    if 'info' not in leave:
        info.update(dict([('title', 'T'), ('description', 'D')] + w('terms', ('termsOfService', 'u')) +
                         w('contact', ('contact', {'email': 'c@d'}))))
        lic = dict(w('license', ('name', 'L')) + w('licenseUrl', ('url', 'lu')))
        if lic:
            info['license'] = lic
    secs = {} if 'auths' in leave else dict(
        w('auth.k', ('k', {'type': 'apiKey', 'name': 'n', 'in': 'query'})) +
        w('auth.o', ('o/', {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'lo', 'scopes': {'s': 'S', 't': ''}})) +
        w('auth.b', ('b', {'type': 'basic'})))
    params = (w('p.path', {'paramType': 'path', 'name': 'id', 'required': True, 'type': 'integer', 'format': 'int64', 'minimum': '0',
                           'maximum': '10.0', 'description': 'the id'}) +
              w('p.query', {'paramType': 'query', 'name': 'q', 'type': 'string', 'allowMultiple': True, 'enum': ['a', 'b'],
                            'defaultValue': 'a', 'required': False}) +
              w('p.items', {'paramType': 'header', 'name': 'X', 'type': 'array', 'items': {'type': 'string', 'format': 'f'},
                            'uniqueItems': True}) +
              w('p.body', {'paramType': 'body', 'name': 'body', 'required': True, 'type': 'Pet', 'description': ''}))
    wants = (w('p.path', {'in': 'path', 'name': 'id', 'required': True, 'type': 'integer', 'format': 'int64', 'minimum': 0,
                          'maximum': 10, 'description': 'the id'}) +
             w('p.query', {'in': 'query', 'name': 'q', 'type': 'array', 'collectionFormat': 'csv', 'default': ['a'], 'required': False,
                           'items': {'type': 'string', 'enum': ['a', 'b']}}) +
             w('p.items', {'in': 'header', 'name': 'X', 'type': 'array', 'items': {'type': 'string', 'format': 'f'},
                           'collectionFormat': 'csv', 'uniqueItems': True}) +
             w('p.body', {'in': 'body', 'name': 'body', 'required': True, 'description': '', 'schema': {'$ref': ref('/pet', 'Pet')}}))
    sec = w('op.auth', ('authorizations', {'o/': [{'scope': 't', 'description': ''}, {'scope': 's', 'description': 'S'}]}))
    op = dict(w('op.summary', ('summary', 's')) + w('op.notes', ('notes', 'n')) + w('op.deprecated', ('deprecated', 'true')) +
              w('op.consumes', ('consumes', ['a/b', 'c/d'])) + w('op.produces', ('produces', ['e/f'])) + sec +
              [('method', 'PUT'), ('nickname', 'nick'), ('type', 'array'), ('items', {'$ref': 'Pet'}), ('parameters', params)] +
              w('op.messages', ('responseMessages', [{'code': 404, 'message': 'no', 'responseModel': 'Pet'}])))
    decl = (w('d.consumes', ('consumes', ['d/c'])) + w('d.produces', ('produces', ['d/p', 'd/q'])) +
            w('d.auth', ('authorizations', {'k': []})))
    want = dict(w('op.summary', ('summary', 's')) + w('op.notes', ('description', 'n')))
    want.update({'operationId': 'nick', 'deprecated': 'op.deprecated' not in leave, 'tags': ['pet'], 'parameters': wants,
                 'responses': {'default': {'description': '', 'schema': {'type': 'array', 'items': {'$ref': ref('/pet', 'Pet')}}}}})
    other = {'operationId': 'other', 'deprecated': False, 'tags': ['pet'], 'responses': {'default': {'description': ''}}}
    for k, mine, theirs in (('consumes', ['a/b', 'c/d'], ['d/c']), ('produces', ['e/f'], ['d/p', 'd/q'])):
        if 'd.' + k not in leave:
            want[k] = other[k] = theirs
        if 'op.' + k not in leave:
            want[k] = mine
    if 'd.auth' not in leave:
        want['security'] = other['security'] = [{'k': []}]
    if 'op.auth' not in leave:
        want['security'] = [{'o/': ['t', 's']}]
    pet = dict([('id', 'Pet'), ('properties', dict(
        [('self', {'$ref': 'Pet', 'description': 'me'})] +
        w('m.list', ('list', {'type': 'array', 'items': {'$ref': 'Tag/'}, 'uniqueItems': False, 'description': 'l'})) +
        w('m.num', ('num', {'type': 'number', 'format': 'float', 'minimum': '-1.5', 'maximum': '0', 'defaultValue': 0})) +
        w('m.enum', ('enum', {'type': 'string', 'enum': ['x', ''], 'description': ''}))))] +
        w('m.required', ('required', ['num', 'self'])) + w('m.description', ('description', 'a pet')) +
        w('m.sub', ('subTypes', ['Cat']), ('discriminator', 'enum')))
    defs = {SEP.join(['pet', 'Pet']): dict([('properties', dict(
        [('self', {'$ref': ref('/pet', 'Pet'), 'description': 'me'})] +
        w('m.list', ('list', {'type': 'array', 'items': {'$ref': ref('/pet', 'Tag/')}, 'uniqueItems': False, 'description': 'l'})) +
        w('m.num', ('num', {'type': 'number', 'format': 'float', 'minimum': -1.5, 'maximum': 0.0, 'default': 0})) +
        w('m.enum', ('enum', {'type': 'string', 'enum': ['x', ''], 'description': ''}))))] +
        w('m.required', ('required', ['num', 'self'])) + w('m.description', ('description', 'a pet')) +
        w('m.sub', ('discriminator', 'enum'))),
        SEP.join(['pet', 'Tag/']): {'properties': {'name': {'type': 'string'}}},
        SEP.join(['pet', 'Cat']): dict([('properties', {'purr': {'type': 'boolean'}})] + w('m.sub', ('allOf', [{'$ref': ref('/pet', 'Pet')}]))),
        SEP.join(['s/t', 'Pet']): {'properties': {'p': {'$ref': ref('/s/t', 'Pet')}}}}
    d1 = declare([api('/{id}', op), api('/', operation('GET', nickname='other')), api('/{id}', operation('HEAD', nickname='other', summary='s3', notes='n3', deprecated='true', authorizations={'b': []}))],
                 {'Cat': {'id': 'Cat', 'properties': {'purr': {'type': 'boolean'}}}, 'Pet': pet,
                  'Tag/': {'id': 'Tag/', 'properties': {'name': {'type': 'string'}}}}, resource='/pet', **dict(decl))
    d2 = declare([api('/{id}', operation('POST', nickname='fourth'))],
                 {'Pet': {'id': 'Pet', 'properties': {'p': {'type': 'Pet'}}}}, resource='/s/t', base=H + '/s')
    third = dict(other, summary='s3', description='n3', deprecated=True, security=[{'b': []}])
    fourth = {'operationId': 'fourth', 'deprecated': False, 'tags': ['s/t'], 'responses': {'default': {'description': ''}}}
    new = {'swagger': '2.0', 'schemes': ['http', 'https'], 'host': 'x.y', 'info': info, 'definitions': defs,
           'securityDefinitions': secs, 'tags': [{'name': 'pet'}, {'name': 's/t'}],
           'paths': {'/{id}': {'put': want, 'head': third}, '/': {'get': other}, '/s/{id}': {'post': fourth}}}
    return listing, [d1, d2], new


API_PARTS = ['version', 'info', 'terms', 'contact', 'license', 'licenseUrl', 'auths', 'auth.k', 'auth.o', 'auth.b', 'p.path', 'p.query',
             'p.items', 'p.body', 'op.auth', 'op.summary', 'op.notes', 'op.deprecated', 'op.consumes', 'op.produces', 'op.messages',
             'd.consumes', 'd.produces', 'd.auth', 'm.list', 'm.num', 'm.enum', 'm.required', 'm.description', 'm.sub']


def without_empty(x):
    """empty containers are absent"""
    if isinstance(x, dict):
        out = dict((k, without_empty(x[k])) for k in x)
        return dict((k, out[k]) for k in out if not (isinstance(out[k], (dict, list)) and not out[k]) and out[k] is not None)
    if isinstance(x, list):
        return [without_empty(v) for v in x]
    return x


@case(dict(left=2), [dict(left=3)])
def whole(S):
    """an API with everything but any few of its parts"""
    n, leave, first = S.length('n', 0, S.B.left), [], 0
    for i in range(n):
        S.assume(first < len(API_PARTS))
        k = S.pick('left%d' % i, range(first, len(API_PARTS)))
        leave.append(API_PARTS[k])
        first = k + 1
    listing, decls, want = whole_api(leave)
    new = upgrade(decls, **listing)
    have = without_empty(read(S, new))
    for k in ('basePath', ):
        if not have.get(k):
            have.pop(k, None)
    want = without_empty(want)
    S.check(S.same(have, want), 'the document means the same', lambda: 'without %r: %r, expected %r' % (leave, have, want))
