# -*- coding: utf-8 -*-
"""C17 request bodies of 3.0.0 out of the body, form and file parameters of 2.0."""
from sx.capi import case
from . import up
from .app import migrate, ROOT

ASSUMPTIONS = ['at most `n` form or file parameters per operation, each at the path or the operation, types string, file, '
               'array, nested array, object and none, with symbolic flags, keyword values and names (at most two '
               'characters out of "a", "/", "~")',
               'consumes lists out of the ones listed in the harness, at the operation, the document, both or neither',
               'file parameters are documented under "multipart/form-data" and others under '
               '"application/x-www-form-urlencoded" if no acceptable media type is declared',
               'a form parameter included by reference is either inlined or kept as a reference to its component']
FORM = ('application/x-www-form-urlencoded', 'multipart/form-data')
MIMES = ([], ['application/json'], ['multipart/form-data'], ['text/csv', 'application/x-www-form-urlencoded'],
         ['multipart/form-data', 'application/x-www-form-urlencoded'], ['image/png', 'a/b'],
         ['application/xml', 'text/plain', 'multipart/form-data', 'application/x-www-form-urlencoded', 'a/xml'])
# the media types which can carry a file as their only content
FILE = FORM + ('application/octet-stream', 'application/pdf', 'image/*', 'image/gif', 'image/png', 'image/jpeg', 'image/bmp',
               'image/webp', 'audio/*', 'audio/midi', 'audio/mpeg', 'audio/webm', 'audio/ogg', 'audio/wav', 'video/*',
               'video/webm', 'video/ogg')
OTHERS = ('application/json', 'application/xml', 'text/plain', 'a/b')


def types(param, consumes):
    """the media types a parameter is sent under"""
    if param['in'] == 'body':
        return consumes or ['application/json']
    if 'type' in param and param['type'] == 'file':
        return [c for c in consumes if c in FILE] or [FORM[1]]
    return [c for c in consumes if c in FORM] or [FORM[0]]


def content_type(p):
    t = p.get('type')
    while t == 'array':
        p = p['items'] if 'items' in p else {}
        t = p.get('type')
    return 'application/octet-stream' if t == 'file' else 'application/json' if t == 'object' else 'text/plain'


def expected(S, params, consumes):
    """(required, description, media type -> (properties, required names, encoding or None)); None without parameters"""
    if not params:
        return None
    content = {}
    required = False
    desc = None
    for p in params:
        needed = 'required' in p and bool(p['required'])
        required = required or needed
        for t in types(p, consumes):
            if p['in'] == 'body':
                content[t] = up.schema(S, p['schema'])
                desc = p['description'] if 'description' in p else None
                continue
            props, names, enc = content.setdefault(t, (S.mkdict(), [], S.mkdict()))
            s = up.typed(S, p)
            if 'description' in p:
                s['description'] = p['description']
            if 'type' in p and p['type'] == 'file':
                s['type'], s['format'] = 'string', 'binary'
            if 'allowEmptyValue' in p and bool(p['allowEmptyValue']):
                s['nullable'] = True
            props[p['name']] = s
            if needed:
                names.append(p['name'])
            if t in FORM:
                e = S.mkdict([('contentType', content_type(p))])
                if 'collectionFormat' in p:
                    style, explode = up.STYLES.get((p['collectionFormat'], 'query'), (None, None))
                    if style:
                        e['style'] = style
                    if explode is not None:
                        e['explode'] = explode
                enc[p['name']] = e
    return required, desc, content


def verify(S, got, want):
    """got: a 3.0.0 request body object or None"""
    if want is None:
        S.check(got is None, 'no request body without parameters for it')
        return
    S.check(got is not None, 'a request body for body and form parameters')
    required, desc, content = want
    S.check((got.required is True) == required and got.required in (True, False, None),
            'required exactly if one of its parameters is', lambda: '%r, expected %r' % (got.required, required))
    have = got.content.dump()
    S.check(S.same(got.description, desc), 'the description of the body')
    S.check(len(have) == len(content), 'exactly the acceptable media types',
            lambda: '%r, expected %r' % (list(have), list(content)))
    for t in content:
        S.check(t in have, 'exactly the acceptable media types', lambda: '%r, expected %r' % (list(have), list(content)))
        w = content[t]
        if not isinstance(w, tuple):
            S.check(S.same(have[t]['schema'] if 'schema' in have[t] else {}, w), 'the schema of the body',
                    lambda: '%r, expected %r' % (have[t], w))
            continue
        props, names, enc = w
        s = have[t]['schema']
        S.check('type' not in s or s['type'] == 'object', 'an object')
        rest = S.mkdict([(k, s['properties'][k]) for k in s['properties']] if 'properties' in s else [])
        S.check(S.same(rest, props), 'one property per parameter', lambda: '%r, expected %r' % (rest, props))
        S.check(S.same(sorted_(S, s['required'] if 'required' in s else []), sorted_(S, names)), 'the required names',
                lambda: '%r, expected %r' % (s, names))
        S.check(S.same(have[t]['encoding'] if 'encoding' in have[t] else S.mkdict(), enc), 'the encodings',
                lambda: '%r, expected %r' % (have[t], enc))


def sorted_(S, names):
    """names are distinct: order does not matter"""
    return S.mkdict([(n, True) for n in names])


def doc(paths, **more):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': paths,
         'definitions': {'D': {'type': 'object'}}}
    d.update(more)
    return d


def op(**more):
    d = {'responses': {'200': {'description': ''}}}
    d.update(more)
    return d


def form(S, name, label, kinds=('string', 'file', 'array', 'nested', 'object', None), rich='all'):
    k = S.pick(name + '.type', kinds)
    entries = {'required': lambda: S.bool(name + '.required')} if rich != 'flat' else {}
    if rich == 'all':
        entries.update({'allowEmptyValue': lambda: S.bool(name + '.empty'),
                        'description': lambda: S.str(name + '.desc', 1)})
    if k != 'file' and rich == 'all':
        entries['default'] = lambda: S.any(name + '.default', 1, ('str', 'zero', 'false', 'estr', 'elist', 'list'))
        entries['maximum'] = lambda: S.any(name + '.max', 1, ('zero', 'float'))
        if k == 'array':
            entries['collectionFormat'] = lambda: S.pick(name + '.cf', ['csv', 'ssv', 'tsv', 'pipes', 'multi'])
    p = S.dict(name, entries, most=1)
    p['name'], p['in'] = label, 'formData'
    if k:
        p['type'] = 'array' if k == 'nested' else k
    if k == 'array':
        p['items'] = S.mkdict([('type', S.pick(name + '.of', ['string', 'object']))])
    if k == 'nested':
        p['items'] = {'type': 'array', 'items': {'type': 'object', 'enum': [0]}}
    return p


def consumes(S, both=True, some=False):
    """(of the operation, of the document, effective)"""
    if some:
        m = S.pick('mimes', MIMES[2:4])
        return (m, None, m) if S.pick('consumes', [True, False]) else (None, None, [])
    where = S.pick('consumes', ['operation', 'document', 'both', 'none'] if both else ['operation', 'document', 'none'])
    if where == 'none':
        return None, None, []
    m = S.pick('mimes', MIMES[1:])
    if where == 'operation':
        return m, None, m
    if where == 'document':
        return S.pick('own', [None, []]), m, m
    return m, S.pick('others', [['x/y'], ['multipart/form-data', 'application/x-www-form-urlencoded', 'x/y']]), m


def build(S, path_params, op_params, oc, dc, method='post', **more):
    o = op(parameters=op_params)
    if oc is not None:
        o['consumes'] = oc
    item = {method: o}
    if path_params:
        item['parameters'] = path_params
    d = doc({'/p': item}, **more)
    if dc is not None:
        d['consumes'] = dc
    return d


Q = {'name': 'q', 'in': 'query', 'type': 'string'}


@case(dict(), [])
def body(S):
    """a body parameter"""
    content = S.pick('vary', ['media types', 'content']) == 'content'
    oc, dc, eff = consumes(S, True, content)
    p = S.dict('b', {'required': lambda: S.bool('req'), 'description': lambda: S.str('desc', 1)},
               most=None if content else 1)
    p['name'], p['in'] = S.str('name', 1, alpha='a/~'), 'body'
    kind = S.pick('schema', ['empty', 'ref', 'object']) if content else 'ref'
    p['schema'] = S.mkdict() if kind == 'empty' else S.mkdict([('$ref', '#/definitions/D')]) if kind == 'ref' else \
        S.mkdict([('type', S.choice('t', ['object', 'array', 'string'])), ('title', S.str('title', 1)),
                  ('required', ['x']), ('properties', S.mkdict([(S.str('prop', 1, alpha='a/~'), {'$ref': '#/definitions/D'})]))])
    where = S.pick('where', ['operation', 'path', 'first', 'by reference', 'shared reference'] if content else
                   ['operation', 'path', 'by reference'])
    more = {}
    if where in ('by reference', 'shared reference'):
        more['parameters'] = S.mkdict([(S.str('shared', 1, 1, alpha='a/~'), p)])
        key = [k for k in more['parameters']][0]
        use = S.mkdict([('$ref', '#/parameters/' + key.replace('~', '~0').replace('/', '~1'))])
    else:
        use = p
    at_path = [Q, use] if where == 'path' else [use, Q] if where == 'shared reference' else []
    at_op = [] if at_path else [use, Q] if where == 'first' else [Q, use]
    app, old, new = migrate({ROOT: build(S, at_path, at_op, oc, dc, **more)})
    o = new.paths['/p'].post
    want = expected(S, [p], eff)
    verify(S, o.requestBody, want)
    ps = (new.paths['/p'] if at_path else o).parameters
    S.check(ps is not None and len(ps) == 1 and S.same(ps[0].name, 'q'), 'other parameters stay')
    if more:
        rb = new.components.requestBodies
        S.check(len(rb) == 1 and key in rb, 'a shared request body under the same name')
        verify(S, rb[key], expected(S, [p], []))


@case(dict(n=2), [dict(n=3)])
def forms(S):
    """form and file parameters of path and operation"""
    vary = S.pick('vary', ['media types', 'content', 'names'])
    oc, dc, eff = consumes(S, False, vary != 'media types')
    n = S.B.n
    names = [S.str('name%d' % i, 1, alpha='a/~') if vary == 'names' else str(i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.not_(S.same(names[i], names[j])))
    if vary == 'content':
        rich = S.pick('rich', range(n))
        ps = [form(S, 'f%d' % i, names[i]) if i == rich else form(S, 'f%d' % i, names[i], ('string', ), 'required')
              for i in range(n)]
    else:
        ps = [form(S, 'f%d' % i, names[i], ('file', 'string'), 'required' if vary == 'media types' else 'flat')
              for i in range(n)]
    split = S.pick('split', range(n + 1) if vary == 'names' else [0, n - 1])
    app, old, new = migrate({ROOT: build(S, ps[:split], [Q] + ps[split:], oc, dc)})
    o = new.paths['/p'].post
    verify(S, o.requestBody, expected(S, ps, eff))
    S.check(len(o.parameters) == 1, 'other parameters stay')
    S.check(new.paths['/p'].parameters is None or len(new.paths['/p'].parameters) == 0, 'nothing else is left at the path')


@case(dict(ops=2), [dict(ops=3)])
def operations(S):
    """operations of one path do not share their bodies"""
    shared = S.pick('shared', ['form', 'file', 'form and file', 'body', None])
    at_path = []
    if shared == 'form':
        at_path = [form(S, 's', 's', ('string', 'array'), 'required')]
    elif shared == 'file':
        at_path = [form(S, 's', 's', ('file', ), 'required')]
    elif shared == 'form and file':
        at_path = [form(S, 's', 's', ('string', ), 'flat'), form(S, 't', 't', ('file', ), 'flat')]
    elif shared == 'body':
        at_path = [S.mkdict([('name', 'b'), ('in', 'body'), ('required', S.bool('breq')), ('schema', {'title': 'x'})])]
    item = {'parameters': [Q] + at_path}
    d = doc({'/p': item, '/q': {'post': op(parameters=[form(S, 'other', 'o', ('string', ), 'flat')])}})
    dc = S.pick('document', [None, ['multipart/form-data', 'image/png']])
    if dc:
        d['consumes'] = dc
    wants = {}
    verbs = S.pick('verbs', [('get', 'put', 'patch'), ('options', 'head', 'delete', 'post')])
    for i, m in enumerate(verbs[:S.B.ops]):
        own = S.pick('own%d' % i, ['none', 'string', 'file']) if shared != 'body' else 'none'
        ps = [] if own == 'none' else [form(S, m, 'x', (own, ), 'flat' if i else 'required')]
        oc = S.pick('oc%d' % i, [None, ['application/x-www-form-urlencoded', 'u/v'], ['multipart/form-data']])
        item[m] = op(parameters=ps + [Q] if ps else [])
        if oc:
            item[m]['consumes'] = oc
        wants[m] = expected(S, at_path + ps, oc or dc or [])
    app, old, new = migrate({ROOT: d})
    for m in wants:
        verify(S, getattr(new.paths['/p'], m).requestBody, wants[m])
    verify(S, new.paths['/q'].post.requestBody, expected(S, [d['paths']['/q']['post']['parameters'][0]], dc or []))


@case(dict(), [])
def referenced(S):
    """a form parameter by reference"""
    content = S.flag('content')
    p = form(S, 'f', 'n' if content else S.str('name', 1, alpha='a/~'), ('file', 'array', None) if content else ('string', ), 'all' if content else 'flat')
    key = '~/' if content else S.str('key', 2, 1, alpha='a/~')
    use = S.mkdict([('$ref', '#/parameters/' + key.replace('~', '~0').replace('/', '~1'))])
    own = form(S, 'own', 'own', ('string', ), 'required' if content else 'flat')
    at_path = S.flag('path')
    app, old, new = migrate({ROOT: build(S, [use] if at_path else [], [own] if at_path else [use, own], None, None,
                                         parameters=S.mkdict([(key, p)]))})
    want = expected(S, [p, own], [])
    got = new.paths['/p'].post.requestBody
    inline = want[2][types(p, [])[0]][0]
    name = p['name']
    r = '#/components/requestBodies/' + key.replace('~', '~0').replace('/', '~1')
    have = got.content[types(p, [])[0]].schema.properties[name].dump()
    if '$ref' in have:
        S.check(S.same(have['$ref'], r), 'a reference to the component of that parameter',
                lambda: '%r, expected %r' % (have, r))
        nullable = 'nullable' in inline
        inline[name] = S.mkdict([('$ref', r)])
    else:
        S.check(S.same(have, inline[name]), 'or its content')
    S.check(len(got.content) == len(want[2]), 'exactly the acceptable media types')
    for t in want[2]:
        props, names, enc = want[2][t]
        s = got.content[t].schema
        S.check(len(s.properties) == len(props), 'one property per parameter')
        for k in props:
            S.check(k in s.properties, 'one property per parameter')
        S.check(S.same(sorted_(S, s.required or []), sorted_(S, names)), 'the required names')
        S.check(S.same(got.content[t].encoding.dump(), enc), 'the encodings')
    rb = new.components.requestBodies
    S.check(len(rb) == 1 and key in rb, 'a shared request body under the same name')
    verify(S, rb[key], expected(S, [p], []))


@case(dict(), [])
def rejected(S):
    """several bodies and duplicate names"""
    what = S.pick('what', ['bodies', 'names'])
    a, b = S.str('a', 1, alpha='a/~'), S.str('b', 1, alpha='a/~')
    if what == 'bodies':
        p, q = [S.mkdict([('name', n), ('in', 'body'), ('schema', {'title': n})]) for n in (a, b)]
        bad = True
    else:
        p, q = form(S, 'p', a, ('string', 'file'), 'flat'), form(S, 'q', b, ('string', 'file'), 'flat')
        bad = None
    at_path = S.pick('split', [0, 1, 2])
    S.assume(S.any_of([S.not_(S.same(a, '/')), S.same(b, '/')]))
    oc = S.pick('oc', [None, ['multipart/form-data']])
    ps = [p, q]
    d = build(S, ps[:at_path], ps[at_path:], oc, None)
    r = S.trap(lambda: migrate({ROOT: d}))
    if bad is None:
        bad = S.same(a, b)
        if not oc:
            bad = S.all([bad, p['type'] == q['type']])
        if r[0] == 'err':
            S.check(bad, 'only duplicate names are rejected')
        else:
            S.check(S.not_(bad), 'duplicate names are rejected')
    else:
        S.check(r[0] == 'err', 'several bodies are rejected')


@case(dict(), [])
def combined(S):
    """a form parameter with all keywords, with all but one, and with two of them"""
    k = S.pick('type', ['string', 'array', 'file'])
    every = [f for f in up.KEYWORDS if f != 'type'] + ['description', 'required', 'allowEmptyValue']
    how = S.pick('how', ['all', 'all but one', 'two'])
    keep = every
    if how == 'all but one':
        i = S.pick('i', range(len(every)))
        keep = [f for f in every if f != every[i]]
    elif how == 'two':
        i = S.pick('i', range(len(every) - 1))
        j = S.pick('j', range(i + 1, len(every)))
        keep = [every[i], every[j]]
    if k == 'file':
        keep = [f for f in keep if f != 'format']       # becomes binary
    p = S.mkdict([('name', 'n'), ('in', 'formData'), ('type', k)])
    if k == 'array':
        p['items'] = {'type': 'string'}
        if how == 'all':
            p['collectionFormat'] = S.pick('cf', ['csv', 'ssv', 'pipes', 'multi'])
    falsy = S.flag('falsy') if how == 'all' else True
    for f in keep:
        p[f] = f in ('required', 'allowEmptyValue') if f in ('required', 'allowEmptyValue', 'exclusiveMaximum', 'exclusiveMinimum',
                                                             'uniqueItems') else [] if f == 'enum' else 0 if falsy else 'x'
    oc = S.pick('oc', [None, ['multipart/form-data']])
    at_path = S.flag('path') if how == 'all' else False
    before = [{'name': 'before', 'in': 'formData', 'type': 'string'}] if not at_path and S.flag('before') else []
    app, old, new = migrate({ROOT: build(S, [p] if at_path else [], [Q] if at_path else before + [p, Q], oc, None)})
    verify(S, new.paths['/p'].post.requestBody, expected(S, before + [p], oc or []))


@case(dict(), [])
def media(S):
    """any acceptable media type, for every kind of parameter"""
    m = S.choice('m', list(FILE + OTHERS))
    also = S.pick('also', [None, 'image/webp', 'multipart/form-data', 'text/plain'])
    S.assume(S.not_(S.same(m, also)) if also else True)
    eff = [m] + ([also] if also else [])
    if also and S.flag('reversed'):
        eff = [also, m]
    at_op = S.flag('operation')
    kind = S.pick('kind', ['file', 'string', 'array', 'body', 'file and string'])
    if kind == 'body':
        ps = [{'name': 'b', 'in': 'body', 'schema': {'title': 'x'}}]
    else:
        ps = [S.mkdict([('name', 'f'), ('in', 'formData'), ('type', kind.split()[0])])]
        if kind == 'array':
            ps[0]['items'] = {'type': 'string'}
        if kind == 'file and string':
            ps.append({'name': 'g', 'in': 'formData', 'type': 'string'})
    app, old, new = migrate({ROOT: build(S, [], ps, eff if at_op else None, None if at_op else eff)})
    verify(S, new.paths['/p'].post.requestBody, expected(S, ps, eff))
