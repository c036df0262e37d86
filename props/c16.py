# -*- coding: utf-8 -*-
"""C16 non-body parameters and headers from 2.0 to 3.0.0."""
from sx.capi import case
from . import up
from .app import migrate, ROOT

ASSUMPTIONS = ['parameters and headers with at most `most` optional keywords next to one with all of them, items nested '
               '`depth` levels; keyword values of every JSON kind, falsy ones included',
               'types string, integer, array, boolean, number or none; names any string of at most `name` characters '
               'out of "/", "~", "a", "$"',
               'a default style may be stated or left out; an empty schema may be left out; "multi" outside of a query '
               'is either rejected or has no style, other illegal formats are rejected']
FORMATS = (None, 'csv', 'ssv', 'tsv', 'pipes', 'multi')
BOOLS = ('exclusiveMaximum', 'exclusiveMinimum', 'uniqueItems')
DEFAULT = {'query': 'form', 'path': 'simple', 'header': 'simple'}


def leaf(S, name, f):
    if f in BOOLS or f in ('required', 'allowEmptyValue'):
        return S.bool(name)
    if f == 'enum':
        return S.any(name, 1, ('elist', 'list', 'list2'))
    if f == 'type':
        return S.choice(name, ['string', 'integer', 'number', 'boolean'])
    return S.any(name, 1, ('str', 'zero', 'int', 'float', 'false', 'true', 'estr', 'elist', 'edict'))


def typed(S, name, most, depth, every, more=()):
    """the keywords of a parameter, header or its items"""
    entries = {}
    for f in up.KEYWORDS + list(more):
        entries[f] = lambda f=f: leaf(S, '%s.%s' % (name, f), f)
    if depth:
        entries['items'] = lambda: S.dict(name + '.i', dict(
            [(f, lambda f=f: leaf(S, '%s.i.%s' % (name, f), f)) for f in up.KEYWORDS] +
            ([('items', lambda: typed(S, name + '.i.i', 1, depth - 2, False))] if depth > 1 else [])), most=most)
    if every:
        return S.mkdict([(k, entries[k]()) for k in entries])
    return S.dict(name, entries, most=most)


def check(S, got, spec, in_, fmt, label):
    """got: dump of a 3.0.0 parameter or header"""
    want = S.mkdict([(k, spec[k]) for k in ('name', 'in', 'description', 'required', 'allowEmptyValue') if k in spec])
    schema = prune(S, up.typed(S, spec)) or {}
    style, explode = got.get('style'), got.get('explode')
    rest = S.mkdict([(k, got[k]) for k in got if k not in ('style', 'explode', 'schema')])
    S.check(S.same(rest, want), label + ' keeps its own keywords', lambda: '%r gave %r' % (spec, got))
    gs = prune(S, got['schema']) or {} if 'schema' in got else {}
    S.check(S.same(gs, schema), label + ' has its type keywords in the schema',
            lambda: '%r gave %r, expected %r' % (spec, gs, schema))
    if fmt is None:
        S.check(S.all([style is None, explode is None]), 'no style is invented', lambda: '%r gave %r' % (spec, got))
        return
    s, e = up.STYLES.get((fmt, in_), (None, None))
    S.check(style == s or (style is None and s == DEFAULT[in_]), 'the equivalent style',
            lambda: '%r gave %r, expected %r' % (spec, got, s))
    S.check(explode is e or explode is (s == 'form') or (s is None and explode is None) or
            (e is None and s != 'form' and explode is False),
            'the equivalent setting of explode', lambda: '%r gave %r, expected %r' % (spec, got, e))
    if s == 'form' and fmt == 'csv':
        S.check(explode is False, 'values separated by commas are not exploded')
    if fmt == 'multi' and in_ == 'query':
        S.check(explode is not False, 'values given several times are exploded')


def prune(S, s):
    """empty items may go"""
    out = S.mkdict()
    for k in s:
        if k == 'items':
            v = prune(S, s[k])
            if v is not None:
                out[k] = v
        else:
            out[k] = s[k]
    return out if len(out) else None


def illegal(fmt, in_, type_):
    return fmt in ('ssv', 'pipes') and (in_ != 'query' or type_ != 'array')


def place(S, spec, where):
    doc = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}}
    op = {'responses': {'200': {'description': ''}}}
    item = {'get': op}
    if where == 'operation':
        op['parameters'] = [{'name': 'o', 'in': 'query', 'type': 'string'}, spec]
    elif where == 'path':
        item['parameters'] = [spec]
    elif where == 'shared':
        doc['parameters'] = {'a/b~': spec}
    else:
        op['responses']['200']['headers'] = {'X-~/': spec}
    doc['paths'] = {'/p': item}
    return doc


def found(new, where):
    if where == 'operation':
        p = new.paths['/p'].get.parameters
        return p[1] if len(p) == 2 else None
    if where == 'path':
        p = new.paths['/p'].parameters
        return p[0] if p and len(p) == 1 else None
    if where == 'shared':
        return new.components.parameters['a/b~']
    return new.paths['/p'].get.responses['200'].headers['X-~/']


@case(dict(most=1, depth=2, name=1), [dict(most=2, depth=1, name=1), dict(most=1, depth=3, name=2)])
def parameters(S):
    """keywords in the schema, the rest in the parameter"""
    in_ = S.choice('in', ['query', 'path', 'header'])
    every = S.pick('all', [False, True])
    spec = typed(S, 'p', S.B.most, S.B.depth, every, ('description', 'required', 'allowEmptyValue'))
    spec['name'], spec['in'] = S.str('name', S.B.name, alpha='a/~$'), in_
    where = S.pick('where', ['operation', 'path', 'shared'])
    app, old, new = migrate({ROOT: place(S, spec, where)})
    got = found(new, where)
    S.check(got is not None, 'a parameter for every parameter')
    check(S, got.dump(), spec, in_, None, 'a parameter')


@case(dict(most=1, depth=2), [dict(most=2, depth=2), dict(most=1, depth=3)])
def headers(S):
    """keywords in the schema, the rest in the header"""
    every = S.pick('all', [False, True])
    spec = typed(S, 'h', S.B.most, S.B.depth, every, ('description', ))
    app, old, new = migrate({ROOT: place(S, spec, 'header')})
    got = new.paths['/p'].get.responses['200'].headers
    if len(spec) == 0 and (got is None or len(got) == 0):
        return
    S.check(len(got) == 1, 'a header for every header')
    check(S, got['X-~/'].dump(), spec, 'header', None, 'a header')


@case(dict(most=1), [dict(most=2)])
def formats(S):
    """collection formats by location and type"""
    in_ = S.pick('in', ['query', 'path', 'header', None])
    fmt, type_ = S.pick('format', FORMATS), S.pick('type', ['array', 'string', None])
    spec = S.dict('p', {'description': lambda: S.str('d', 1), 'required': lambda: S.bool('r'),
                        'allowEmptyValue': lambda: S.bool('e'), 'minItems': lambda: S.int('m', [0, 1]),
                        'items': lambda: S.mkdict([('type', 'string'), ('collectionFormat', S.choice('n', FORMATS[1:]))])},
                  most=S.B.most)
    for k in ('required', 'allowEmptyValue'):
        if in_ is None and k in spec:
            del spec[k]
    if type_:
        spec['type'] = type_
    if fmt:
        spec['collectionFormat'] = fmt
    where = 'header'
    if in_:
        spec['name'], spec['in'] = 'n', in_
        where = S.pick('where', ['operation', 'path', 'shared'])
    in_ = in_ or 'header'
    doc = place(S, spec, where)
    if illegal(fmt, in_, type_):
        S.raises(lambda: migrate({ROOT: doc}), Exception, 'a format illegal for its location is rejected')
        return
    if fmt == 'multi' and in_ != 'query':
        r = S.trap(lambda: migrate({ROOT: doc}))
        if r[0] == 'err':
            return
        new = r[1][2]
    else:
        new = S.returns(lambda: migrate({ROOT: doc}), 'a legal format is accepted')[2]
    if where == 'header' and len(spec) == 0:
        return
    check(S, found(new, where).dump(), spec, in_, fmt, 'a parameter')


@case(dict(n=3), [dict(n=4)])
def many(S):
    """the order of parameters is kept, each with its own content"""
    n = S.length('n', 0, S.B.n)
    kinds = [S.pick('kind%d' % i, ['query', 'header', 'multi', 'path', 'query csv', 'header csv', 'path csv']) for i in range(n)]
    specs = []
    for i, k in enumerate(kinds):
        s = S.mkdict([('name', S.str('name%d' % i, 1, 1, alpha='ab')), ('in', k.split(' ')[0] if k != 'multi' else 'query'),
                      ('type', 'array')])
        if k == 'multi':
            s['collectionFormat'] = 'multi'
        if ' ' in k:
            s['collectionFormat'] = 'csv'
        if k[:4] == 'path':
            s['required'] = True
        s['items'] = S.mkdict([('default', S.any('v%d' % i, 1, ('zero', 'str', 'false')))])
        specs.append(s)
    where = S.pick('where', ['operation', 'path', 'shared'])
    doc = place(S, {'name': 'x', 'in': 'query', 'type': 'string'}, 'operation')
    if where == 'operation':
        doc['paths']['/p']['get']['parameters'] = specs
    elif where == 'path':
        doc['paths']['/p']['parameters'] = specs
    else:
        doc['parameters'] = S.mkdict([(str(i), s) for i, s in enumerate(specs)])
    app, old, new = migrate({ROOT: doc})
    if where == 'shared':
        got = new.components.parameters if new.components else None
        got = [] if got is None else [got[str(i)] for i in range(len(got))]
    else:
        got = (new.paths['/p'].get if where == 'operation' else new.paths['/p']).parameters
        got = [] if got is None else [x for x in got]
    S.check(len(got) == n, 'as many parameters')
    for i in range(n):
        check(S, got[i].dump(), specs[i], specs[i]['in'], specs[i].get('collectionFormat'), 'a parameter')


def array(S, name, depth):
    """arrays of arrays down to some depth, each level with a keyword of its own"""
    s = S.mkdict([('type', 'array'), (S.pick(name + '.k', ['minItems', 'default']), 0)])
    if depth:
        s['items'] = array(S, name + 'i', depth - 1)
    return s


@case(dict(depth=3), [dict(depth=5)])
def arrays(S):
    """arrays of arrays"""
    where = S.pick('where', ['operation', 'path', 'shared', 'header'])
    spec = array(S, 'a', S.length('depth', 1, S.B.depth))
    if where != 'header':
        spec['name'], spec['in'] = 'n', 'query'
    app, old, new = migrate({ROOT: place(S, spec, where)})
    check(S, found(new, where).dump(), spec, spec['in'] if where != 'header' else 'header', None, 'a parameter')


@case(dict(), [])
def pairs(S):
    """any two keywords together, and all but any one"""
    header = S.pick('header', [False, True])
    every = up.KEYWORDS + ['items', 'description'] + ([] if header else ['required', 'allowEmptyValue'])
    if S.pick('how', ['two', 'all but one']) == 'two':
        i = S.pick('i', range(len(every) - 1))
        j = S.pick('j', range(i + 1, len(every)))
        keep = [every[i], every[j]]
    else:
        i = S.pick('i', range(len(every)))
        keep = [f for f in every if f != every[i]]
    spec = S.mkdict()
    for f in keep:
        if f == 'items':
            spec[f] = S.mkdict([('type', 'string'), ('default', S.any('items', 1, ('zero', 'str')))])
        else:
            spec[f] = leaf(S, f, f) if len(keep) < 3 and f in ('required', 'type', 'default') else \
                False if f in BOOLS + ('required', 'allowEmptyValue') else 'string' if f == 'type' else [] if f == 'enum' else 0
    where = 'header'
    if not header:
        spec['name'], spec['in'] = 'n', S.choice('in', ['query', 'path', 'header'])
        where = 'operation'
    app, old, new = migrate({ROOT: place(S, spec, where)})
    check(S, found(new, where).dump(), spec, 'header' if header else spec['in'], None, 'a parameter')
