# -*- coding: utf-8 -*-
"""C22 merging of path items."""
from sx.capi import case
from . import tables
from .app import App, ROOT
from .gen import Gen
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v2_0.attrs import PathItemAttributeGroup as A20
from pyopenapi.migration.versions.v3_0_0 import objects as v30
from pyopenapi.migration.versions.v3_0_0.attrs import PathItemAttributeGroup as A30

ASSUMPTIONS = ['three path items with any references among them; every operation and parameter list of a path item is '
               'present or absent, an empty list of parameters counts as absent',
               'names of paths are any string of at most `name` characters out of "a", "/", "~", "{"',
               'other fields of a path item (summary, description) are not merged and not claimed']
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
OTHER = 'http://h/d/b.json'


def doc(version, paths):
    d = {'swagger': '2.0'} if version == '2.0' else {'openapi': '3.0.0'}
    d['info'], d['paths'] = {'title': 't', 'version': '1'}, paths
    return d


def part(S, n, key, version, to):
    """content of one entry, as declared and as it will be read"""
    if key == 'parameters':
        p = S.mkdict([('name', S.str(n, 1)), ('in', 'query')])
        q = S.mkdict([('name', p['name']), ('in', 'query')])
        schema = {'type': 'string'}
        if version == '2.0':
            p['type'] = 'string'
        else:
            p['schema'] = schema
        if to == '2.0':
            q['type'] = 'string'
        else:
            q['schema'] = schema
        return [p], [q]
    if key == 'servers':
        s = [{'url': S.str(n, 1)}]
        return s, s
    o = S.mkdict([('operationId', S.str(n, 1)), ('responses', {})])
    return o, S.mkdict([('operationId', o['operationId'])])


def migrate(docs, to):
    app = App(docs)
    return app.migrate_obj(app.load_obj(ROOT), ROOT, to), app


def read(S, obj, to):
    g = Gen(S, tables.V20 if to == '2.0' else tables.V30, v20 if to == '2.0' else v30)
    out = S.mkdict()
    for k in METHODS + (('trace', 'servers') if to != '2.0' else ()) + ('parameters', ):
        v = getattr(obj, k)
        if v is None or k in ('servers', 'parameters') and not len(v):
            continue
        v = g.read_child(v)
        if k not in ('servers', 'parameters') and 'responses' in v:
            del v['responses']
        out[k] = v
    return out


def final(obj, to):
    return getattr(obj.get_attrs('migration', A20 if to == '2.0' else A30), 'final_obj', None)


def expected(S, items, refs, i):
    out, seen = S.mkdict(), []
    while i is not None and i not in seen:
        seen.append(i)
        for k in items[i]:
            if k not in out:
                out[k] = items[i][k]
        i = refs[i]
    return out


def verify(S, got, names, want, refs, to, which):
    """got[j]: paths of document j; which[i]: the document of item i"""
    for i in range(len(names)):
        p = got[which[i]][names[i]]
        S.check(S.same(read(S, p, to), want[i]), 'path items keep their own content',
                lambda: '%r, expected %r' % (read(S, p, to), want[i]))
        f = final(p, to)
        if refs[i] is None:
            S.check(f is None or S.same(read(S, f, to), want[i]), 'nothing is merged without a reference')
        else:
            w = expected(S, want, refs, i)
            S.check(f is not None and S.same(read(S, f, to), w), 'the merged path item',
                    lambda: '%r, expected %r, of %r with %r' % (f and read(S, f, to), w, want, refs))


def enc(s):
    return s.replace('~', '~0').replace('/', '~1')


@case(dict(name=1), [dict(name=2)])
def graphs(S):
    """all references among three path items of one document"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    names = ['/' + S.str('path', S.B.name, alpha='a/~{'), '/b', '/c']
    items, want = [], []
    refs = [S.pick('ref0', [1, 2]), S.pick('ref1', [None, 0, 1, 2]), S.pick('ref2', [None, 0, 2])]
    for i in range(3):
        src, w = S.mkdict(), S.mkdict()
        for k in S.pick('keys%d' % i, [(), ('get', ), ('parameters', ), ('get', 'parameters')]):
            src[k], w[k] = part(S, 'i%d.%s' % (i, k), k, version, to)
        if refs[i] is not None:
            src['$ref'] = '#/paths/' + enc(names[refs[i]])
        items.append(src)
        want.append(w)
    paths = S.mkdict([(names[i], items[i]) for i in range(3)])
    got, app = migrate({ROOT: doc(version, paths)}, to)
    verify(S, [got.paths], names, want, refs, to, [0, 0, 0])


@case(dict(), [])
def methods(S):
    """every method and list, near and far"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    keys = METHODS + ('parameters', )
    if version == '3.0.0':
        keys += ('trace', 'servers')
    names = ['/a', '/b', '/c']
    near, far = S.pick('near', [None, 'others'] + list(keys)), S.pick('far', keys)
    sets = [tuple(k for k in keys if k != far) if near == 'others' else (near, ) if near else (), (far, ),
            keys if S.flag('all') else ('patch', )]
    if near == 'others' and S.flag('farther'):
        sets = [sets[0], (), (far, )]
    said = ('summary', 'description') if version == '3.0.0' and S.flag('said') else ()
    items, want = [], []
    for i in range(3):
        src, w = S.mkdict(), S.mkdict()
        for k in sets[i]:
            src[k], w[k] = part(S, 'i%d.%s' % (i, k), k, version, to)
        for k in said:
            src[k] = 's%d' % i
        if i < 2:
            src['$ref'] = '#/paths/' + enc(names[i + 1])
        items.append(src)
        want.append(w)
    order = S.pick('order', [(0, 1, 2), (2, 1, 0)])
    got, app = migrate({ROOT: doc(version, S.mkdict([(names[i], items[i]) for i in order]))}, to)
    verify(S, [got.paths], names, want, [1, 2, None], to, [0, 0, 0])


@case(dict(name=1), [dict(name=2)])
def documents(S):
    """references into another document and back"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    whole = S.flag('versioned') if version == '2.0' or True else True
    names = ['/' + S.str('path', S.B.name, alpha='a/~'), '/b', '/c']
    refs = [1, S.pick('ref1', [None, 0, 1, 2]), S.pick('ref2', [None, 0, 1])]
    which = [0, 1, S.pick('which2', [0, 1])]
    items, want = [], []
    for i in range(3):
        src, w = S.mkdict(), S.mkdict()
        for k in S.pick('keys%d' % i, [('get', ), ('put', 'parameters')] if i else [(), ('get', ), ('parameters', )]):
            src[k], w[k] = part(S, 'i%d.%s' % (i, k), k, version, to)
        if refs[i] is not None:
            j = refs[i]
            here = ['', 'b.json', 'a.json', ''][which[i] * 2 + which[j]]
            src['$ref'] = here + '#/paths/' + enc(names[j])
        items.append(src)
        want.append(w)
    docs = {}
    for j, u in enumerate((ROOT, OTHER)):
        paths = S.mkdict([(names[i], items[i]) for i in range(3) if which[i] == j])
        docs[u] = doc(version, paths) if j == 0 or whole else S.mkdict([('paths', paths)])
    got, app = migrate(docs, to)
    p = got.paths[names[0]]
    S.check(S.same(read(S, p, to), want[0]), 'path items keep their own content')
    f, w = final(p, to), expected(S, want, refs, 0)
    S.check(f is not None and S.same(read(S, f, to), w), 'the merged path item',
            lambda: '%r, expected %r, of %r with %r' % (f and read(S, f, to), w, want, refs))
    cur, seen = 0, []
    while cur is not None and cur not in seen:
        seen.append(cur)
        parser = v20.PathItem if version == '2.0' else v30.PathItem
        obj, _ = app.resolve_obj((ROOT, OTHER)[which[cur]] + '#/paths/' + enc(names[cur]), version,
                                 parser=parser, to_spec_version=to)
        S.check(S.same(read(S, obj, to), want[cur]), 'path items keep their own content')
        cur = refs[cur]
