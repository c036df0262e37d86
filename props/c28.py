# -*- coding: utf-8 -*-
"""C28 objects loaded ahead of their document."""
import weakref
from sx.capi import case
from . import tables
from .app import App, ROOT
from .gen import Gen
from pyopenapi.migration.spec import Base2, map_, list_
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30

ASSUMPTIONS = ['one or two parts loaded ahead; names are any string of at most `name` characters out of "a", "/", "~", "1", one '
               'may extend the other',
               'known finding: names with "/", "~0", "~1" below the first level, and an empty last one, are decoded again at '
               'every level; such a part may be missed, or take the place of another',
               'parts within parts: the outermost counts; empty maps (callbacks) are not loaded ahead']
MODS = {'2.0': (tables.V20, v20), '3.0.0': (tables.V30, v30)}
ATTR = {'$ref': 'ref', 'allOf': 'all_of', 'additionalProperties': 'additional_properties', 'requestBodies': 'request_bodies'}
OTHER = 'http://h/d/b.json'


def enc(s):
    return s.replace('~', '~0').replace('/', '~1')


def pointer(tokens):
    return '/'.join([enc(t) for t in tokens])


def trouble(tokens):
    """names that are decoded once too often on the way"""
    for i in range(1, len(tokens)):
        t = tokens[i]
        if '/' in t or '~0' in t or '~1' in t:
            return True
    return len(tokens) > 1 and tokens[-1] == ''


def at(root, tokens):
    x = root
    for t in tokens:
        if x is None:
            return None
        if hasattr(x, 'keys'):
            x = x[t] if t in x else None
        elif hasattr(x, '__getitem__'):
            x = x[int(t)] if int(t) < len(x) else None
        else:
            x = getattr(x, ATTR.get(t, t), None)
    return x


def whole(x):
    return x.resolve.__self__ if isinstance(x, weakref.ProxyTypes) else x


def under(a, b):
    """tokens a lie at or below tokens b"""
    return len(a) >= len(b) and all([a[i] == b[i] for i in range(len(b))])


class V(Base2):
    __fields__ = {'x': dict()}


class U(Base2):
    __fields__ = {'x': dict()}
    __children__ = {'a': dict(child_builder=V), 'm': dict(child_builder=map_(V))}


class T(Base2):
    __fields__ = {'x': dict()}
    __children__ = {'a': dict(child_builder=U), 'm': dict(child_builder=map_(U)), 'l': dict(child_builder=list_(U)),
                    'mm': dict(child_builder=map_(map_(U))), 'ml': dict(child_builder=map_(list_(U))),
                    'lm': dict(child_builder=list_(map_(U)))}


def inner(x):
    return {'x': x, 'a': {'x': x + 'a'}, 'm': {'a': {'x': x + 'm'}, '1': {'x': x + '1'}}}


def leaves(root, names):
    """everything in the tree: [(tokens, object)]"""
    out, todo = [], [([], root)]
    while todo:
        tokens, x = todo.pop(0)
        if x is None or isinstance(x, (str, int)):
            continue
        if hasattr(x, 'keys'):
            nxt = [(tokens + [k], x[k]) for k in sorted(x.keys())]
        elif hasattr(x, '__getitem__'):
            nxt = [(tokens + [str(i)], x[i]) for i in range(len(x))]
        else:
            out.append((tokens, x))
            nxt = [(tokens + [k], getattr(x, k)) for k in sorted(type(x).__children__)]
        todo += nxt
    return out


@case(dict(name=2), [dict(name=3)])
def containers(S):
    """overrides in objects, maps, lists and their nestings"""
    n1 = S.str('n1', S.B.name, alpha='a/~1')
    n2 = n1 + S.pick('by', ['/a', 'a', '/', '~1a'])
    spec = {'a': inner('o'), 'm': S.mkdict([(n1, inner('p')), (n2, inner('q'))]), 'l': [inner('r'), inner('s')],
            'mm': S.mkdict([('z', S.mkdict([(n1, inner('t')), (n2, inner('u'))]))]),
            'ml': S.mkdict([(n1, [inner('v'), inner('w')])]), 'lm': [S.mkdict([(n1, inner('y'))])]}
    places = [lambda: ['a'], lambda: ['a', 'a'], lambda: ['m', n1], lambda: ['m', n2], lambda: ['m', n1, 'a'],
              lambda: ['m', n2, 'm', 'a'], lambda: ['l', '1'], lambda: ['l', '0', 'm', '1'], lambda: ['mm', 'z', n1],
              lambda: ['mm', 'z', n2, 'a'], lambda: ['ml', n1, '1'], lambda: ['lm', '0', n1]]
    chosen = []
    i = S.pick('first', range(len(places)))
    chosen.append(places[i]())
    # no such position
    nowhere = S.pick('nowhere', [None, ['m', 'zz'], ['l', '2'], ['b'], ['a', 'b'], ['l', '1', 'm', 'zz']])
    if nowhere is None:
        j = S.pick('second', [None] + [k for k in range(len(places)) if k != i])
        if j is not None:
            chosen.append(places[j]())
            if under(chosen[0], chosen[1]) or under(chosen[1], chosen[0]):
                S.assume(S.flag('nested'))
    overrides, objs = S.mkdict(), []
    for c in chosen:
        o = (V if len(c) > 1 and (c[-1] == 'a' and c[0] != 'm' and len(c) == 2 or len(c) > 3 and c[0] != 'mm' or
                                  c[0] == 'm' and len(c) > 2 or c[0] == 'mm' and len(c) > 3) else U)({'x': 'new%d' % len(objs)})
        objs.append((c, o))
        overrides[pointer(c)] = o
    if nowhere is not None:
        overrides[pointer(nowhere)] = U({'x': 'nowhere'})
    bad = any([trouble(c) for c in chosen])
    kept = S.copy(spec)
    t = S.returns(lambda: T(spec, '#', overrides), 'building does not fail') if not bad else S.trap(lambda: T(spec, '#', overrides))[1]
    if bad and not S.known('encoded-names', isinstance(t, T), 'building does not fail'):
        return
    S.check(S.same(spec, kept), 'the document is unchanged')
    twin = T(S.copy(spec), '#', {})
    outer = [(c, o) for c, o in objs if not any([under(c, d) and d is not c for d, _ in objs])]
    fine = True
    for c, o in outer:
        if not trouble(c):
            S.check(at(t, c) is o or bad, 'the object takes its place', lambda: '%r: %r' % (c, at(t, c)))
            fine = fine and at(t, c) is o
            S.check(o.get_parent() is not None or bad, 'and has a parent')
        else:
            fine = fine and at(t, c) is o
    if bad:
        fine = S.known('encoded-names', fine, 'the object takes its place')
    got, want = leaves(t, None), leaves(twin, None)
    ok = True
    for tokens, x in got:
        mine = [o for c, o in outer if c == tokens]
        if mine:
            ok = ok and x is mine[0]
        elif not any([under(tokens, c) for c, _ in outer]):
            y = at(twin, tokens)
            ok = ok and not any([x is o for o in overrides.values()]) and y is not None and x.x == y.x
    for tokens, x in want:
        if not any([under(tokens, c) for c, _ in outer]):
            ok = ok and at(t, tokens) is not None
    if bad:
        S.known('encoded-names', ok, 'every other part is built from the document')
    else:
        S.check(ok, 'every other part is built from the document', lambda: '%r with %r' % ([(a, b.x) for a, b in got], chosen))


@case(dict(), [])
def strings(S):
    """overrides that reach into strings"""
    kind = S.pick('kind', ['tags', 'scopes', 'enum', 'link'])
    n = S.pick('n', ['0', 'a', '1'])
    deep = S.pick('deep', ['x', 'x/y', ''])
    text = S.str('text', 1)
    over = v30.Schema({})
    if kind == 'tags':
        make = lambda o: v20.Operation({'tags': [text, 'b'], 'responses': {}}, '#', o)
        k, there = 'tags/' + n, n in ('0', '1')
    elif kind == 'scopes':
        make = lambda o: v30.OAuthFlow({'scopes': {'a': text}}, '#', o)
        k, there = 'scopes/' + n, n == 'a'
    elif kind == 'enum':
        make = lambda o: v30.ServerVariable({'enum': [text], 'default': 'x'}, '#', o)
        k, there = 'enum/' + n, n == '0'
    else:
        make = lambda o: v30.Discriminator({'propertyName': 'p', 'mapping': {'a': text}}, '#', o)
        k, there = 'mapping/' + n, n == 'a'
    if there and deep:
        S.raises(lambda: make(S.mkdict([(k + '/' + deep, over)])), Exception, 'a string has nothing to be overridden')
    elif not there:
        S.returns(lambda: make(S.mkdict([(k + ('/' + deep if deep else ''), over)])), 'overrides of nothing are ignored')
    S.returns(lambda: make({}), 'without overrides it is fine')


def parts20(n1, n2):
    """tokens -> (class in 2.0, tokens in 3.0.0, class in 3.0.0)"""
    return [(['definitions', n1], v20.Schema, ['components', 'schemas', n1], v30.Schema),
            (['definitions', n2], v20.Schema, ['components', 'schemas', n2], v30.Schema),
            (['definitions', n1, 'properties', n2], v20.Schema, ['components', 'schemas', n1, 'properties', n2], v30.Schema),
            (['definitions', n2, 'items'], v20.Schema, ['components', 'schemas', n2, 'items'], v30.Schema),
            (['definitions', 'T', 'allOf', '1'], v20.Schema, ['components', 'schemas', 'T', 'allOf', '1'], v30.Schema),
            (['parameters', n1], v20.Parameter, ['components', 'parameters', n1], v30.Parameter),
            (['parameters', n2], v20.Parameter, ['components', 'requestBodies', n2], v30.RequestBody),
            (['responses', n1], v20.Response, ['components', 'responses', n1], v30.Response),
            (['paths', '/p'], v20.PathItem, ['paths', '/p'], v30.PathItem),
            (['paths', 'q'], v20.PathItem, ['paths', 'q'], v30.PathItem),
            (['info'], v20.Info, ['info'], v30.Info),
            (['info', 'license'], v20.License, ['info', 'license'], v30.License)]


def document20(S, n1, n2):
    def sch(t):
        return S.mkdict([('title', t), ('properties', S.mkdict([(n2, {'title': t + 'p'}), ('b', {'title': 'b'})])),
                         ('items', {'title': t + 'i'}), ('allOf', [{}, {'title': t + 'a'}])])
    resp = {'description': 'r'}
    return {'swagger': '2.0', 'info': {'title': 't', 'version': '1', 'license': {'name': 'l'}, 'contact': {'name': 'c'}},
            'definitions': S.mkdict([(n1, sch('x')), (n2, sch('y')), ('T', sch('t'))]),
            'parameters': S.mkdict([(n1, {'name': 'n', 'in': 'query', 'type': 'string'}),
                                    (n2, {'name': 'm', 'in': 'body', 'schema': {'title': 's'}})]),
            'responses': S.mkdict([(n1, resp), (n2, {'description': 'q'})]),
            'paths': {'/p': {'get': {'responses': {'200': resp}}}, 'q': {'put': {'responses': {}, 'parameters': [
                S.mkdict([('$ref', '#/parameters/' + enc(n1))])]}}}}


def parts30(n1, n2):
    c = ['components']
    return [(c + ['schemas', n1], v30.Schema), (c + ['schemas', n2], v30.Schema),
            (c + ['schemas', n1, 'properties', n2], v30.Schema), (c + ['schemas', n2, 'items'], v30.Schema),
            (c + ['schemas', 'T', 'allOf', '1'], v30.Schema), (c + ['parameters', n1], v30.Parameter),
            (c + ['parameters', n1, 'schema'], v30.Schema), (c + ['parameters', n1, 'examples', n2], v30.Example),
            (c + ['responses', n1], v30.Response), (c + ['responses', n1, 'content', 'b'], v30.MediaType),
            (c + ['callbacks', n1], v30.Callback), (c + ['callbacks', n1, 'e'], v30.PathItem),
            (['paths', '/p'], v30.PathItem), (['paths', 'q'], v30.PathItem), (['paths', 'q', 'put'], v30.Operation),
            (['paths', 'q', 'put', 'responses', '200'], v30.Response), (['info'], v30.Info), (c, v30.Components),
            (['servers', '0'], v30.Server), (['tags', '1'], v30.Tag)]


def document30(S, n1, n2):
    def sch(t):
        return S.mkdict([('title', t), ('properties', S.mkdict([(n2, {'title': t + 'p'}), ('b', {'title': 'b'})])),
                         ('items', {'title': t + 'i'}), ('allOf', [{}, {'title': t + 'a'}])])
    return {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'servers': [{'url': 'u'}],
            'tags': [{'name': 'n'}, {'name': 'm'}], 'components': {
                'schemas': S.mkdict([(n1, sch('x')), (n2, sch('y')), ('T', sch('t'))]),
                'parameters': S.mkdict([(n1, {'name': 'n', 'in': 'query', 'schema': {'title': 's'},
                                              'examples': S.mkdict([(n2, {'summary': 'e'})])})]),
                'responses': S.mkdict([(n1, {'description': 'r', 'content': {'b': {'schema': {'title': 'z'}}}}),
                                       (n2, {'description': 'q'})]),
                'callbacks': S.mkdict([(n1, {'e': {'get': {'responses': {}}}})])},
            'paths': {'/p': {'get': {'responses': {}}}, 'q': {'put': {'responses': {'200': {'description': 'd'}}}}}}


def names(S):
    n1 = S.str('n1', S.B.name, alpha='a/~1')
    n2 = n1 + S.pick('by', ['a', '/a', '~1', '/properties'])
    return n1, n2


def read(S, obj):
    t, m = MODS[obj.__swagger_version__]
    return Gen(S, t, m).read(obj)


@case(dict(name=1), [dict(name=2)])
def loaded(S):
    """parts loaded ahead of the document they belong to"""
    version = S.pick('version', ['2.0', '3.0.0'])
    n1, n2 = names(S)
    doc = (document20 if version == '2.0' else document30)(S, n1, n2)
    parts = [(p[0], p[1]) for p in (parts20 if version == '2.0' else parts30)(n1, n2)]
    app, ahead = App({ROOT: doc}), []
    i = S.pick('first', range(len(parts)))
    two = [None] + ([0, 8, 10] if version == '2.0' else [2, 14, 16])
    j = S.pick('second', two)
    S.assume(j != i)
    for k in (i, j):
        if k is not None:
            tokens, cls = parts[k]
            ahead.append((tokens, app.load_obj(ROOT + '#/' + pointer(tokens), parser=cls)))
    far = S.pick('other', [False, True])
    if far:
        # a part of another document, under the same pointer, and one of another version
        app.src.docs[OTHER] = S.copy(doc)
        app.load_obj(OTHER + '#/' + pointer(parts[1][0]), parser=parts[1][1])
    remove = S.pick('remove', [False, True])
    root = S.trap(lambda: app.load_obj(ROOT, remove_dummy=remove))
    bad = any([trouble(c) for c, _ in ahead])
    if not bad or S.known('encoded-names', root[0] == 'ok', 'the document is loaded'):
        S.check(root[0] == 'ok', 'the document is loaded', lambda: '%r' % (root, ))
    else:
        return
    root = root[1]
    verify(S, root, ahead, bad)
    twin = App({ROOT: S.copy(doc)})
    alike = S.same(read(S, root), read(S, twin.load_obj(ROOT)))
    if bad:
        S.known('encoded-names', alike, 'the document says the same')
        return
    S.check(alike, 'the document says the same')
    for c, o in ahead:
        if outermost(c, ahead):
            S.check(whole(app.spec_obj_store.get(ROOT, '#/' + pointer(c), version)) is o, 'found under its pointer')
    S.check(app.migrate_obj(root, ROOT, version) is root, 'the same after normalisation')
    verify(S, root, ahead, False)


def outermost(c, ahead):
    return not any([under(c, d) and d is not c for d, _ in ahead])


def verify(S, root, ahead, bad):
    for c, o in ahead:
        if outermost(c, ahead):
            if bad:
                S.known('encoded-names', at(root, c) is o, 'the object takes its place')
            else:
                S.check(at(root, c) is o, 'the object takes its place', lambda: '%r: %r' % (c, at(root, c)))
    others = [x for t, x in leaves(root, None) if not any([t == c for c, _ in ahead])]
    ok = not any([x is o for x in others for _, o in ahead])
    if bad:
        S.known('encoded-names', ok, 'and no other')
    else:
        S.check(ok, 'and no other')


@case(dict(name=1), [dict(name=2)])
def migrated(S):
    """parts migrated ahead of the document they belong to"""
    n1, n2 = names(S)
    doc = document20(S, n1, n2)
    parts = parts20(n1, n2)
    app, ahead, old = App({ROOT: doc}), [], []
    i = S.pick('first', range(len(parts)))
    j = S.pick('second', [None, 0, 5, 8, 10])
    S.assume(j != i)
    # an empty name of a parameter is not told from the default route
    S.assume(n1 != '')
    when = S.pick('when', ['before loading', 'after loading'])
    # parts with references can only be migrated once the version of the application is known
    S.assume(when == 'after loading' or 9 not in (i, j))
    root = None
    if when == 'after loading':
        root = app.load_obj(ROOT)
    for k in (i, j):
        if k is not None:
            tokens, cls, new, cls3 = parts[k]
            jref = ROOT + '#/' + pointer(tokens)
            o = app.load_obj(jref, parser=cls)
            m = app.migrate_obj(o, jref, '3.0.0')
            S.check(type(m) is cls3, 'the part is migrated')
            old.append((tokens, o))
            ahead.append((new, m))
    if root is None:
        root = S.trap(lambda: app.load_obj(ROOT))
        bad = any([trouble(c) for c, _ in old])
        if not bad or S.known('encoded-names', root[0] == 'ok', 'the document is loaded'):
            S.check(root[0] == 'ok', 'the document is loaded', lambda: '%r' % (root, ))
        else:
            return
        root = root[1]
        verify(S, root, old, bad)
    bad = any([trouble(c) for c, _ in ahead + old])
    got = S.trap(lambda: app.migrate_obj(root, ROOT, '3.0.0'))
    if not bad or S.known('encoded-names', got[0] == 'ok', 'the document is migrated'):
        S.check(got[0] == 'ok', 'the document is migrated', lambda: '%r' % (got, ))
    else:
        return
    verify(S, got[1], ahead, bad)
    if not bad:
        q = got[1].paths['q'].put.parameters[0]
        t = q.get_attrs('migration').ref_obj
        S.check(whole(t) is at(got[1], ['components', 'parameters', n1]), 'references lead to the objects in the document')
        for c, o in old:
            if outermost(c, old):
                x, _ = app.resolve_obj(ROOT + '#/' + pointer(c), '2.0', parser=type(o), to_spec_version='3.0.0')
                S.check(any([whole(x) is m for _, m in ahead]), 'asked for again, the migrated part is given')


@case(dict(name=1), [dict(name=2)])
def nested(S):
    """schemas and info objects migrated on their own have the parts of them migrated ahead in them; the document has all"""
    n1, n2 = names(S)
    S.assume(n1 != '')
    doc = document20(S, n1, n2)
    before = S.copy(doc)
    outer, rest, cls, sub = S.pick('choice', [
        (['definitions', n1], ['properties', n2], v20.Schema, v20.Schema), (['definitions', n2], ['items'], v20.Schema, v20.Schema),
        (['definitions', 'T'], ['allOf', '1'], v20.Schema, v20.Schema), (['info'], ['license'], v20.Info, v20.License)])
    app = App({ROOT: doc})
    when = S.pick('when', ['never', 'first', 'last'])
    root = app.load_obj(ROOT) if when == 'first' else None

    def get(tokens, parser):
        jref = ROOT + '#/' + pointer(tokens)
        return app.migrate_obj(app.load_obj(jref, parser=parser), jref, '3.0.0')
    i = get(outer + rest, sub)
    r = S.trap(lambda: get(outer, cls))
    bad = trouble(['x'] + rest)
    if not bad or S.known('encoded-names', r[0] == 'ok', 'the outer part is migrated'):
        S.check(r[0] == 'ok', 'the outer part is migrated', lambda: '%r' % (r, ))
    else:
        return
    o = r[1]
    if bad and not S.known('encoded-names', at(o, rest) is i, 'the migrated part has the part migrated ahead in it'):
        return
    S.check(at(o, rest) is i, 'the migrated part has the part migrated ahead in it', lambda: '%r, expected %r' % (at(o, rest), i))
    S.check(S.same(doc, before), 'the source is unchanged')
    if bad or trouble(outer + rest) or when == 'never':
        return
    if when == 'last':
        root = app.load_obj(ROOT)
    new = app.migrate_obj(root, ROOT, '3.0.0')
    moved = ['components', 'schemas'] + outer[1:] if outer[0] == 'definitions' else outer
    if trouble(moved + rest) and not S.known('encoded-names', at(new, moved) is o, 'the migrated document has them in it'):
        return
    S.check(at(new, moved) is o and at(new, moved + rest) is i, 'the migrated document has them in it',
            lambda: '%r %r' % (at(new, moved), at(new, moved + rest)))
