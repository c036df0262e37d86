# -*- coding: utf-8 -*-
"""C09 addresses, walks and parents."""
from sx.capi import case
from pyopenapi.migration.scan import Dispatcher, Scanner, scan
from pyopenapi.migration.spec.obj import Base2Obj
from pyopenapi.migration.versions.v1_2 import objects as v12
from pyopenapi.migration.versions.v2_0 import objects as v20
from pyopenapi.migration.versions.v3_0_0 import objects as v30
from pyopenapi.utils import jp_split
from . import tables
from .gen import Gen

ASSUMPTIONS = ['trees have one expanded branch at a time, down to `depth`; names in maps are any string of at most '
               '`name` characters out of "/", "~", "0", "1" and "a", next to the name "~1"',
               'edits: histories of at most `steps` attachments, appends, insertions and assignments interleaved with '
               'walks']
MODS = {'1.2': (tables.V12, v12), '2.0': (tables.V20, v20), '3.0.0': (tables.V30, v30)}


def classes(mod):
    out = []
    for n in sorted(vars(mod)):
        c = vars(mod)[n]
        if isinstance(c, type) and issubclass(c, Base2Obj):
            out.append(c)
    return out


EVERY = classes(v12) + classes(v20) + classes(v30)


class Rec(object):
    """records every visit; `twice` sees schemas, parameters and operations again"""

    class Disp(Dispatcher):
        pass

    def __init__(self):
        self.seen, self.again, self.results = [], [], []

    @Disp.register(EVERY)
    def every(self, path, obj, *app):
        self.seen.append((path, obj))
        return 'every'

    @Disp.register([v20.Schema, v30.Schema, v20.Operation, v30.Operation, v12.Operation])
    def some(self, path, obj, *app):
        self.again.append((path, obj))
        return 'some'

    @Disp.result
    def result(self, x):
        self.results.append(x)


class Base(object):
    class Disp(Dispatcher):
        pass

    def __init__(self):
        self.seen = []

    @Disp.register([v20.BaseSchema])
    def schema(self, path, obj, app):
        self.seen.append(obj)


def walk(obj, table, tokens, out, nested=False):
    """(tokens, object, below a container within a container) of every object of a tree, by the kinds of the
    specification"""
    out.append((tokens, obj, nested))
    k = table[type(obj).__name__]
    for c in k.children:
        v = getattr(obj, c)
        if v is not None:
            into(v, table, tokens + [c], out, nested, False)


def into(v, table, tokens, out, nested, inside):
    if isinstance(v, Base2Obj):
        walk(v, table, tokens, out, nested)
    elif hasattr(v, 'keys'):
        for n in v.keys():
            into(v[n], table, tokens + [n], out, nested or inside, True)
    elif hasattr(v, 'append'):
        for i in range(len(v)):
            into(v[i], table, tokens + [str(i)], out, nested or inside, True)


def check(S, root, table, paths=True, stale=False, moved=False):
    """`stale`: a container changed after a walk; `moved`: objects were put into containers"""
    want = []
    walk(root, table, [], want)
    r = Rec()
    scan(route=[r], root=root)
    if stale:
        gone = len([1 for _, o in r.seen if not len([1 for w in want if w[1] is o])])
        if not S.known('stale-children', len(r.seen) == len(want) and not gone, 'every object is visited exactly once'):
            return
    S.check(len(r.seen) == len(want), 'every object is visited exactly once',
            lambda: '%d visits, %d objects' % (len(r.seen), len(want)))
    some = [o for o in want if type(o[1]).__name__ in ('Schema', 'Operation')]
    S.check(len(r.again) == len(some), 'a second handler of a kind runs once per object of that kind')
    S.check(len(r.results) == len(want) + len(some), 'every result is handed on')
    for i in range(len(r.seen)):
        path, obj = r.seen[i]
        for j in range(i):
            S.check(r.seen[j][1] is not obj, 'no object is visited twice')
        at = [(t, n) for t, o, n in want if o is obj]
        S.check(len(at) == 1, 'only objects of the tree are visited')
        tokens, nested = at[0]
        S.check(path[:1] == '#', 'paths start at the root')
        if not nested or S.known('nested-container-pointer', S.same(jp_split(path)[1:], tokens),
                                 'the pointer of a visit is the position of the object'):
            S.check(S.same(jp_split(path)[1:], tokens), 'the pointer of a visit is the position of the object',
                    lambda: '%r at %r' % (path, tokens))
            got = S.returns(lambda: root.resolve(jp_split(path)[1:]), 'the pointer of a visit resolves')
            S.check(got is obj, 'the pointer of a visit leads back to the object', lambda: '%r' % (path, ))
        if paths:
            S.check(S.same(jp_split(obj.get_path())[1:], tokens) and obj.get_path()[:1] == '#',
                    'the recorded path agrees with the position', lambda: '%r at %r' % (obj.get_path(), path))
        if tokens:
            up = root.resolve(tokens[:-1])
            if not moved or S.known('parent-of-added', obj.get_parent() is up,
                                    'the recorded parent agrees with the position'):
                S.check(obj.get_parent() is up, 'the recorded parent agrees with the position')


@case(dict(depth=3, name=2), [dict(depth=4, name=2), dict(depth=3, name=3)])
def positions(S):
    """every object of a tree is visited once under the pointer that leads to it"""
    version, kind = S.pick('kind', [('2.0', 'Swagger'), ('3.0.0', 'OpenApi'), ('1.2', 'ApiDeclaration'),
                                    ('1.2', 'ResourceListing')])
    table, mod = MODS[version]
    a, b = S.str('name0', S.B.name, alpha='a/~01'), '~1'
    S.assume(S.not_(S.same(a, b)))
    g = Gen(S, table, mod, 1, keys=(a, b))
    g.leaf = lambda name: 'leaf'
    root = getattr(mod, kind)(g.obj(kind, 'doc', S.B.depth), '#', {})
    check(S, root, table)


@case(dict(), [])
def everything(S):
    """objects with all their parts, and scanners with handlers for a base class"""
    version, kind = S.pick('kind', [(v, k) for v in sorted(MODS) for k in sorted(MODS[v][0])])
    table, mod = MODS[version]
    g = Gen(S, table, mod, 1, keys=(S.str('name0', 2, 2, alpha='a/~'), ))
    g.leaf = lambda name: 'leaf'
    root = getattr(mod, kind)(g.plain(kind, 'obj', 3, True), '#', {})
    check(S, root, table)
    r, b = Rec(), Base()
    Scanner(None).scan(route=[r, b], root=root)
    want = []
    walk(root, table, [], want)
    direct = [o for o in EVERY]
    n = sum(len([c for c in type(o).__mro__ if c in direct]) for _, o, _ in want)
    S.check(len(r.seen) == n, 'a scanner runs the handlers of an object kind and of its base kinds')
    S.check(len(b.seen) == len([o for _, o, _ in want if isinstance(o, v20.BaseSchema)]), 'handlers of a base kind')


@case(dict(), [])
def leaves(S):
    """kinds named as leaves are visited but not entered"""
    spec = {'paths': {'/a': {'get': {'responses': {'200': {'description': ''}}},
                             'parameters': [{'name': 'x', 'in': 'query', 'type': 'string'}]}}}
    root = v20.Swagger(spec, '#', {})
    stop = S.pick('stop', [[], [v20.Operation], [v20.PathItem], [v20.Operation, v20.PathItem], [v20.Response]])
    r = Rec()
    scan(route=[r], root=root, leaves=stop)
    want = [v20.Swagger, v20.PathItem]
    if v20.PathItem not in stop:
        want += [v20.Operation, v20.Parameter]
        if v20.Operation not in stop:
            want += [v20.Response]
    got = [type(o) for _, o in r.seen]
    S.check(sorted(c.__name__ for c in got) == sorted(c.__name__ for c in want), 'leaves are not entered')
    S.raises(lambda: scan(route=[r], root=None), ValueError, 'there is nothing to scan')
    S.raises(lambda: Scanner(None).scan(route=[r], root=None), ValueError, 'there is nothing to scan')


KINDS = [v20.Swagger, v20.PathItem, v20.Operation, v20.Parameter]


@case(dict(n=2), [dict(n=3)])
def dispatchers(S):
    """every dispatcher has its own handlers and its own function for results, also one derived from another one; the
    handlers of a kind run in the order of their registration, those of a route before those of the next one"""
    spec = {'paths': {'/a': {'get': {'responses': {}}, 'parameters': [{'name': 'x', 'in': 'query'}]}}}
    root = v20.Swagger(spec, '#', {})
    log = []

    class First(object):
        class Disp(Dispatcher):
            pass

        def __init__(self, name):
            self.name = name

    def one(self, path, obj, *app):
        log.append((self.name, 'one', type(obj)))
        return 1

    def two(self, path, obj, *app):
        log.append((self.name, 'two', type(obj)))
        return gives

    def first(self, x):
        log.append((self.name, 'first', x))

    def second(self, x):
        log.append((self.name, 'second', x))

    # whatever a handler returns is handed on
    gives = S.pick('gives', [2, 0, None, ''])
    mine = {'a': [], 'b': []}
    if S.pick('before', [False, True]):
        First.Disp.register([v20.Swagger])(one)
        mine['a'].append((one, [v20.Swagger]))

    class Second(object):
        class Disp(First.Disp):
            pass

        def __init__(self, name):
            self.name = name

    for i in range(S.B.n):
        how = S.pick('reg%d' % i, [None, ('a', one), ('a', two), ('b', one), ('b', two)])
        if how is None:
            continue
        kinds = S.pick('kinds%d' % i, [[v20.PathItem], [v20.Operation, v20.PathItem]])
        S.check((First if how[0] == 'a' else Second).Disp.register(kinds)(how[1]) is how[1],
                'the handler stays what it was')
        mine[how[0]].append((how[1], kinds))
    fa, fb = S.pick('results', [(None, None), (first, None), (None, second), (first, second)])
    results = {'a': fa, 'b': fb}
    if results['a']:
        First.Disp.result(first)
    if results['b']:
        Second.Disp.result(second)
    order = S.pick('routes', [['a', 'b'], ['b', 'a', 'b']])
    routes = [(First if x == 'a' else Second)('%s%d' % (x, i)) for i, x in enumerate(order)]
    run = S.pick('run', ['scan', 'Scanner'])
    if run == 'scan':
        scan(route=routes, root=root)
    else:
        Scanner('app').scan(route=routes, root=root)
    want = []
    seen = Rec()
    scan(route=[seen], root=root)
    for path, obj in seen.seen:
        for i, x in enumerate(order):
            for fn, kinds in mine[x]:
                if type(obj) in kinds:
                    name = '%s%d' % (x, i)
                    want.append((name, 'one' if fn is one else 'two', type(obj)))
                    if results[x]:
                        want.append((name, 'first' if x == 'a' else 'second', 1 if fn is one else gives))
    S.check(log == want, 'handlers run as registered', lambda: '%r, expected %r' % (log, want))
    S.raises(lambda: First.Disp.register([dict])(one), Exception, 'only objects of a specification have handlers')


@case(dict(steps=3), [dict(steps=4), dict(steps=5)])
def edits(S):
    """children attached, appended, inserted or assigned are reflected by later walks"""
    root = v20.Swagger({'swagger': '2.0', 'info': {'title': 't'},
                        'paths': {'/a': {'get': {'parameters': [{'name': 'x', 'in': 'query'}], 'responses': {}}}},
                        'definitions': {}, 'tags': [{'name': 't'}]}, '#', {})
    walked = stale = moved = False
    for i in range(S.B.steps):
        how = S.pick('step%d' % i, ['walk', 'append', 'insert', 'replace', 'attach', 'child', 'assign', 'nested',
                                    'extend', 'again'])
        item = root.paths['/a']
        if how == 'walk':
            check(S, root, tables.V20, False, stale, moved)
            walked = True
        elif how == 'append':
            item.get.parameters.append(v20.Parameter({'name': 'n%d' % i, 'in': 'query'}))
        elif how == 'extend':
            root.tags.extend([v20.Tag({'name': 'u'}), v20.Tag({'name': 'v'})])
        elif how == 'insert':
            root.definitions[S.str('def%d' % i, 1, alpha='a/')] = v20.Schema({'properties': {'p': {}}})
        elif how == 'replace':
            root.paths['/a'] = v20.PathItem({'get': {'parameters': [], 'responses': {'200': {}}}})
        elif how == 'attach':
            root.attach_child('info', v20.Info({'title': 'u', 'contact': {}}))
        elif how == 'child':
            item.attach_child('put', v20.Operation({'responses': {'default': {'description': ''}}}))
        elif how == 'assign':
            op = v20.Operation({'tags': ['x'], 'externalDocs': {'url': ''}})
            op.set_parent(item)
            item.get = op
            item.get.attach_child('parameters', v20.Operation({'parameters': [{'name': 'q', 'in': 'query'}]}).parameters)
        elif how == 'nested':
            item.get.parameters[0].attach_child('schema', v20.Schema({'items': {}})) if len(item.get.parameters) else None
        elif how == 'again':
            root.merge_children(v20.Swagger({'responses': {'r': {'description': ''}},
                                             'externalDocs': {'url': 'x'}}, '#', {}))
            if root.responses is not None and root.responses.get_parent() is not root:
                root.attach_child('responses', root.responses)
                root.attach_child('externalDocs', root.externalDocs)
        if how in ('append', 'extend', 'insert', 'replace', 'assign', 'again', 'nested'):
            moved, stale = True, stale or walked
    check(S, root, tables.V20, False, stale, moved)


@case(dict(), [])
def bad_attach(S):
    """attaching under an undeclared name, or assigning something that is not an object, is refused"""
    item = v20.PathItem({}, '#', {})
    S.raises(lambda: item.attach_child(S.choice('name', ['gets', '$ref', 'x']), v20.Operation({})), Exception, 'refused')
    v = S.pick('value', [1, 'x', {}, [], True, 0.5])

    def assign():
        item.get = v
    S.raises(assign, Exception, 'refused')
    S.check(item.get is None, 'and nothing changes')
