# -*- coding: utf-8 -*-
"""C25 declarations of fields, children, internal values and attributes."""
from sx.capi import case
from pyopenapi.errs import FieldNotExist
from pyopenapi.migration.spec import Base2, rename, list_, map_, child
from pyopenapi.migration.spec.attr import AttributeGroup
from pyopenapi.migration.versions.v2_0 import attrs as a2
from pyopenapi.migration.versions.v3_0_0 import attrs as a3

ASSUMPTIONS = ['declarations of up to two names with every combination of options; documents hold values of every JSON '
               'kind, null included; sequences of at most `steps` reads and writes on two objects',
               'a default is returned as it is declared, not copied, for fields and internal values',
               'children are declared with the builder of an object, a list or a map of objects']
VALUES = ('str', 'zero', 'true', 'false', 'float', 'estr', 'elist', 'edict', 'list', 'null')


def make(name, bases=(Base2, ), fields=None, children=None, internal=None):
    f, c, i = fields or {}, children or {}, internal or {}

    if len(bases) == 1:
        class T(bases[0]):
            __fields__ = f
            __children__ = c
            __internal__ = i
    else:
        class T(bases[0], bases[1]):
            __fields__ = f
            __children__ = c
            __internal__ = i

    T.__name__ = name
    return T


def value(S, name):
    return S.any(name, 1, VALUES)


def options(S, name, **kinds):
    """a declaration with any of the options"""
    out = {}
    for k in sorted(kinds):
        if S.flag('%s.%s?' % (name, k)):
            out[k] = kinds[k]()
    return out


@case(dict(), [])
def fields(S):
    """reading and writing declared fields"""
    d = options(S, 'f', key=lambda: 'k-1', required=lambda: S.pick('required', [True, False]),
                default=lambda: S.any('default', 1, ('str', 'zero', 'elist')),
                restricted=lambda: S.pick('restricted', [True, False]), readonly=lambda: S.pick('readonly', [True, False]))
    cls = make('T', fields={'f': d, 'g': {'default': 'other'}})
    k = d['key'] if 'key' in d else 'f'
    spec, v = S.mkdict(), None
    there = S.flag('there')
    if there:
        v = spec[k] = value(S, 'value')
    if k != 'f' and S.flag('under its name'):
        spec['f'] = 'not this'
    obj, twin = cls(spec), cls(S.mkdict())
    got = S.trap(lambda: obj.f)
    required, restricted = d.get('required', False), d.get('restricted', False)
    if there and restricted:
        S.check(got[0] == 'err', 'a restricted field that is present is an error')
    elif there:
        S.check(got[0] == 'ok' and S.same(got[1], v), 'the value of the document', lambda: '%r gave %r' % (spec, got))
    elif required:
        S.check(got[0] == 'err', 'a required field that is missing is an error')
    else:
        want = d['default'] if 'default' in d else None
        S.check(got[0] == 'ok' and S.same(got[1], want), 'the declared default', lambda: '%r gave %r' % (d, got))
    S.check(obj.is_set(k) == there, 'whether a field is given')
    w = S.any('w', 1, ('str', 'zero', 'null'))
    def write():
        obj.f = w
    r = S.trap(write)
    if d.get('readonly', True):
        S.check(r[0] == 'err' and isinstance(r[1], AttributeError), 'read-only fields refuse assignment')
        again = S.trap(lambda: obj.f)
        S.check(again[0] == got[0] and (got[0] == 'err' or S.same(again[1], got[1])), 'and keep their value')
    else:
        S.check(r[0] == 'ok', 'other fields accept assignment')
        S.check(obj.is_set(k), 'an assigned field is given')
        if not restricted:
            S.check(S.same(S.returns(lambda: obj.f, 'an assigned field can be read'), w), 'the assigned value')
        S.check(not twin.is_set(k), 'other objects are not affected')
    S.check(S.same(obj.g, 'other'), 'other fields are not affected')


class Leaf(Base2):
    __fields__ = {'x': {}}


@case(dict(), [])
def children(S):
    """reading and assigning declared children"""
    how = S.pick('builder', ['object', 'list', 'map'])
    builder = {'object': Leaf, 'list': list_(Leaf), 'map': map_(Leaf)}[how]
    def content(n):
        leaf = S.mkdict([('x', value(S, n))])
        return {'object': leaf, 'list': [leaf], 'map': S.mkdict([('m', leaf)])}[how]
    def empty():
        return [] if how == 'list' else {}
    def read(c):
        if how == 'list':
            return [S.mkdict([('x', c[i].x)]) for i in range(len(c))]
        if how == 'map':
            return S.mkdict([(n, S.mkdict([('x', c[n].x)])) for n in c.keys()])
        return S.mkdict([('x', c.x)])
    d = options(S, 'c', key=lambda: 'k-1', required=lambda: S.pick('required', [True, False]),
                default=lambda: S.pick('default', ['content', 'empty']))
    default = content('d') if d.get('default') == 'content' else empty()
    if 'default' in d:
        d['default'] = default
    d['child_builder'] = builder
    cls = make('T', children={'c': d, 'other': {'child_builder': Leaf}})
    k = d.get('key', 'c')
    there = S.pick('there', ['no', 'null', 'empty', 'yes'])
    spec = S.mkdict()
    if there != 'no':
        v = spec[k] = None if there == 'null' else empty() if there == 'empty' else content('v')
    made = S.trap(lambda: cls(spec))
    if there == 'no' and d.get('required', False):
        S.check(made[0] == 'err' and isinstance(made[1], FieldNotExist), 'a required child that is missing is an error')
        return
    S.check(made[0] == 'ok', 'the object can be made', lambda: '%r' % (made, ))
    obj = made[1]
    if there in ('no', 'null'):
        want = default if 'default' in d else None
    else:
        want = v
    if want is None:
        S.check(obj.c is None, 'a child that is not given is none')
    else:
        c = obj.c
        S.check(c is not None and type(c) is builder, 'a child of the declared kind')
        if want or how == 'object':
            w = S.mkdict([('x', want['x'] if 'x' in want else None)]) if how == 'object' else want
            S.check(S.same(read(c), w), 'the content of the child', lambda: '%r gave %r' % (want, read(c)))
        else:
            S.check(len(c) == 0, 'the content of the child')
        S.check(obj.c is c, 'a child stays the same object')
    S.check(obj.other is None, 'other children are not affected')
    second = S.returns(lambda: cls(spec), 'another object can be made')
    S.check(second.c is None or second.c is not obj.c, 'objects have children of their own')
    w = S.pick('assign', ['none', 'object', 'list', 'map', 'dict', 'string'])
    if w == 'none':
        return
    x = {'object': lambda: Leaf({'x': 1}), 'list': lambda: list_(Leaf)([]), 'map': lambda: map_(Leaf)({'k': {}}),
         'dict': dict, 'string': lambda: 'x'}[w]()
    before = obj.c
    def write():
        obj.c = x
    r = S.trap(write)
    if w in ('dict', 'string'):
        S.check(r[0] == 'err', 'what is no object is refused')
        S.check(obj.c is before, 'and the child is kept')
    else:
        S.check(r[0] == 'ok' and obj.c is x, 'the assigned child')
        S.check(second.c is None or second.c is not x, 'other objects are not affected')


@case(dict(steps=3), [dict(steps=4)])
def accessors(S):
    """renamed accessors and internal values in any order"""
    cls = make('T', fields={'$f': {'readonly': False, 'default': 'df'}, 'ro': {}},
               children={'kid': {'child_builder': Leaf}},
               internal={'f': {'key': '$f', 'builder': rename}, 'kid_': {'key': 'kid', 'builder': rename},
                         'ro_': {'key': 'ro', 'builder': rename}, 'cache': {}, 'count': {'key': 'n', 'default': 0}})
    objs = [cls({'ro': 'r0'}), cls({'$f': 'f1', 'kid': {'x': 1}, 'ro': 'r1'})]
    state = [{'f': 'df', 'kid': None, 'cache': None, 'count': 0}, {'f': 'f1', 'kid': objs[1].kid, 'cache': None, 'count': 0}]
    pairs = {'f': ('$f', 'f'), 'kid': ('kid', 'kid_'), 'cache': ('cache', 'cache'), 'count': ('count', 'count')}
    for i in range(S.B.steps):
        o, what = S.pick('obj%d' % i, [0, 1]), S.pick('what%d' % i, ['f', 'kid', 'cache', 'count', 'ro'])
        by = S.pick('by%d' % i, [0, 1]) if what in ('f', 'kid', 'ro') else 0
        if what == 'ro':
            r = S.trap(lambda: setattr(objs[o], ('ro', 'ro_')[by], 'x'))
            S.check(r[0] == 'err' and isinstance(r[1], AttributeError), 'read-only fields refuse assignment by any name')
            continue
        v = Leaf({'x': i}) if what == 'kid' else S.any('v%d' % i, 1, ('str', 'null', 'elist'))
        setattr(objs[o], pairs[what][by], v)
        state[o][what] = v
    for o in range(2):
        for what in pairs:
            for n in pairs[what]:
                got = getattr(objs[o], n)
                S.check(got is state[o][what] or S.same(got, state[o][what]) if what != 'kid' else got is state[o][what],
                        'an accessor and what it stands for agree, on every object', lambda: '%s: %r' % (n, got))
        S.check(S.same(objs[o].ro, 'r%d' % o) and S.same(objs[o].ro_, 'r%d' % o), 'read-only fields keep their value')


@case(dict(), [])
def inheritance(S):
    """inherited declarations apply unless redeclared"""
    group = S.pick('group', ['fields', 'internal', 'children'])
    def decl(d):
        if group == 'children':
            return {'child_builder': Leaf, 'default': {'x': d}}
        return {'default': d}
    def names(n):
        return {'1': ('a', ), '2': ('b', ), '12': ('a', 'b'), '0': ()}[S.pick(n, ['0', '1', '2', '12'])]
    levels = S.pick('shape', ['chain', 'two bases'])
    declared = [names('n%d' % i) for i in range(3)]
    specs = [dict((k, decl('%s%d' % (k, i))) for k in declared[i]) for i in range(3)]
    if levels == 'chain':
        c0 = make('C0', **{group: specs[0]})
        c1 = make('C1', (c0, ), **{group: specs[1]})
        c2 = make('C2', (c1, ), **{group: specs[2]})
        orders = [(c0, [0]), (c1, [1, 0]), (c2, [2, 1, 0])]
    else:
        c0 = make('C0', **{group: specs[0]})
        c1 = make('C1', **{group: specs[1]})
        c2 = make('C2', (c0, c1), **{group: specs[2]})
        orders = [(c0, [0]), (c1, [1]), (c2, [2, 0, 1])]
    for cls, order in orders:
        obj = cls({})
        for k in ('a', 'b'):
            want = None
            for i in order:
                if k in declared[i]:
                    want = '%s%d' % (k, i)
                    break
            if want is None:
                S.check(not hasattr(obj, k), 'nothing is declared by others')
                continue
            got = getattr(obj, k)
            S.check(S.same(got.x if group == 'children' else got, want), 'the nearest declaration applies',
                    lambda: '%r of %r' % (got, want))
            if group == 'fields':
                S.check(S.same(getattr(cls({k: 'given'}), k), 'given'), 'inherited fields read the document')
        if group != 'internal':
            S.check(sorted(obj.get_field_names()) == sorted(k for k in ('a', 'b') if any(k in declared[i] for i in order)),
                    'all declared names, inherited ones included')


def group(S, name, d):
    class G(AttributeGroup):
        __attributes__ = d

    return G


@case(dict(steps=3), [dict(steps=4)])
def attributes(S):
    """attribute groups attached to objects"""
    d = options(S, 'a', key=lambda: 'k', required=lambda: S.pick('required', [True, False]),
                default=lambda: S.any('default', 1, ('str', 'zero', 'false')))
    g = group(S, 'G', {'a': d, 'b': {}})
    start = S.any('start', 1, ('str', 'null', 'zero', 'estr'))
    given = S.flag('given')
    x = g(S.mkdict([(d.get('key', 'a'), start)]) if given else S.pick('empty', [{}, None]))
    def read(x, there, v):
        got = S.trap(lambda: x.a)
        if there:
            S.check(got[0] == 'ok' and S.same(got[1], v), 'the attached value', lambda: '%r' % (got, ))
        elif d.get('required', False):
            S.check(got[0] == 'err', 'a required attribute that is missing is an error')
        else:
            S.check(got[0] == 'ok' and S.same(got[1], d.get('default')), 'the declared default', lambda: '%r' % (got, ))
    read(x, given, start)
    objs = [Leaf({}), Leaf({})]
    S.check(objs[0].get_attrs('n') is None, 'nothing is attached at first')
    where = [(0, 'n'), (0, 'm'), (1, 'n')]
    values = [None, None, None]
    there = [False, False, False]
    for i in range(S.B.steps):
        j = S.pick('at%d' % i, range(3))
        v = S.any('v%d' % i, 1, ('str', 'zero', 'null'))
        at = objs[where[j][0]].get_attrs(where[j][1], g)
        at.a = v
        at.b = j
        values[j], there[j] = v, True
    for j in range(3):
        o, n = objs[where[j][0]], where[j][1]
        if not there[j]:
            S.check(o.get_attrs(n) is None, 'nothing is attached elsewhere')
        at = o.get_attrs(n, g)
        S.check(o.get_attrs(n) is at and o.get_attrs(n, g) is at, 'a group is attached once')
        read(at, there[j], values[j])
        S.check(S.same(at.b, j) if there[j] else at.b is None, 'other attributes are their own')
    read(x, given, start)
    read(g(), False, None)


GROUPS = [m[k] for m in (vars(a2), vars(a3)) for k in sorted(m)
          if isinstance(m[k], type) and getattr(m[k], '__attributes__', None)]


@case(dict(), [])
def declared(S):
    """the attribute groups of the versions: every attribute has a place of its own"""
    cls = S.pick('group', GROUPS)
    names = sorted(cls.__attributes__)
    n = S.pick('name', range(max(len(g.__attributes__) for g in GROUPS)))
    S.assume(n < len(names))
    obj, twin = Leaf({}), Leaf({})
    at, v = obj.get_attrs('migration', cls), S.any('v', 1, ('str', 'zero', 'null', 'false'))
    for k in names:
        S.check(getattr(at, k) is None, 'nothing is attached at first')
    setattr(at, names[n], v)
    for k in names:
        got = getattr(obj.get_attrs('migration', cls), k)
        S.check(S.same(got, v) if k == names[n] else got is None, 'other attributes are their own', lambda: '%s: %r' % (k, got))
    S.check(twin.get_attrs('migration', cls) is not at and getattr(twin.get_attrs('migration', cls), names[n]) is None,
            'other objects are not affected')


@case(dict(), [])
def attached(S):
    """fields and children attached to a class or an object later"""
    def field(key, default=None):
        return property(lambda self: self.spec.get(key, default))
    base = make('B', fields={'f': {}}, children={'kid': {'child_builder': Leaf}})
    key = S.pick('key', [None, 'k'])
    extra = {} if key is None else {'key': key}
    which = S.pick('which', ['field', 'child'])
    content = S.any('content', 1, ('str', 'zero', 'null'))
    spec = S.mkdict([(key or 'late', content if which == 'field' else S.mkdict([('x', content)]))])
    if which == 'field':
        base.attach_field('late', builder=field, **extra)
    else:
        base.attach_field('late', builder=child, child_builder=Leaf, **extra)
    obj = base(spec)
    S.check(S.same(obj.late if which == 'field' else obj.late.x, content), 'an attached field reads the document')
    if which == 'child' and key is None:
        S.check('late' in obj.get_children(), 'an attached child is one of the children')
    if which == 'child':
        S.check(obj.late.get_parent() is obj, 'an attached child has its parent')
    kid = Leaf({'x': 2})
    obj.attach_child('kid', kid)
    S.check(obj.kid is kid and kid.get_parent() is obj, 'an attached object is the child')
    S.check(base(spec).kid is None, 'other objects are not affected')
    S.check(S.trap(lambda: obj.attach_child('nosuch', Leaf({})))[0] == 'err', 'only declared children can be attached')
