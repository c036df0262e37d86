# -*- coding: utf-8 -*-
"""C05 comparing containers."""
from sx.capi import case
from pyopenapi.utils import compare_container, jp_split

ASSUMPTIONS = ['lists hold scalars of one type, or dictionaries; booleans and the numbers 0/1 are not mixed (Python '
               'regards them as equal)']
SC = ('str', 'zero', 'int', 'null', 'float')
KEYS = ('a', 'b/~c')


def value(S, name, depth):
    kinds = ['str', 'int', 'zero', 'null', 'true', 'strs', 'ints']
    if depth:
        kinds += ['dict', 'dicts']
    k = S.pick(name + '.kind', kinds)
    if k == 'str':
        return S.str(name + '.s', S.B.len)
    if k == 'int':
        return 7
    if k == 'zero':
        return 0
    if k == 'null':
        return None
    if k == 'true':
        return True
    if k == 'strs':
        n = S.length(name + '.n', 0, S.B.list)
        return [S.str('%s.%d' % (name, i), S.B.len, 0, 'ab') for i in range(n)]
    if k == 'ints':
        n = S.length(name + '.n', 1, S.B.list)
        return [S.int('%s.%d' % (name, i), range(3)) for i in range(n)]
    if k == 'dicts':
        n = S.length(name + '.n', 1, S.B.dicts)
        return [S.dict('%s.%d' % (name, i), {'a': lambda i=i: value(S, '%s.%d.a' % (name, i), 0)}) for i in range(n)]
    return S.dict(name + '.d', dict((key, (lambda key=key: value(S, name + '.' + key, depth - 1))) for key in KEYS))


def is_list(x):
    return isinstance(x, list)


def is_dict(x):
    return isinstance(x, dict)


def scalar_list(x):
    return not x or not (is_list(x[0]) or is_dict(x[0]))


def keys_of(d, include, exclude):
    return [k for k in d if (not include or k in include) and k not in exclude]


def equal(a, b, include=(), exclude=()):
    if is_dict(a) or is_dict(b):
        if not (is_dict(a) and is_dict(b)):
            return False
        ka, kb = keys_of(a, include, exclude), keys_of(b, include, exclude)
        if len(ka) != len(kb):
            return False
        for k in ka:
            if k not in kb or not equal(a[k], b[k], include, exclude):
                return False
        return True
    if is_list(a) or is_list(b):
        if not (is_list(a) and is_list(b)) or len(a) != len(b):
            return False
        if scalar_list(a) != scalar_list(b):
            return False
        if not scalar_list(a):
            for x, y in zip(a, b):
                if not equal(x, y, include, exclude):
                    return False
            return True
        rest = list(b)
        for x in a:
            for i in range(len(rest)):
                if scalar_eq(x, rest[i]):
                    rest = rest[:i] + rest[i + 1:]
                    break
            else:
                return False
        return True
    return scalar_eq(a, b)


def scalar_eq(a, b):
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def same_type_lists(a, b):
    return True


def differ_at(a, b, tokens, include, exclude):
    """do the values differ at this place"""
    for i, t in enumerate(tokens):
        if is_dict(a) and is_dict(b):
            if (t in a) != (t in b):
                return i == len(tokens) - 1
            if t not in a:
                return False
            a, b = a[t], b[t]
        elif is_list(a) and is_list(b):
            if len(a) != len(b):
                return False
            if scalar_list(a) and scalar_list(b):
                if is_str_list(a) != is_str_list(b):
                    return False
                a, b = sorted(a)[int(t)], sorted(b)[int(t)]
            else:
                a, b = a[int(t)], b[int(t)]
        else:
            return False
    return not equal(a, b, include, exclude)


def is_str_list(a):
    return len(a) > 0 and isinstance(a[0], str)


def judge(S, a, b, diff, base, include=(), exclude=()):
    e = equal(a, b, include, exclude)
    S.check((len(diff) == 0) == e, 'reports a difference exactly when there is one',
            lambda: '%r vs %r gave %r' % (a, b, diff))
    for d in diff:
        path = d[0]
        toks = jp_split(path)
        if base:
            S.check(S.same(toks[0], '#'), 'locations are below the base')
            toks = toks[1:]
        S.check(differ_at(a, b, toks, include, exclude), 'the reported location differs',
                lambda: '%r vs %r reported %r' % (a, b, d))
        for t in toks:
            if t in KEYS:
                S.check(t not in exclude, 'an excluded key is not reported')
                S.check(not include or t in include, 'only included keys are reported')


@case(dict(len=1, list=2, dicts=1, depth=1), [dict(len=1, list=3, dicts=2, depth=1), dict(len=2, list=2, dicts=1, depth=1)])
def compare(S):
    """two values"""
    a, b = value(S, 'a', S.B.depth), value(S, 'b', S.B.depth)
    base = '#'
    judge(S, a, b, compare_container(a, b, base_path=base), base)


def tree(S, name, depth):
    """nested dictionaries and lists of dictionaries over three keys"""
    def sub(key):
        if depth:
            k = S.pick('%s.%s.kind' % (name, key), ['leaf', 'dict', 'list'])
            if k == 'dict':
                return tree(S, name + '.' + key, depth - 1)
            if k == 'list':
                return [tree(S, name + '.' + key + '.0', depth - 1)]
        return S.int('%s.%s' % (name, key), range(2))
    return S.dict(name, dict((key, (lambda key=key: sub(key))) for key in ('a', 'b/~c')))


@case(dict(depth=1), [])
def filtered(S):
    """excluded and included keys, at every depth"""
    exclude = S.pick('exclude', [[], ['a'], ['b/~c'], ['z']])
    include = S.pick('include', [[], ['a'], ['b/~c', 'a'], ['z']])
    a, b = tree(S, 'a', S.B.depth), tree(S, 'b', S.B.depth)
    diff = compare_container(a, b, base_path='#', exclude=exclude, include=include)
    judge(S, a, b, diff, '#', include, exclude)


@case(dict(len=2, depth=2), [dict(len=3, depth=3)])
def reflexive(S):
    """a value compared with a copy of itself"""
    a = S.any('a', S.B.len, ('str', 'zero', 'int', 'null', 'true', 'dict', 'list'), S.B.depth)
    S.check(len(compare_container(a, S.copy(a))) == 0, 'equal values have no difference')


@case(dict(len=1, list=3), [dict(len=2, list=3), dict(len=1, list=4)])
def orders(S):
    """lists of scalars are compared as multisets"""
    n = S.length('n', 0, S.B.list)
    m = S.length('m', 0, S.B.list)
    a = [S.str('a%d' % i, S.B.len, 0, 'ab') for i in range(n)]
    b = [S.str('b%d' % i, S.B.len, 0, 'ab') for i in range(m)]
    wrap = S.pick('wrap', [0, 1])
    x, y = ({'k': a}, {'k': b}) if wrap else (a, b)
    base = S.pick('base', ['#', None])
    judge(S, x, y, compare_container(x, y, base_path=base), base)
