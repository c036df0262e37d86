# -*- coding: utf-8 -*-
"""X00 self-test of the symbolic execution: modelled operations against the real ones, for all values within the bounds.
Not a property of the repository; run by tools/selftest.sh."""
from sx import natively
from sx.capi import case
from . import x00_ops

ASSUMPTIONS = []


def attempt(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return 'raises ' + type(e).__name__


def norm(y):
    if isinstance(y, (tuple, list)):
        return [norm(a) for a in y]
    if isinstance(y, (set, frozenset)):
        return [norm(a) for a in sorted(y)]
    if isinstance(y, dict):
        return [[norm(k), norm(y[k])] for k in y]
    if isinstance(y, bool):
        return 1 if y else 0
    return y


def verdict(S, name, y, z, *a):
    S.check(S.same(norm(y), norm(z)), name, lambda: '%r: %r, expected %r' % (a, y, z))


@case(dict(len=3), [dict(len=4)])
def strings(S):
    """operations on one symbolic string"""
    name = S.pick('op', sorted(x00_ops.SYM))
    x = S.str('x', S.B.len, alpha='a/.~1A ')
    y = attempt(x00_ops.SYM[name], x)
    c = S.conc(x)
    verdict(S, name, y, natively.run('props.x00_ops', 'SYM', name, c), c)


@case(dict(len=2), [dict(len=3)])
def pairs(S):
    """operations on two symbolic strings"""
    name = S.pick('op', sorted(x00_ops.SYM2))
    x, w = S.str('x', S.B.len, alpha='a/b'), S.str('w', 2, alpha='a/')
    y = attempt(x00_ops.SYM2[name], x, w)
    c, d = S.conc(x), S.conc(w)
    verdict(S, name, y, natively.run('props.x00_ops', 'SYM2', name, c, d), c, d)


@case(dict(n=2), [dict(n=3)])
def dicts(S):
    """operations on dictionaries with optional entries"""
    name = S.pick('op', sorted(x00_ops.SYMD))
    d = S.dict('d', dict((a, (lambda a=a: S.length('v' + a, 0, 2))) for a in 'abc'[:S.B.n]))
    k = S.str('k', 1, alpha='ab')
    keep = S.copy(d)
    y = attempt(x00_ops.SYMD[name], d, k)
    c = S.conc(k)
    real = natively.mapping([(S.conc(a), S.conc(keep[a])) for a in keep])
    verdict(S, name, y, natively.run('props.x00_ops', 'SYMD', name, real, c), real, c)
