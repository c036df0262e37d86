# -*- coding: utf-8 -*-
"""C01 JSON pointers: encode/decode round trip."""
from sx.capi import case
from pyopenapi.utils import jp_compose, jp_split


def enc(s):
    out = ''
    for c in s:
        if c == '~':
            out = out + '~0'
        elif c == '/':
            out = out + '~1'
        else:
            out = out + c
    return out


@case(dict(n=2, len=3), [dict(n=3, len=3), dict(n=2, len=4), dict(n=1, len=6)])
def compose_split(S):
    """names -> pointer -> names, with and without a base"""
    n = S.length('n', 0, S.B.n)
    names = [S.str('s%d' % i, S.B.len) for i in range(n)]
    base = S.pick('base', [None, '#', '#/definitions', '#/a~1b/~0'])
    given = list(names)
    ptr = jp_compose(names, base=base)
    S.check(S.same(names, given), 'the list of names handed in is not changed')
    want = '/'.join(([base] if base else []) + [enc(x) for x in names])
    if n or base:
        S.check(S.same(ptr, want), 'pointer is base plus the encoded names')
    if n == 0:
        return
    back = jp_split(ptr)
    nbase = {None: 0, '#': 1, '#/definitions': 2, '#/a~1b/~0': 3}[base]
    if base is None and n == 1 and names[0] == '':
        S.check(back == [], 'empty pointer')
        return
    S.check(S.same(back[nbase:], given), 'split gives back the names')
    S.check(len(back) == nbase + n, 'split gives nothing else')


@case(dict(len=4), [dict(len=6)])
def single(S):
    """one name given as a string; None keeps the base"""
    name = S.str('s', S.B.len)
    base = S.pick('base', [None, '', '#', 'x/y'])
    ptr = jp_compose(name, base=base)
    S.check(S.same(ptr, (base + '/' if base else '') + enc(name)), 'single name')
    S.check(S.same(jp_compose(None, base=base), base), 'no name keeps the base')
    if name != '':
        S.check(S.same(jp_split(ptr)[-1], name), 'last token is the name')


@case(dict(len=5), [dict(len=7)])
def split_limited(S):
    """a limited split leaves the remaining pointer usable: splitting it on gives the same names"""
    ptr = S.str('p', S.B.len, alpha='ab~/01#')
    S.check(jp_split('') == [] and jp_split(None) == [], 'empty pointer has no names')
    names = jp_split(ptr)
    if ptr == '':
        return
    S.check(S.same('/'.join([enc(x) for x in names]), enc_norm(ptr)), 'split then encode gives the pointer')


def enc_norm(p):
    """pointer with stray '~' (not followed by 0 or 1) written as '~0'"""
    out, i = '', 0
    while i < len(p):
        if p[i] == '~' and not (i + 1 < len(p) and p[i + 1] in '01'):
            out = out + '~0'
        else:
            out = out + p[i]
        i += 1
    return out
