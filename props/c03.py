# -*- coding: utf-8 -*-
"""C03 document URLs and local paths."""
import os
from sx.capi import case, PRINT
from pyopenapi.utils import normalize_url, url_dirname, url_join, path2url

ASSUMPTIONS = ['local paths contain no ":" or "\\\\" and do not begin with "//" (nor, '
               'when they are relative, with "?", "#" or ";")',
               'path segments of URLs contain no "?", "#", ";"; queries and fragments are fixed samples']
PCH = ''.join(c for c in PRINT if c not in '?#:\\[]')
SEG = ''.join(c for c in PRINT if c not in '/?#:;\\[] "<>^`{|}')
SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~/'
LOCAL = 'ab/.%~ \xe9+'
ODD = 'a/.#?;%'


def quote(p):
    out = ''
    for c in p:
        if c in SAFE:
            out = out + c
        elif c == ' ':
            out = out + '%20'
        elif c == '%':
            out = out + '%25'
        elif c == '+':
            out = out + '%2B'
        elif c in '#?;':
            out = out + {'#': '%23', '?': '%3F', ';': '%3B'}[c]
        elif c == '\xe9':
            out = out + '%C3%A9'
        else:
            raise Exception('outside the alphabet')
    return out


def norm(p):
    out = []
    for s in p.split('/'):
        if s == '' or s == '.':
            continue
        if s == '..':
            out = out[:-1]
        else:
            out = out + [s]
    return '/' + '/'.join(out)


@case(dict(len=5), [dict(len=6), dict(len=7)])
def local_path(S):
    """a local path becomes an absolute file URL of that path; doing it twice changes nothing"""
    absolute = S.pick('abs', [True, False])
    rest = S.str('p', S.B.len, 1, LOCAL) if S.pick('names', ['usual', 'odd']) == 'usual' else S.str('o', S.B.len - 1, 1, ODD)
    S.assume(S.not_(rest.startswith('/')))
    S.assume(absolute or S.not_(rest.startswith(' ')))      # leading blanks are not part of a URL
    # what looks like the query, fragment or parameters of a URL is part of the name
    S.assume(absolute or S.not_(S.any_of([rest.startswith(c) for c in '#?;'])))
    path = '/' + rest if absolute else rest
    got = normalize_url(path)
    want = norm(path if absolute else os.getcwd() + '/' + path)
    S.check(S.same(got, 'file://' + quote(want)), 'file URL of the absolute path', lambda: '%r gave %r' % (path, got))
    S.check(S.same(normalize_url(got), got), 'idempotent')


@case(dict(len=3, segs=2), [dict(len=4, segs=3)])
def with_scheme(S):
    """a URL with a scheme is returned unchanged"""
    root = S.pick('root', ['http://h', 'https://h:8', 'file://', 'ftp://h', 'HTTP://H'])
    n = S.length('n', 0, S.B.segs)
    segs = [S.str('s%d' % i, S.B.len, 0, SEG) for i in range(n)]
    url = root + ''.join(['/' + s for s in segs]) + S.pick('tail', ['', '?q=a/b', '#/x/y', '?q#f'])
    S.check(S.same(normalize_url(url), url), 'unchanged')
    S.check(S.same(normalize_url(normalize_url(url)), url), 'idempotent')


@case(dict(len=3, segs=2), [dict(len=5, segs=2), dict(len=3, segs=3)])
def dirname(S):
    """directory of a document URL"""
    root = S.pick('root', ['http://h', 'file://', 'https://u:p@h:8'])
    n = S.length('n', 0, S.B.segs)
    segs = [S.str('s%d' % i, S.B.len, 1, SEG) for i in range(n)]
    ext = S.pick('ext', ['.json', '.yaml', '.yml', '', '/', 'json', 'yml'])
    tail = S.pick('tail', ['', '?q=a.json', '#f.yaml', '?q=1#f'])
    name = S.str('name', S.B.len, 1, SEG)
    path = ''.join(['/' + s for s in segs])
    url = root + path + '/' + name + ext + tail
    # a name that merely ends like that is none of a document
    S.assume(ext not in ('json', 'yml') or S.not_(name.endswith('.')))
    if ext in ('.json', '.yaml', '.yml'):
        S.check(S.same(url_dirname(url), root + (path or '/') + tail), 'last component dropped, the rest kept',
                lambda: '%r gave %r' % (url, url_dirname(url)))
    elif ext in ('json', 'yml') or S.not_(S.any_of([name.endswith(e) for e in ('.json', '.yaml', '.yml')])):
        S.check(S.same(url_dirname(url), url), 'a URL that names no document is kept',
                lambda: '%r gave %r' % (url, url_dirname(url)))


@case(dict(len=3, segs=2), [dict(len=4, segs=3)])
def join(S):
    """joining a name onto a URL"""
    root = S.pick('root', ['http://h', 'file://', 'https://u:p@h:8'])
    n = S.length('n', 0, S.B.segs)
    segs = [S.str('s%d' % i, S.B.len, 1, SEG) for i in range(n)]
    slash = S.pick('slash', ['', '/'])
    tail = S.pick('tail', ['', '?q=a/', '#f/'])
    lead = S.pick('lead', ['', '/'])
    name = S.str('name', S.B.len, 1, SEG)
    more = S.pick('more', ['', '/x.json'])
    path = ''.join(['/' + s for s in segs])
    S.assume(root != 'file://' or n > 0)
    got = url_join(root + path + slash + tail, lead + name + more)
    S.check(S.same(got, root + path + '/' + name + more + tail), 'exactly one slash at the seam, the rest kept',
            lambda: 'gave %r' % (got,))
