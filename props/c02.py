# -*- coding: utf-8 -*-
"""C02 references: normalise and split."""
from sx.capi import case, PRINT
from pyopenapi.utils import normalize_jr, jr_split, derelativise_url

ASSUMPTIONS = [
    'file references are built of path segments without "/?#:;\\\\" and do not begin with "/"; segments of three or '
    'more dots (treated as ".." by the code, pinned by a test) are excluded',
    'document URLs are http or file URLs without query',
]
SEG = ''.join(c for c in PRINT if c not in '/?#:;\\[] "<>^`{|}')
FRAG = ''.join(c for c in PRINT if c not in '[]')



def is_dots3(s):
    if len(s) < 3:
        return False
    for c in s:
        if c != '.':
            return False
    return True


def remove_dots(segs):
    out = []
    for s in segs:
        if s == '.':
            continue
        if s == '..':
            out = out[:-1]
        else:
            out = out + [s]
    return out


def seg(S, name, n):
    s = S.str(name, n, 1, SEG)
    S.assume(S.not_(is_dots3(s)))
    return s


def fragment(S, name):
    kind = S.pick(name + '.kind', ['absent', 'empty', 'some'])
    if kind == 'absent':
        return '', ''
    if kind == 'empty':
        return '#', ''
    f = S.str(name, S.B.frag, 1, FRAG)
    return '#' + f, f


DOCS = [('http://h', ['b.json']), ('http://h:80', ['a', 'b.json']), ('file://', ['a', 'c', 'b.json']), ('file://', ['b.yaml'])]


@case(dict(segs=3, len=2, frag=3), [dict(segs=4, len=2, frag=3), dict(segs=2, len=3, frag=5)])
def relative(S):
    """a relative file reference is taken from the directory of the document"""
    root, doc = S.pick('doc', DOCS)
    url = root + '/' + '/'.join(doc)
    n = S.length('n', 1, S.B.segs)
    segs = [seg(S, 's%d' % i, S.B.len) for i in range(n)]
    last = S.pick('last', ['', 'y.json'])
    if last:
        segs = segs + [last]
    tail, frag = fragment(S, 'frag')
    ref = '/'.join(segs) + tail
    got = normalize_jr(ref, url)
    base = root + '/' + '/'.join(remove_dots(doc[:-1] + segs))
    want = base + ('#' + frag if frag else '')
    S.check(S.same(got, want), 'relative reference resolves against the directory of the document',
            lambda: '%r against %r gave %r' % (ref, url, got))
    S.check(S.same(normalize_jr(got, url), got), 'normalising again changes nothing')
    S.check(S.same(normalize_jr(got, 'http://other/z.json'), got), 'a normalised reference does not depend on a base')
    u, jp = jr_split(got)
    S.check(S.same(u, base), 'split keeps the document url')
    S.check(S.same(jp, '#' + frag), 'split keeps the fragment')


@case(dict(len=4, frag=4), [dict(len=6, frag=6)])
def fragment_only(S):
    """a pure fragment addresses the containing document"""
    root, doc = S.pick('doc', DOCS)
    url = S.pick('nourl', [root + '/' + '/'.join(doc), None])
    f = S.str('f', S.B.frag, 0, FRAG)
    ref = '#' + f
    got = normalize_jr(ref, url)
    if url is None:
        S.check(S.same(got, ref), 'without a document the fragment is kept')
        u, jp = jr_split(got)
        S.check(S.same(u, '') and S.same(jp, ref), 'split of a pure fragment')
        return
    S.check(S.same(got, url + ('#' + f if f else '')), 'fragment addresses the containing document')
    S.check(S.same(normalize_jr(got, url), got), 'normalising again changes nothing')
    u, jp = jr_split(got)
    S.check(S.same(u, url), 'split keeps the document url')
    S.check(S.same(jp, ref), 'split keeps the fragment')
    S.check(normalize_jr(None, url) is None, 'no reference stays no reference')


@case(dict(len=2, segs=2, frag=3), [dict(len=3, segs=2, frag=4), dict(len=2, segs=3, frag=4)])
def absolute(S):
    """an absolute URL is kept"""
    root = S.pick('root', ['http://h', 'https://h.x:8', 'file://', 'ftp://u@h'])
    n = S.length('n', 1, S.B.segs)
    segs = [S.str('s%d' % i, S.B.len, 1, SEG) for i in range(n)]
    query = S.pick('q', ['', '?a=b/c', '?x'])
    tail, frag = fragment(S, 'frag')
    doc = root + '/' + '/'.join(segs) + query
    ref = doc + tail
    want = doc + ('#' + frag if frag else '')
    got = normalize_jr(ref, 'http://z/y/x.json')
    S.check(S.same(got, want), 'an absolute reference is kept', lambda: '%r gave %r' % (ref, got))
    S.check(S.same(normalize_jr(ref), want), 'an absolute reference is kept without a document')
    u, jp = jr_split(ref)
    S.check(S.same(u, doc), 'split keeps the document url', lambda: '%r gave %r' % (ref, u))
    S.check(S.same(jp, '#' + frag), 'split keeps the fragment')


@case(dict(segs=4, len=2), [dict(segs=5, len=2), dict(segs=4, len=3)])
def dot_segments(S):
    """dot segments are removed, everything else is kept"""
    root = S.pick('root', ['http://h', 'file://'])
    n = S.length('n', 1, S.B.segs)
    segs = [seg(S, 's%d' % i, S.B.len) for i in range(n)]
    tail = S.pick('tail', ['', '?q=1', '#f/../g'])
    want = remove_dots(segs)
    got = derelativise_url(root + '/' + '/'.join(segs) + tail)
    S.check(S.same(got, root + '/' + '/'.join(want) + tail), 'dot segments removed')
    S.check(S.same(derelativise_url(got), got), 'nothing left to remove')
