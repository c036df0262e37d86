# -*- coding: utf-8 -*-
"""C14 raw documents."""
from sx.capi import case
from pyopenapi.migration.resolve import Resolver

ASSUMPTIONS = ['documents nested up to three levels with names of at most `name` characters out of "/", "~", "0", "1", '
               '"a", "#" and values of every JSON kind; pointers of up to `tokens` tokens',
               'request sequences of at most `steps` requests over three documents; documents that are null are not '
               'documents']
URLS = ['http://h/d/a.json', 'http://h/d/b.json', 'http://h/d/a.json/x']


def enc(x):
    return x.replace('~', '~0').replace('/', '~1')


class Missing(Exception):
    pass


class Source(object):
    """getter class over documents by URL; records what is fetched"""

    def __init__(self, docs):
        self.docs, self.fetched = docs, []
        outer = self

        class Getter(object):
            def __init__(self, url):
                self.url = url

            def __iter__(self):
                return self

            def __next__(self):
                outer.fetched.append(self.url)
                if self.url not in outer.docs:
                    raise Missing(self.url)
                return outer.docs[self.url]

            next = __next__

        self.getter = Getter


def designated(doc, tokens):
    """(True, value) of an RFC 6901 pointer, or (False, None)"""
    for t in tokens:
        if isinstance(doc, list):
            n = None
            for i in range(len(doc)):
                if t == str(i):
                    n = i
            if n is None:
                return False, None
            doc = doc[n]
        elif isinstance(doc, dict):
            if t not in doc:
                return False, None
            doc = doc[t]
        else:
            return False, None
    return True, doc


@case(dict(name=2, tokens=2), [dict(name=2, tokens=3)])
def addresses(S):
    """exactly the value the pointer designates, or an error"""
    name = S.str('name', S.B.name, alpha='a/~0#')
    leaf = S.any('leaf', 1, ('str', 'zero', 'false', 'true', 'estr', 'elist', 'edict', 'float', 'null'))
    inner = S.mkdict([(name, leaf), ('1', 'one')])
    doc = S.mkdict([('m', inner), ('l', [leaf, [inner, 'x'], inner]), (name, inner), ('s', 'text')])
    tokens = []
    for i in range(S.length('n', 0, S.B.tokens)):
        k = S.pick('kind%d' % i, ['known', 'index', 'name'])
        if k == 'known':
            tokens.append(S.choice('known%d' % i, ['m', 'l', 's', '1', '-', '', 'm/']))
        elif k == 'index':
            tokens.append(S.str('index%d' % i, 2, 1, alpha='-012+ '))
        else:
            tokens.append(S.str('t%d' % i, 2, alpha='a/~0#'))
    src = Source({URLS[0]: doc})
    r = Resolver(default_getter=src.getter)
    jref = URLS[0] + ''.join(['#'] + ['/' + enc(t) for t in tokens]) if tokens or S.pick('hash', [True, False]) \
        else URLS[0]
    there, want = designated(doc, tokens)
    got = S.trap(lambda: r.resolve(jref))
    if there:
        S.check(got[0] == 'ok', 'what is there is returned', lambda: '%r: %r' % (jref, got))
        S.check(S.same(got[1], want), 'exactly the designated value', lambda: '%r gave %r' % (jref, got))
    else:
        S.check(got[0] == 'err', 'what is not there is an error', lambda: '%r gave %r' % (jref, got))


@case(dict(steps=3, ways=1), [dict(steps=3, ways=3), dict(steps=4, ways=2)])
def once(S):
    """every document is fetched at most once, through the hook, and never answers for another"""
    docs = {}
    kinds = [S.pick('doc%d' % i, ['dict', 'empty', 'missing'] if i == 0 else ['dict', 'list'] if i == 1 else ['dict'])
             for i in range(3)]
    hook = S.pick('hook', ['none', 'moved', 'swapped'])
    if hook == 'none':
        real, fn = dict((u, u) for u in URLS), None
    elif hook == 'moved':
        real = dict((u, 'http://other/' + str(i)) for i, u in enumerate(URLS))
        fn = real.get
    else:
        real = {URLS[0]: URLS[1], URLS[1]: URLS[0], URLS[2]: URLS[2]}
        fn = real.get
    content = []
    for i, u in enumerate(URLS):
        d = {'dict': {'x': ['v%d' % i, {}], 'y': {'v%d' % i: 0}}, 'empty': {}, 'list': ['v%d' % i], 'missing': None}[kinds[i]]
        content.append(d)
        if d is not None:
            docs[real[u]] = d
    src = Source(docs)
    other = Source(docs)
    r = Resolver(url_load_hook=fn, default_getter=src.getter)
    seen, times = [], {}
    for s in range(S.B.steps):
        i = S.pick('url%d' % s, range(3))
        jp = S.pick('at%d' % s, ['', '#/x/0', '#/y'])
        how = S.pick('getter%d' % s, ['default', 'class', 'instance'][:S.B.ways] if s else ['default', 'class', 'instance'])
        args = {'default': (), 'class': (other.getter, ), 'instance': (other.getter(real[URLS[i]]), )}[how]
        before = (len(src.fetched), len(other.fetched))
        got = S.trap(lambda: r.resolve(URLS[i] + jp, *args))
        new = src.fetched[before[0]:] + other.fetched[before[1]:]
        if i in seen:
            S.check(new == [], 'a document is fetched once', lambda: '%r' % (new, ))
        else:
            S.check(new == [real[URLS[i]]], 'fetched from where the hook says', lambda: '%r' % (new, ))
            S.check((len(src.fetched) > before[0]) == (how == 'default'), 'a given getter is used')
        if content[i] is None:
            S.check(got[0] == 'err', 'a missing document is an error')
            continue
        seen.append(i)
        there, want = designated(content[i], jp.split('/')[1:])
        if there:
            S.check(got[0] == 'ok' and S.same(got[1], want), 'the value of its own document', lambda: '%r' % (got, ))
        else:
            S.check(got[0] == 'err', 'what is not there is an error', lambda: '%r' % (got, ))


@case(dict(name=2), [dict(name=3)])
def own_url(S):
    """URLs that differ are different documents, whatever their spelling"""
    a = 'http://h/' + S.str('a', S.B.name, 1, alpha='ab./') + S.pick('ea', ['.json', '', '?a', '.json?a'])
    b = 'http://h/' + S.str('b', S.B.name, 1, alpha='ab./') + S.pick('eb', ['.json', '', '?a'])
    da, db = {'from': 'a'}, {'from': 'b'}
    log = []

    r = Resolver()

    class G(object):
        def __init__(self, url):
            self.url = url

        def __next__(self):
            log.append(self.url)
            return da if self.url == a else db

        next = __next__

    first = r.resolve(a, G)
    second = r.resolve(b + '#', G)
    S.check(S.same(first, da), 'the first document')
    if a == b:
        S.check(S.same(second, da) and len(log) == 1, 'the same document')
    else:
        S.check(S.same(second, db) and len(log) == 2, 'another document', lambda: '%r %r' % (a, b))
        S.check(r.resolve(a + '#/from', G) == 'a' and len(log) == 2, 'still the first document')
