# -*- coding: utf-8 -*-
"""C24 locating and loading documents."""
from sx.capi import case
from pyopenapi.migration.getter import Getter, LocalGetter, SimpleGetter, DictGetter
from pyopenapi.migration.resolve import Resolver

ASSUMPTIONS = ['a modelled file system below /vfs holding any subset of the candidate files of a path; base names are '
               'any string of at most `name` characters out of "a", ".", "j", "-"; folder names have no extension',
               'document texts are samples of each syntax (parsing itself is json/yaml)']
WELL = ['resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml']
EXT = ['.json', '.yaml', '.yml']


def load(path):
    g = LocalGetter(path)
    return next(iter(g))


@case(dict(name=2), [dict(name=3)])
def located(S):
    """the file named, the first well-known file of a folder, or the path with an extension"""
    name = S.pick('called', ['n', 'swagger', 'resource_list'])
    base = '/vfs/' + (S.pick('folder', ['', 'd/', 'd.yaml/']) if name == 'n' else '') + (
        name + S.str('name', S.B.name, alpha='aj-') if name == 'n' else name)
    shape = S.pick('shape', ['file', 'bare'])
    scheme = S.pick('scheme', ['', 'file://']) if name == 'n' else ''
    files = [('/vfs/other.json', '{"x": "decoy"}'), (base + 'z.json', '{"x": "longer"}'), ('/vfs/d/e', ''), ('/vfs/d.yaml/e', '')]
    if shape == 'file':
        ext = S.pick('ext', EXT)
        path = base + ext
        have = []
        for i, e in enumerate(['', '.json', '.yaml', '.yml']):
            if S.pick('have%d' % i, [False, True]):
                have.append(base + ext if e == '' else base + e if e != ext else base + ext + e)
        more = base + ext + S.pick('more', ['.json', '.yaml', '.yml'])
        if path not in have and more not in have:
            have.append(more)
        want = path if path in have else None
    else:
        path = base
        have = []
        folder = S.pick('isfolder', [False, True])
        if folder:
            for i, w in enumerate(WELL):
                if S.pick('well%d' % i, [False, True]):
                    have.append(base + '/' + w)
        candidates = list(have)
        for i, e in enumerate(EXT):
            if S.pick('have%d' % i, [False, True]):
                have.append(base + e)
                candidates.append(base + e)
        want = candidates[0] if candidates else None
        if folder and S.pick('slash', [False, True]) and candidates and candidates[0][len(base)] == '/':
            path = base + '/'
    fs = S.fs(files + [(f, '{"x": "%d"}' % i) for i, f in enumerate(have)])
    got = S.trap(lambda: load(scheme + path))
    if want is None:
        S.check(got[0] == 'err', 'nothing is loaded in its place', lambda: '%r gave %r' % (path, got))
        S.check(fs.opened == [], 'nothing else is opened', lambda: '%r opened %r' % (path, fs.opened))
    else:
        S.check(got[0] == 'ok', 'what exists is loaded', lambda: '%r gave %r' % (path, got))
        n = [i for i, f in enumerate(have) if f == want]
        S.check(got[1] == {'x': str(n[0])}, 'the content of the file named',
                lambda: '%r of %r gave %r' % (path, have, got))
        S.check(len(fs.opened) == 1, 'one file is opened')


@case(dict(), [])
def well_known(S):
    """paths that name a well-known file, in folders with others"""
    w = S.pick('name', WELL)
    pre = S.pick('prefix', ['', 'my', 'x.'])
    path = '/vfs/d/' + pre + w
    have = [f for i, f in enumerate(WELL) if S.pick('have%d' % i, [False, True])]
    files = [('/vfs/d/' + f, 'x: %s' % f) for f in have]
    if pre and S.pick('there', [False, True]):
        files.append((path, 'x: itself'))
    S.fs(files)
    got = S.trap(lambda: load(S.pick('scheme', ['', 'file://']) + path))
    if any(p == path for p, c in files):
        S.check(got == ('ok', {'x': 'itself' if pre else w}), 'the file named', lambda: '%r gave %r' % (path, got))
    else:
        S.check(got[0] == 'err', 'nothing is loaded in its place', lambda: '%r gave %r' % (path, got))


TEXTS = [
    ('{"a": 1, "b": [true, null, 0.5, "x"]}', {'a': 1, 'b': [True, None, 0.5, 'x']}),
    ('{}', {}),
    ('a: 1\nb: [x, 2]\n', {'a': 1, 'b': ['x', 2]}),
    ('responses:\n  200:\n    description: ""\n', {'responses': {200: {'description': ''}}}),
    ('# comment\n{a: b}', {'a': 'b'}),
    ('{"\\u00e9": "\u00e9"}', {'\xe9': '\xe9'}),
]


class Fixed(Getter):
    def __init__(self, data):
        super(Fixed, self).__init__('x')
        self.urls = ['u']
        self.data = data

    def load(self, path):
        return self.data


def quoted(x):
    """numeric keys of YAML may be given as integers or as the strings they are in JSON"""
    if isinstance(x, dict):
        return dict((k if isinstance(k, str) else str(k), quoted(v)) for k, v in x.items())
    return [quoted(v) for v in x] if isinstance(x, list) else x


@case(dict(), [])
def content(S):
    """text as JSON or YAML, bytes, ready dictionaries; handed out once"""
    text, want = S.pick('text', TEXTS)
    how = S.pick('how', ['text', 'bytes', 'dict'])
    data = text if how == 'text' else text.encode('utf-8') if how == 'bytes' else want
    which = S.pick('getter', ['fixed', 'simple', 'dict', 'local'])
    if which == 'fixed':
        g = Fixed(data)
    elif which == 'simple':
        class Sub(SimpleGetter):
            __simple_getter_callback__ = lambda url: asked.append(url) or data  # noqa
        asked, url = [], S.pick('url', ['http://h/x/', 'http://h/x', 'http://h/x/?a'])
        g = Sub(url)
    elif which == 'dict':
        g = DictGetter(['http://h/x'], {'http://h/x': data})
    else:
        S.assume(how != 'dict')
        S.fs([('/vfs/a.yaml', data)])
        g = LocalGetter('/vfs/a.yaml')
    S.check(iter(g) is not None, 'a loader can be iterated')
    got = S.returns(lambda: next(g), 'content is loaded')
    S.check(got in (want, quoted(want)), 'the content', lambda: '%r gave %r' % (text, got))
    if which == 'simple':
        S.check(asked == [url], 'asked for under the url given', lambda: '%r, asked for %r' % (url, asked))
    S.raises(lambda: next(g), StopIteration, 'exactly once')
    S.raises(lambda: next(g), StopIteration, 'exactly once')


@case(dict(), [])
def rejected(S):
    """anything else is refused"""
    bad = S.pick('bad', [1, 1.5, True, None, ['x'], ('x', ), '{broken', b'{broken', '{"a": }'])
    g = Fixed(bad)
    S.raises(lambda: next(g), Exception, 'refused')
    S.raises(lambda: SimpleGetter(S.pick('path', [None, 1, {}, ['http://h/x']])), Exception, 'not a path')


@case(dict(n=2), [dict(n=3)])
def queue(S):
    """a loader with several documents hands them out in order, each once"""
    urls = [S.pick('url%d' % i, ['http://h/a', 'http://h/b', 'http://h/none']) for i in range(S.B.n)]
    docs = {'http://h/a': {'d': 'a'}, 'http://h/b': '{"d": "b"}'}
    g = DictGetter(list(urls), docs)
    for u in urls:
        got = S.returns(lambda: next(g), 'the next document')
        S.check(got == {'http://h/a': {'d': 'a'}, 'http://h/b': {'d': 'b'}, 'http://h/none': {}}[u], 'in order')
    S.raises(lambda: next(g), StopIteration, 'exactly once')


@case(dict(name=2), [dict(name=3)])
def by_url(S):
    """file URLs are read from the file system, whatever loader is the default"""
    name = 'n' + S.str('name', S.B.name, alpha='ab-')
    other = 'n' + S.str('other', 1, alpha='ab')
    ext = S.pick('ext', ['.json', '.yml'])
    files = [('/vfs/d/' + name + ext, '{"x": {"y": "it"}}')]
    if name != other:
        files.append(('/vfs/d/' + other + ext, '{"x": {"y": "other"}}'))
    fs = S.fs(files)
    hook = S.pick('hook', [False, True])
    r = Resolver(url_load_hook=(lambda u: 'file:///vfs/d/' + u[len('http://h/'):]) if hook else None)
    url = ('http://h/' if hook else 'file:///vfs/d/') + name + ext
    for jp, want in (('#/x/y', 'it'), ('', {'x': {'y': 'it'}}), ('#/x', {'y': 'it'})):
        got = S.returns(lambda: r.resolve(url + jp), 'loaded')
        S.check(got == want, 'from its file', lambda: '%r gave %r' % (url, got))
    S.check(len(fs.opened) == 1, 'opened once')
