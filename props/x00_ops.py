# -*- coding: utf-8 -*-
"""Operations for the self-test."""
import bisect
import collections
import copy
import functools
import itertools
import operator
import os.path
import re
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from six.moves.urllib.parse import urlparse, urlsplit, urlunparse, urljoin, urldefrag, quote, unquote

TABLE = str.maketrans({'a': 'b', '/': '~1', '~': None})
PAT = re.compile(r'^(a+|/)(.*)$')


def gen(x):
    for c in x:
        yield c + c


def recur(x):
    return x if not x else recur(x[1:]) + x[0]


def loop_while(x):
    out = ''
    while x:
        head, _, x = x.partition('/')
        out += head + '|'
    return out


def match_stmt(x):
    match x:
        case '':
            return 'empty'
        case 'a' | '/':
            return 'one'
        case str() if x.startswith('a'):
            return 'a...'
        case _:
            return 'other'


def walrus(x):
    if (n := x.find('/')) >= 0:
        return n
    return -2


def nested(x):
    def inner(c):
        nonlocal total
        total += 1
        return c == 'a'
    total = 0
    return [inner(c) for c in x], total


def with_try(x):
    try:
        return x.index('~')
    except ValueError:
        return 'none'
    finally:
        x = x + 'z'


def forelse(x):
    for i, c in enumerate(x):
        if c == '/':
            break
    else:
        return 'no slash'
    return i


def star(x):
    if not x:
        return None
    first, *rest = x
    return first, rest


def kwargs(**k):
    return sorted(k.items())


def cache(x, store={}):
    store.clear()
    store[x] = 1
    store.setdefault(x + 'a', 2)
    return [store.get('a'), store.get('/a'), x in store]


def groups(x):
    m = PAT.match(x)
    return m and (m.group(1), m.group(2), m.groups(), m.span(2))


def byparts(x):
    return [(''.join(g)) for _, g in itertools.groupby(x, lambda c: c in '/~')]


def sym_sorted(x):
    return sorted(x), sorted(set(x)), sorted(x, reverse=True), sorted(x, key=lambda c: (c != '/', c))


Point = namedtuple('Point', 'a b')

SYM = {
    'len': len, 'bool': bool, 'upper': lambda x: x.upper(), 'lower': lambda x: x.lower(), 'title': lambda x: x.title(),
    'capitalize': lambda x: x.capitalize(), 'swapcase': lambda x: x.swapcase(), 'strip': lambda x: x.strip(),
    'strip/': lambda x: x.strip('/'), 'lstrip': lambda x: x.lstrip('/~'), 'rstrip': lambda x: x.rstrip('a/'),
    'split': lambda x: x.split(), 'split/': lambda x: x.split('/'), 'split1': lambda x: x.split('/', 1), 'splitkw': lambda x: x.split('/', maxsplit=1),
    'rsplit1': lambda x: x.rsplit('/', 1), 'rsplit': lambda x: x.rsplit('a'), 'splitws1': lambda x: x.split(None, 1),
    'splitlines': lambda x: x.splitlines(), 'partition': lambda x: x.partition('/'), 'rpartition': lambda x: x.rpartition('/a'),
    'replace': lambda x: x.replace('~', '~0').replace('/', '~1'), 'replace2': lambda x: x.replace('aa', 'b'), 'replace0': lambda x: x.replace('', '-'),
    'replace1': lambda x: x.replace('a', '', 1), 'unescape': lambda x: x.replace('~1', '/').replace('~0', '~'),
    'find': lambda x: x.find('a/'), 'find1': lambda x: x.find('a', 1), 'find12': lambda x: x.find('a', 1, 2), 'rfind': lambda x: x.rfind('/'),
    'index': lambda x: x.index('/'), 'rindex': lambda x: x.rindex('a'), 'count': lambda x: x.count('a'), 'count2': lambda x: x.count('aa'),
    'startswith': lambda x: x.startswith('a'), 'startswith2': lambda x: x.startswith(('a', '/.')), 'startswith at': lambda x: x.startswith('a', 1),
    'endswith': lambda x: x.endswith('/'), 'endswith2': lambda x: x.endswith(('.a', '~1')), 'in': lambda x: 'a/' in x, 'not in': lambda x: '~' not in x,
    'in list': lambda x: x in ['a', '/', 'a/'], 'in tuple': lambda x: x in ('', '1'), 'in set': lambda x: x in {'a', '/a'}, 'in str': lambda x: x in 'a/.~',
    'in dict': lambda x: x in {'a': 1, '~1': 2}, 'lookup': lambda x: {'a': 1, '~1': 2}.get(x, 3), 'lookup2': lambda x: {'a': 1, '/': 2}[x],
    'get0': lambda x: x[0], 'get-1': lambda x: x[-1], 'slice1': lambda x: x[1:], 'slice-1': lambda x: x[:-1], 'step': lambda x: x[::2],
    'reverse': lambda x: x[::-1], 'slice': lambda x: x[1:3], 'slice-2': lambda x: x[-2:], 'iter': lambda x: [c for c in x], 'list': list, 'tuple': tuple,
    'set': lambda x: sorted(set(x)), 'reversed': lambda x: list(reversed(x)), 'join': lambda x: '-'.join(x), 'join2': lambda x: '/'.join(x.split('/')[::-1]),
    'removeprefix': lambda x: x.removeprefix('a/'), 'removesuffix': lambda x: x.removesuffix('a'), 'isalpha': lambda x: x.isalpha(),
    'isdigit': lambda x: x.isdigit(), 'isalnum': lambda x: x.isalnum(), 'isspace': lambda x: x.isspace(), 'isupper': lambda x: x.isupper(),
    'islower': lambda x: x.islower(), 'isascii': lambda x: x.isascii(), 'isidentifier': lambda x: x.isidentifier(), 'istitle': lambda x: x.istitle(),
    'zfill': lambda x: x.zfill(3), 'ljust': lambda x: x.ljust(4, '-'), 'rjust': lambda x: x.rjust(4, '-'), 'center': lambda x: x.center(4, '-'),
    'encode': lambda x: x.encode('utf-8'), 'decode': lambda x: x.encode().decode('ascii'), 'translate': lambda x: x.translate(TABLE),
    'format': lambda x: '{}-{}'.format(x, x), 'format named': lambda x: '{a}/{b!r}'.format(a=x, b=1), 'percent': lambda x: '%s:%s' % (x, 1),
    'percent1': lambda x: '[%s]' % x, 'percent d': lambda x: '%%%s' % (x, ), 'percent map': lambda x: '%(a)s' % {'a': x}, 'fstring': lambda x: f'<{x}>',
    'fstring pad': lambda x: f'{x:>4}', 'repr': lambda x: repr(x), 'repr f': lambda x: f'{x!r}', 'add': lambda x: x + '/' + x, 'mul': lambda x: x * 2,
    'str': str, 'eq': lambda x: x == 'a/', 'ne': lambda x: x != 'a', 'lt': lambda x: x < 'a/', 'le': lambda x: x <= 'a', 'gt': lambda x: x > '/', 'ge': lambda x: x >= '~1',
    'int': lambda x: int(x), 'int or': lambda x: int(x) if x.isdigit() else x, 'ord': lambda x: [ord(c) for c in x], 'chr': lambda x: ''.join(chr(ord(c) + 1) for c in x),
    'min': lambda x: min(x), 'max': lambda x: max(x, default=''), 'sorted': sym_sorted, 'any': lambda x: any(c == '/' for c in x),
    'all': lambda x: all(c in 'a/' for c in x), 'sum': lambda x: sum(1 for c in x if c != 'a'), 'enumerate': lambda x: [(i, c) for i, c in enumerate(x, 1)],
    'zip': lambda x: list(zip(x, x[1:])), 'map': lambda x: list(map(str.upper, x)), 'filter': lambda x: ''.join(filter(lambda c: c != '/', x)),
    'reduce': lambda x: functools.reduce(lambda a, c: c + a, x, ''), 'gen': lambda x: list(gen(x)), 'next': lambda x: next((c for c in x if c == 'a'), None),
    'recur': recur, 'while': loop_while, 'match': match_stmt, 'walrus': walrus, 'nested': nested, 'try': with_try, 'forelse': forelse, 'star': star,
    'dictcomp': lambda x: {c: i for i, c in enumerate(x)}, 'setcomp': lambda x: sorted({c.upper() for c in x}), 'kwargs': lambda x: kwargs(a=x, **{'b': x}),
    'dictkeys': lambda x: list({x: 1, 'a': 2}), 'cache': cache, 'counter': lambda x: sorted(Counter(x).items()), 'deque': lambda x: list(deque(x, 2)),
    'ordered': lambda x: list(OrderedDict([(x, 1), ('a', 2)]).items()), 'defaultdict': lambda x: sorted(group(x).items()), 'namedtuple': lambda x: Point(x, 1)._replace(b=x),
    'chain': lambda x: list(itertools.chain(x, ['-'], x)), 'takewhile': lambda x: ''.join(itertools.takewhile(lambda c: c != '/', x)),
    'dropwhile': lambda x: ''.join(itertools.dropwhile(lambda c: c == '/', x)), 'groupby': byparts, 'islice': lambda x: list(itertools.islice(x, 1, None)),
    'accumulate': lambda x: list(itertools.accumulate(x)), 'product': lambda x: [a + b for a, b in itertools.product(x, '1')], 'ifexp': lambda x: 'y' if x else 'n',
    'and or': lambda x: x and 'a' or x + '1', 'chained': lambda x: '/' <= x < 'a~', 'is None': lambda x: x is None, 'isinstance': lambda x: (isinstance(x, str), isinstance(x, (int, str)), isinstance(x, dict)),
    'type': lambda x: type(x) is str, 'hash': lambda x: hash(x) == hash(str(x)), 'setdefault': lambda x: setdef(x), 'itemgetter': lambda x: operator.itemgetter('k')({'k': x}),
    'methodcaller': lambda x: operator.methodcaller('upper')(x), 'partial': lambda x: functools.partial(str.replace, x, 'a')('b'), 'unbound': lambda x: str.split(x, '/'),
    'unbound2': lambda x: list(map(str.strip, x.split('/'))), 'deepcopy': lambda x: copy.deepcopy({'a': [x]}), 'getattr': lambda x: getattr(Point(1, 2), x, 'none'),
    'hasattr': lambda x: hasattr(Point(1, 2), x), 'print f': lambda x: '{0[a]}'.format({'a': x}), 'bytes': lambda x: bytes(x, 'ascii'),
    'lexists': lambda x: bisect.bisect(['/', 'a'], x), 'difference': lambda x: sorted(set(x) - set('a/')), 'union': lambda x: sorted(set(x) | {'-'}), 'inter': lambda x: sorted(set(x) & set('a/1')),
    'symdiff': lambda x: sorted(set(x) ^ set('a')), 'subset': lambda x: set(x) <= set('a/.'), 'frozen': lambda x: frozenset(x) == frozenset('a/'), 'dict.fromkeys': lambda x: list(dict.fromkeys(x)),
    'pop': lambda x: {'a': 1, '/': 2}.pop(x, None), 'del': lambda x: deleted(x), 'merge': lambda x: {**{'a': 1}, x: 2}, 'or': lambda x: {'a': 1} | {x: 2}, 'list+': lambda x: [x] + ['a'],
    'list.index': lambda x: ['a', '/', ''].index(x), 'list.count': lambda x: ['a', '/', 'a'].count(x), 'list.remove': lambda x: removed(x), 'splat': lambda x: [*x, *x], 'tuple cmp': lambda x: (x, 1) == ('a', 1), 'tuple lt': lambda x: (x, 1) < ('a', 1),
    'list in': lambda x: [x] in [['a'], ['/']], 'tuple key': lambda x: {('a', 1): 2}.get((x, 1)), 'unpack': lambda x: unpacked(x), 'int(str)': lambda x: str(len(x)), 'negidx': lambda x: x[-2:-1],
    'urlparse': lambda x: tuple(urlparse('http://h/' + x)), 'urlsplit': lambda x: tuple(urlsplit(x)), 'urlunparse': lambda x: urlunparse(urlparse('http://h/' + x + '#' + x)), 'urljoin': lambda x: urljoin('http://h/d/a', x),
    'urldefrag': lambda x: tuple(urldefrag('a#' + x)), 'posix join': lambda x: os.path.join('/d', x), 'posix split': lambda x: os.path.split(x), 'dirname': lambda x: os.path.dirname(x), 'basename': lambda x: os.path.basename(x),
    'splitext': lambda x: os.path.splitext(x), 'normpath': lambda x: os.path.normpath(x), 'isabs': lambda x: os.path.isabs(x),
    're match': lambda x: re.match('a+/', x) is not None, 're search': lambda x: re.search('/[a~]', x) is not None, 're fullmatch': lambda x: re.fullmatch('[a/]*', x) is not None, 're groups': groups,
    're sub': lambda x: re.sub('~', '~0', x), 're sub f': lambda x: re.sub('[~/]', lambda m: {'~': '~0', '/': '~1'}[m.group(0)], x), 're sub back': lambda x: re.sub('(a)(/)', r'\2\1', x), 're sub1': lambda x: re.sub('a', '', x, count=1),
    're split': lambda x: re.split('[/~]', x), 're split2': lambda x: re.split('(/)', x), 're findall': lambda x: re.findall('a.', x), 're finditer': lambda x: [m.start() for m in re.finditer('a', x)], 're escape': lambda x: re.match(re.escape('a.'), x) is None,
    're named': lambda x: (re.match('(?P<h>[^/]*)(?P<t>.*)', x) or {})['h'], 're flags': lambda x: re.match('A', x, re.I) is not None, 're end': lambda x: re.search(r'/$', x) is not None, 're lazy': lambda x: re.sub('a*?/', '-', x),
    're empty': lambda x: re.sub('a*', '-', x), 're lookahead': lambda x: re.sub('~(?=1)', '/', x), 're alt': lambda x: re.sub('~1|~0', lambda m: '/' if m.group() == '~1' else '~', x), 're word': lambda x: re.findall(r'\w+', x), 're subn': lambda x: re.subn('/', '', x),
}


def group(x):
    d = defaultdict(list)
    for i, c in enumerate(x):
        d[c].append(i)
    return d


def setdef(x):
    d = {'a': [0]}
    d.setdefault(x, []).append(1)
    return sorted(d.items())


def deleted(x):
    d = {'a': 1, '/': 2}
    del d[x]
    return d


def removed(x):
    l = ['a', '/', 'a']
    l.remove(x)
    return l


def unpacked(x):
    a, b = x
    return b + a


SYM2 = {
    'eq': lambda x, w: x == w, 'lt': lambda x, w: x < w, 'ge': lambda x, w: x >= w, 'in': lambda x, w: w in x, 'startswith': lambda x, w: x.startswith(w), 'endswith': lambda x, w: x.endswith(w),
    'find': lambda x, w: x.find(w), 'rfind': lambda x, w: x.rfind(w), 'count': lambda x, w: x.count(w), 'split': lambda x, w: x.split(w), 'rsplit': lambda x, w: x.rsplit(w, 1), 'partition': lambda x, w: x.partition(w),
    'rpartition': lambda x, w: x.rpartition(w), 'replace': lambda x, w: x.replace(w, '-'), 'replace2': lambda x, w: x.replace('a', w), 'join': lambda x, w: w.join(x.split('/')), 'strip': lambda x, w: x.strip(w),
    'lstrip': lambda x, w: x.lstrip(w), 'dict': lambda x, w: {x: 1, w: 2}, 'dict2': lambda x, w: {x: 1}.get(w), 'set': lambda x, w: sorted({x, w}), 'sorted': lambda x, w: sorted([x, w, 'a']), 'list.index': lambda x, w: [w, 'a'].index(x),
    'in list': lambda x, w: x in [w, 'b'], 'min': lambda x, w: min(x, w), 'max': lambda x, w: max([x, w], key=len), 'tuple': lambda x, w: (x, w) < (w, x), 'set ops': lambda x, w: sorted({x, 'a'} & {w, 'b'}), 'diff': lambda x, w: sorted({x, 'a'} - {w}),
    'sub': lambda x, w: {x} <= {w, 'a'}, 'zip': lambda x, w: [a == b for a, b in zip(x, w)], 'dict eq': lambda x, w: {x: 1, 'a': 2} == {w: 1, 'a': 2}, 'list eq': lambda x, w: [x, w] == [w, x], 'removeprefix': lambda x, w: x.removeprefix(w),
    'commonprefix': lambda x, w: os.path.commonprefix([x, w]), 'join path': lambda x, w: os.path.join(x, w), 'urljoin': lambda x, w: urljoin('http://h/' + x, w), 're': lambda x, w: re.sub(re.escape(w), '-', x) if w else x,
    'format': lambda x, w: '{}{}'.format(x, w).split(w) if w else x, 'dict order': lambda x, w: list({x: 1, 'a': 2, w: 3}.items()), 'pop': lambda x, w: popped(x, w), 'update': lambda x, w: updated(x, w), 'cmp': lambda x, w: (x > w) - (x < w),
    'counter': lambda x, w: sorted(Counter([x, w, 'a']).items()), 'dedupe': lambda x, w: list(dict.fromkeys([x, w, 'a'])), 'all': lambda x, w: all(a in w for a in x), 'slice': lambda x, w: x[len(w):], 'slice2': lambda x, w: x[:x.find(w)], 'mul': lambda x, w: x * len(w),
}


def popped(x, w):
    d = {x: 1, 'b': 2}
    return d.pop(w, None), d


def updated(x, w):
    d = {x: 1, 'a': 0}
    d.update({w: 2})
    return d


def walked(d, k):
    out = []
    for a in d:
        out.append(a)
        if a == k:
            break
    return out


def popall(d, k):
    d = dict(d)
    v = d.pop(k, 'none')
    return v, d


def delk(d, k):
    d = dict(d)
    del d[k]
    return d


def setk(d, k):
    d = dict(d)
    d[k] = 9
    return d


def upd(d, k):
    e = {'b': 5}
    e.update(d)
    e.setdefault(k, 7)
    return e


SYMD = {
    'len': lambda d, k: len(d), 'bool': lambda d, k: bool(d), 'in': lambda d, k: k in d, 'get': lambda d, k: d.get(k), 'get2': lambda d, k: d.get(k, -1), 'item': lambda d, k: d[k], 'keys': lambda d, k: list(d.keys()), 'values': lambda d, k: list(d.values()),
    'items': lambda d, k: list(d.items()), 'iter': lambda d, k: [a for a in d], 'sorted': lambda d, k: sorted(d), 'sorteditems': lambda d, k: sorted(d.items(), key=lambda kv: (-kv[1], kv[0])), 'walked': walked, 'pop': popall, 'del': delk, 'set': setk, 'upd': upd,
    'comp': lambda d, k: {a: v for a, v in d.items() if v and a != k}, 'invert': lambda d, k: {v: a for a, v in d.items()}, 'eq': lambda d, k: d == {'a': 1}, 'ne': lambda d, k: d != {k: 1}, 'copy': lambda d, k: d.copy(), 'dict': lambda d, k: dict(d, z=1),
    'splat': lambda d, k: {**d, k: 4}, 'or': lambda d, k: d | {k: 3}, 'keys and': lambda d, k: sorted(d.keys() & {k, 'a'}), 'keys minus': lambda d, k: sorted(d.keys() - {k}), 'keys or': lambda d, k: sorted(d.keys() | {k}), 'any': lambda d, k: any(d.values()),
    'all': lambda d, k: all(v > 0 for v in d.values()), 'sum': lambda d, k: sum(d.values()), 'max': lambda d, k: max(d.values(), default=-1), 'min': lambda d, k: min(d, key=d.get), 'next': lambda d, k: next(iter(d), None), 'set of': lambda d, k: sorted(set(d)),
    'list': lambda d, k: list(d), 'reversed': lambda d, k: list(reversed(d)), 'popitem': lambda d, k: dict(d).popitem(), 'zip': lambda d, k: list(zip(d, d.values())), 'enumerate': lambda d, k: [(i, a) for i, a in enumerate(d)], 'setdefault': lambda d, k: dict(d).setdefault(k, 8),
    'deepcopy': lambda d, k: copy.deepcopy(d), 'ordered': lambda d, k: list(OrderedDict(d).items()), 'isinstance': lambda d, k: isinstance(d, dict), 'kwargs': lambda d, k: kwargs(**d), 'filter': lambda d, k: dict(filter(lambda kv: kv[1], d.items())), 'map': lambda d, k: list(map(lambda a: d[a], d)),
    'isdisjoint': lambda d, k: d.keys().isdisjoint([k]), 'keys eq': lambda d, k: d.keys() == {k}, 'subset': lambda d, k: d.keys() <= {'a', k}, 'fromkeys': lambda d, k: dict.fromkeys(d, 0), 'chain': lambda d, k: list(itertools.chain(d, [k])), 'counter': lambda d, k: sorted(Counter(d.values()).items()),
}


# ------------------------------------------------------------------ wider language and library use
import abc as _abc
import collections.abc
import contextlib
import dataclasses
import enum
import heapq
import string
import six


@dataclasses.dataclass
class Data(object):
    a: str
    b: list = dataclasses.field(default_factory=list)


class Kind(enum.Enum):
    A = 'a'
    SLASH = '/'


class Lazy(object):
    __slots__ = ('x', )

    def __init__(self, x):
        self.x = x

    @property
    def head(self):
        return self.x[:1]

    @staticmethod
    def st(x):
        return x + '!'

    @classmethod
    def cl(cls, x):
        return cls(x).head

    def __call__(self, y):
        return self.x + y

    def __eq__(self, o):
        return isinstance(o, Lazy) and self.x == o.x

    def __hash__(self):
        return hash(self.x)

    def __contains__(self, c):
        return c in self.x

    def __iter__(self):
        yield from self.x

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


class Missing(dict):
    def __missing__(self, k):
        return k + '?'


@contextlib.contextmanager
def ctx(x):
    yield x + 'c'


def deco(f):
    @functools.wraps(f)
    def w(*a, **k):
        return '<' + f(*a, **k) + '>'
    return w


@deco
def decorated(x):
    """doc"""
    return x


@functools.singledispatch
def single(x):
    return 'other'


@single.register(str)
def _(x):
    return 'str ' + x


@single.register(dict)
def _(x):
    return 'dict'


@functools.lru_cache(maxsize=None)
def cached(x):
    return x + 'c'


def suppress(x):
    with contextlib.suppress(KeyError, ValueError):
        return {'a': 1}[x]
    return 'no'


def raised(x):
    try:
        try:
            return {'a': 1}[x]
        except KeyError as e:
            raise ValueError('no ' + e.args[0]) from e
    except (ValueError, TypeError) as e:
        return str(e)
    else:
        return 'else'


def sender(x):
    def g():
        out = []
        while True:
            c = yield out
            if c is None:
                return
            out.append(c)
    it = g()
    next(it)
    r = []
    for c in x:
        r = it.send(c)
    return r


def lists(x):
    l = list(x)
    l.insert(0, 'i')
    l.extend(x[:1])
    l[1:2] = ['s', 's']
    del l[-1]
    l.reverse()
    l.sort(key=lambda c: c == 'a')
    l += ['e']
    return l, l.count('a'), l[::2]


def listpop(x):
    l = x.split('/')
    return l.pop(), l.pop(0) if l else None, l


def stack(x):
    st, out = [x], []
    while st:
        y = st.pop()
        if '/' in y:
            st.extend(reversed(y.split('/', 1)))
        else:
            out.append(y)
    return out


def tokens(x):
    out, cur = [], []
    it = iter(x)
    for c in it:
        if c == '~':
            n = next(it, '')
            cur.append({'0': '~', '1': '/'}.get(n, '~' + n))
        elif c == '/':
            out.append(''.join(cur))
            cur = []
        else:
            cur.append(c)
    out.append(''.join(cur))
    return out


def index_loop(x):
    i, n = 0, 0
    while i < len(x):
        if x[i:i + 1] == 'a':
            n += 1
            i += 2
            continue
        i += 1
    return n, i


def table(x):
    h = {'a': lambda: 'A', '/': lambda: 'S'}
    return h.get(x, lambda: 'none')()


def chained_get(x):
    d = {'a': {'b': {'': 1, 'c': 2}}}
    return functools.reduce(lambda a, k: a.get(k, {}) if isinstance(a, dict) else {}, ['a', 'b', x], d)


def multi(x):
    a = b = x
    a, b = b + '1', a
    (c, d), *e = [(a, b), x]
    return a, b, c, d, e


def posonly(x, /, y='d', *args, z='k', **kw):
    return x, y, args, z, sorted(kw)


def comps(x):
    return [a + b for a in x for b in 'xy' if a != '/'], {a: [b for b in x if b > a] for a in x}, list((i, j) for i, j in zip(range(3), x))


def tpl(x):
    return string.Template('$a-$b').substitute(a=x, b='b')


def enumx(x):
    try:
        return Kind(x).name
    except ValueError:
        return 'none'


def chainmap(x):
    m = collections.ChainMap({'a': 1}, {'/': 2})
    return m.get(x), x in m


def userdict(x):
    u = collections.UserDict({'a': 1})
    u[x] = 2
    return sorted(u.items())


def matchseq(x):
    match x.split('/'):
        case [a]:
            return 'one', a
        case [a, b]:
            return 'two', a, b
        case [a, *rest]:
            return 'more', a, rest


def matchmap(x):
    match {'k': x, 'l': 1}:
        case {'k': 'a'}:
            return 'is a'
        case {'k': str(y), **rest}:
            return y, rest


def globalish(x):
    return [f(x) for f in (str.upper, len, lambda s: s + 's', operator.methodcaller('replace', 'a', 'b'))]


def heap(x):
    h = list(x)
    heapq.heapify(h)
    return [heapq.heappop(h) for _ in range(len(h))]


def obj_attrs(x):
    o = Lazy(x)
    d = Data(x)
    d.b.append(x)
    setattr(d, 'a', x + 'z')
    return o.head, Lazy.st(x), Lazy.cl(x), o('y'), o == Lazy('a'), 'a' in o, list(o), len(o), d == Data('az', ['a']), dataclasses.asdict(d), vars(d)['a'], bool(o)


SYM.update({
    'dataclass': obj_attrs, 'missing': lambda x: Missing({'a': 'A'})[x], 'ctx': lambda x: [y for y in [ctx(x)] for z in [y.__enter__()] if True and z][0] is not None, 'with': lambda x: withctx(x), 'deco': decorated, 'wraps': lambda x: decorated.__name__ + x,
    'singledispatch': lambda x: single(x), 'lru': lambda x: cached(x), 'suppress': suppress, 'raise from': raised, 'send': sender, 'lists': lists, 'listpop': listpop, 'stack': stack, 'tokens': tokens, 'index loop': index_loop, 'table': table,
    'chained get': chained_get, 'multi': multi, 'posonly': lambda x: (posonly(x), posonly(x, x, x, z=x, w=x)), 'comps': comps, 'template': tpl, 'enum': enumx, 'chainmap': chainmap, 'userdict': userdict, 'matchseq': matchseq, 'matchmap': matchmap, 'funcs': globalish,
    'heap': heap, 'abc': lambda x: (isinstance(x, collections.abc.Sequence), isinstance(x, collections.abc.Mapping), isinstance({x: 1}, collections.abc.Mapping), isinstance([x], collections.abc.Iterable), isinstance(x, collections.abc.Hashable)),
    'six': lambda x: (isinstance(x, six.string_types), isinstance(x, six.text_type), six.text_type(x), list(six.iteritems({x: 1})), list(six.iterkeys({x: 1})), six.ensure_str(x)), 'six moves': lambda x: list(six.moves.zip(x, six.moves.range(3))),
    'zip_longest': lambda x: list(itertools.zip_longest(x, 'ab')), 'starmap': lambda x: list(itertools.starmap(lambda a, b: a + b, zip(x, x))), 'pairwise': lambda x: list(itertools.pairwise(x)), 'compress': lambda x: list(itertools.compress(x, [1, 0, 1])), 'repeat': lambda x: list(itertools.repeat(x, 2)),
    'chain.from': lambda x: list(itertools.chain.from_iterable(x.split('/'))), 'filterfalse': lambda x: list(itertools.filterfalse(lambda c: c == 'a', x)), 'tee': lambda x: [list(t) for t in itertools.tee(x)], 'cycle': lambda x: list(zip(itertools.cycle(x), range(3))) if x else [], 'combinations': lambda x: [''.join(c) for c in itertools.combinations(x, 2)],
    'count': lambda x: list(zip(itertools.count(), x)), 'operator': lambda x: (operator.eq(x, 'a'), operator.contains(x, '/'), operator.add(x, 'b'), operator.not_(x), operator.truth(x), operator.getitem({'a': x}, 'a')), 'attrgetter': lambda x: operator.attrgetter('a')(Point(x, 1)),
    'sort key': lambda x: sorted(x.split('/'), key=len), 'sort lambda': lambda x: sorted([(1, x), (0, 'a')]), 'cmp_to_key': lambda x: sorted(x, key=functools.cmp_to_key(lambda a, b: (a < b) - (a > b))), 'any gen': lambda x: any(map('/'.__eq__, x)), 'all method': lambda x: all(map('a/'.__contains__, x)),
    'partialmethod': lambda x: functools.partial(operator.contains, 'a/b')(x), 'str.join gen': lambda x: '|'.join(c * 2 for c in x if c != 'a'), 'join map': lambda x: '/'.join(map(lambda t: t.replace('~', '~0'), x.split('/'))), 'dict zip': lambda x: dict(zip(x, range(3))), 'dict gen': lambda x: dict((c, 1) for c in x),
    'format spec': lambda x: '{:<4}|{:>3}'.format(x, x), 'format idx': lambda x: '{1}{0}'.format(x, 'b'), 'format **': lambda x: '{a}'.format(**{'a': x}), 'fstring expr': lambda x: f'{x.upper()}-{len(x)}', 'fstring nested': lambda x: f"{'a' if x else 'b'}{x:s}", 'percent r': lambda x: '%r' % x, 'percent 2': lambda x: '%s/%s' % tuple([x, x]),
    'ternary chain': lambda x: 1 if x == 'a' else 2 if x.startswith('a') else 3, 'not': lambda x: not x, 'double not': lambda x: not not x, 'or default': lambda x: x or 'default', 'and not': lambda x: x and not x.startswith('/'), 'is': lambda x: x is x, 'ids': lambda x: (x == '') is True, 'in chain': lambda x: 'a' in x and '/' in x or x == '~',
    'set add': lambda x: sorted(setadd(x)), 'set disc': lambda x: sorted(setdisc(x)), 'set update': lambda x: sorted(set('a').union(x, ['-'])), 'set isdisjoint': lambda x: set(x).isdisjoint('a/'), 'set issuperset': lambda x: set('a/.~1A ').issuperset(x), 'frozen key': lambda x: {frozenset('a'): 1}.get(frozenset(x)), 'len set': lambda x: len(set(x)) == len(x),
    'tuple index': lambda x: ('a', '/').index(x), 'tuple add': lambda x: (x, ) + ('b', ), 'in values': lambda x: x in {'k': 'a', 'l': '/'}.values(), 'in keys': lambda x: x in {'a': 1}.keys(), 'in items': lambda x: (x, 1) in {'a': 1}.items(), 'dict nested': lambda x: {'a': {'b': 1}}.get(x, {}).get('b'), 'dict pop': lambda x: {'a': 1}.pop(x), 'key error': lambda x: keyerr(x),
    'bytes cmp': lambda x: x.encode() == b'a/', 'isinstance bytes': lambda x: isinstance(x, bytes), 'int base': lambda x: int(x, 16), 'float': lambda x: float(x), 'round': lambda x: round(len(x) / 2, 1), 'divmod': lambda x: divmod(len(x), 2), 'range': lambda x: list(range(len(x))), 'slice obj': lambda x: x[slice(1, None)], 'id eq': lambda x: [x] == [x],
    'sorted rev': lambda x: ''.join(sorted(x, key=lambda c: c, reverse=True)), 'expandtabs': lambda x: x.expandtabs(), 'casefold': lambda x: x.casefold(), 'isdecimal': lambda x: x.isdecimal(), 'isprintable': lambda x: x.isprintable(), 'str cmp none': lambda x: x == None, 'str cmp int': lambda x: x == 1, 'str lt int': lambda x: x < 1, 'add int': lambda x: x + 1,  # noqa
    're compile': lambda x: re.compile('^/').sub('', x), 're verbose': lambda x: re.match(r'(?x) a  /', x) is not None, 're multi': lambda x: [m.group(1) for m in re.finditer('(a|/)', x)], 're noncap': lambda x: re.findall('(?:a|/)+', x), 're expand': lambda x: re.sub(r'(?P<s>/)', r'[\g<s>]', x), 're span': lambda x: (re.search('/', x) or re.search('', x)).span(), 're lookbehind': lambda x: re.sub('(?<=a)/', '-', x),
    're dot': lambda x: re.match('.{2}', x) is not None, 're class': lambda x: re.sub('[^a-z/]', '', x), 're greedy': lambda x: re.match('(.*)/', x) and re.match('(.*)/', x).group(1), 're backref': lambda x: re.search(r'(.)\1', x) is not None, 're lastindex': lambda x: [m.lastgroup for m in re.finditer('(?P<a>a)|(?P<s>/)', x)],
})


def withctx(x):
    with ctx(x) as y:
        return y


def setadd(x):
    s = {'a'}
    s.add(x)
    s |= {x + 'b'}
    return s


def setdisc(x):
    s = {'a', '/', ''}
    s.discard(x)
    s -= {'a'}
    return s


def keyerr(x):
    try:
        return {'a': 1}[x]
    except KeyError as e:
        return 'missing %s' % e
