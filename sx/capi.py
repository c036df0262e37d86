# -*- coding: utf-8 -*-
"""What a harness uses to make its inputs and state its assertions.

The same harness runs in two modes: SymS builds symbolic values and turns assertions into solver queries; ConS
(concrete) reads the values from an assignment and evaluates the assertions natively, on the unmodified code."""
PRINT = ''.join(chr(c) for c in range(32, 127)) + '\xe9'
NAME = PRINT                 # characters of names
URLC = ''.join(c for c in PRINT if c not in ' "<>\\^`{|}')


class Bounds(dict):
    __getattr__ = dict.__getitem__


class ReplayFailed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class Skip(Exception):
    """assumption does not hold in concrete mode"""


SCALARS = ('str', 'zero', 'int', 'true', 'false', 'float')
_CONST = {'zero': 0, 'int': 7, 'true': True, 'false': False, 'float': 1.5, 'estr': '', 'null': None}


class _Common(object):
    def __init__(self, bounds):
        self.B = Bounds(bounds)
        self.log = []
        self.hits = []

    def range(self, n):
        return range(n)

    # -- values of any JSON kind -------------------------------------------------
    def _kinds(self, name, kinds, maxlen, depth):
        """list of (constant or thunk)"""
        out = []
        for k in kinds:
            if k == 'str':
                out.append(self._thunk(lambda: self.str(name + '.s', maxlen)))
            elif k == 'elist':
                out.append(self._thunk(list))
            elif k == 'edict':
                out.append(self._thunk(self.mkdict))
            elif k == 'list':
                out.append(self._thunk(lambda: [self.any(name + '.0', maxlen, kinds if depth else SCALARS, depth - 1)]))
            elif k == 'list2':
                out.append(self._thunk(lambda: [self.any(name + '.%d' % i, maxlen, kinds if depth else SCALARS, depth - 1)
                                                for i in (0, 1)]))
            elif k == 'dict':
                out.append(self._thunk(lambda: self.mkdict([(
                    'k', self.any(name + '.k', maxlen, kinds if depth else SCALARS, depth - 1))])))
            elif k == 'bool':
                out.append(self._thunk(lambda: self.bool(name + '.b')))
            else:
                out.append(_CONST[k])
        return out

    def fail(self, label, detail=''):
        self.check(False, label, detail)

    def trap(self, fn, *exc):
        """('ok', value) or ('err', exception class name)"""
        try:
            return ('ok', fn())
        except (exc or (Exception,)) as e:
            return ('err', e)

    def raises(self, fn, exc, label):
        r = self.trap(fn)
        self.check(r[0] == 'err' and isinstance(r[1], exc), label)

    def known(self, finding, ok, label):
        """an assertion that is known to fail on the unchanged tree, for the inputs and at the place where the harness
        says so; reported under the name of that finding, and the path goes on. True if it holds here"""
        if ok:
            return True
        self.hits.append((finding, label))
        return False

    def returns(self, fn, label):
        """result of fn; an exception is a violation"""
        try:
            return fn()
        except Exception as e:
            self.fail(label, '%s: %s' % (type(e).__name__, e))


# ----------------------------------------------------------------------------------------------------------------
class ConS(_Common):
    """concrete mode; runs natively"""
    symbolic = False

    def __init__(self, bounds, env):
        _Common.__init__(self, bounds)
        self.env = env

    def mkdict(self, items=()):
        return dict(items)

    def _thunk(self, fn):
        return _T(fn)

    def _get(self, name, default):
        return self.env.get(name, default)

    def str(self, name, maxlen=2, minlen=0, alpha=NAME):
        return self._get(name, min(alpha) * minlen)

    def choice(self, name, options):
        return list(options)[self._get(name, 0)]

    def pick(self, name, options):
        x = list(options)[self._get(name, 0)]
        return x

    def bool(self, name):
        return bool(self._get(name, 0))

    flag = bool

    def int(self, name, values):
        return self._get(name, min(values))

    def length(self, name, lo, hi):
        return self._get(name, lo)

    def any(self, name, maxlen=1, kinds=SCALARS, depth=0):
        opts = self._kinds(name, kinds, maxlen, depth)
        x = opts[self._get(name + '.kind', 0)]
        return x.fn() if type(x) is _T else x

    def dict(self, name, entries, required=(), most=None, least=None, keys=None):
        d = {}
        for k, v in entries.items() if hasattr(entries, 'items') else entries:
            if k in required or self._get('%s.%s?' % (name, k), 0):
                d[k] = v() if callable(v) else v
        return d

    def map(self, name, keys, mk, least=0):
        return self.mkdict([(k, mk(i)) for i, k in enumerate(keys)])

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label, detail=''):
        self.log.append(label)
        if not c:
            raise ReplayFailed(label, detail() if callable(detail) else detail)

    def same(self, a, b):
        if type(a) is not type(b):
            ta, tb = _kind(a), _kind(b)
            if ta is None or ta != tb:
                return False
        if isinstance(a, dict):
            return len(a) == len(b) and all(_has(b, k) and self.same(v, _get(b, k)) for k, v in a.items())
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def eq(self, a, b):
        return self.same(a, b)

    def all(self, cs):
        return all(cs)

    def any_of(self, cs):
        return any(cs)

    def not_(self, c):
        return not c

    def fs(self, files):
        from . import vfs
        return vfs.native_on(files)

    def conc(self, x):
        return x

    def copy(self, x):
        import copy
        return copy.deepcopy(x)


class _T(object):
    def __init__(self, fn):
        self.fn = fn


def _kind(x):
    if isinstance(x, dict):
        return 'dict'
    if isinstance(x, list):
        return 'list'
    return None


def _has(d, k):
    if k not in d:
        return False
    for kk in d:
        if kk == k:
            return type(kk) is type(k)
    return False


def _get(d, k):
    return d[k]



def case(quick, thorough=None):
    """decorator for harness functions: bounds per tier; thorough is a list of increasing bounds"""
    def deco(fn):
        fn._sx_case = (quick, thorough or [])
        return fn
    return deco
