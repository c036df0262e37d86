# -*- coding: utf-8 -*-
"""Symbolic stand-ins for Python values: bool, int, str, dict, set and lazily typed JSON values."""
import copy as _copy
from .core import (FVar, BAtom, BEq, BCmp, b_not, b_and, b_or, eng, Unsupported, ONE, ZERO, BOTH)

_str, _dict, _set, _int = str, dict, set, int


# ------------------------------------------------------------------ bool
class SymBool(object):
    __slots__ = ('b',)
    __class__ = property(lambda self: bool)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return eng().branch(self.b)

    def _sx_conc(self):
        return bool(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            if o is self:
                return True
            return bool(self) == bool(o)
        if o is True or (type(o) in (int, float) and o == 1):
            return mkbool(self.b)
        if o is False or (type(o) in (int, float) and o == 0):
            return mkbool(b_not(self.b))
        if isinstance(o, (SymInt, LazyVal)):
            return bool(self) == o
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<symbool>'

    def __str__(self):
        return str(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __and__(self, o):
        return mkbool(b_and([self.b, tob(o)]))

    def __or__(self, o):
        return mkbool(b_or([self.b, tob(o)]))

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ (bool(o) if isinstance(o, bool) else o)

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))


def _bool_ops():
    def mk(n):
        def f(self, *a):
            r = getattr(int(bool(self)), n)(*[int(bool(x)) if type(x) is SymBool else force(x) for x in a])
            return r
        return f
    for n in ('lt', 'le', 'gt', 'ge', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'neg', 'abs', 'float', 'mod', 'floordiv'):
        setattr(SymBool, '__%s__' % n, mk('__%s__' % n))


_bool_ops()


def mkbool(b):
    if b is True or b is False:
        return b
    b = eng().simp(b)
    if b is True or b is False:
        return b
    return SymBool(b)


def tob(x):
    """anything truth-like -> boolean term"""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.b
    return bool(x)


def sx_not(x):
    if x is True or x is False:
        return not x
    if type(x) is SymBool:
        return mkbool(b_not(x.b))
    if x is NotImplemented:
        return x
    return not x


# ------------------------------------------------------------------ int
class SymInt(object):
    """finite-domain integer"""
    __slots__ = ('v',)
    __class__ = property(lambda self: int)

    def __init__(self, v):
        self.v = v

    def _sx_conc(self):
        d = eng().dom[self.v.name]
        while len(d) > 1:
            x = min(d)
            if eng().branch(BAtom(self.v, frozenset([x]))):
                return x
            d = eng().dom[self.v.name]
        return min(d)

    def _cmp(self, o, f):
        if type(o) is bool or type(o) is SymBool:
            o = int(o)
        if type(o) in (int, float):
            d = eng().dom[self.v.name]
            return mkbool(BAtom(self.v, frozenset(x for x in d if f(x, o))))
        if isinstance(o, SymInt):
            return f(self._sx_conc(), o._sx_conc())
        return NotImplemented

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymInt):
            if o.v is self.v:
                return True
            return mkbool(BEq(self.v, o.v))
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        r = self._cmp(0, lambda a, b: a != b)
        return bool(r)

    def __hash__(self):
        return hash(self._sx_conc())

    def __index__(self):
        return self._sx_conc()

    __int__ = __index__

    def __float__(self):
        return float(self._sx_conc())

    def __repr__(self):
        return '<symint>'

    def __str__(self):
        return str(self._sx_conc())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return -self._sx_conc()

    def __abs__(self):
        return abs(self._sx_conc())


def _arith(name):
    def f(self, o):
        if hasattr(type(o), '_sx_conc'):
            o = o._sx_conc()
        return getattr(self._sx_conc(), name)(o)
    return f


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'pow'):
    setattr(SymInt, '__%s__' % _n, _arith('__%s__' % _n))
    setattr(SymInt, '__r%s__' % _n, _arith('__r%s__' % _n))


# ------------------------------------------------------------------ str
class Lazy(object):
    """string part of not yet decided length: characters chars[:len]"""
    __slots__ = ('lv', 'cs')

    def __init__(self, lv, cs):
        self.lv, self.cs = lv, cs

    def known(self):
        d = eng().dom[self.lv.name]
        return min(d) if len(d) == 1 else None

    def force(self):
        d = eng().dom[self.lv.name]
        while len(d) > 1:
            x = min(d)
            if eng().branch(BAtom(self.lv, frozenset([x]))):
                return x
            d = eng().dom[self.lv.name]
        return min(d)


class Choice(object):
    """string part that is one of a list of concrete strings"""
    __slots__ = ('v', 'opts')

    def __init__(self, v, opts):
        self.v, self.opts = v, opts

    def known(self):
        d = eng().dom[self.v.name]
        return self.opts[min(d)] if len(d) == 1 else None

    def force(self):
        d = eng().dom[self.v.name]
        while len(d) > 1:
            x = min(d)
            if eng().branch(BAtom(self.v, frozenset([x]))):
                return self.opts[x]
            d = eng().dom[self.v.name]
        return self.opts[min(d)]

    def where(self, f):
        d = eng().dom[self.v.name]
        return BAtom(self.v, frozenset(i for i in d if f(self.opts[i])))


def _cval(c):
    """concrete code of a char item or None"""
    if type(c) is _int:
        return c
    d = eng().dom[c.name]
    if len(d) == 1:
        return min(d)
    return None


def c_eq(a, b):
    if a is b:
        return True
    if type(a) is _int:
        if type(b) is _int:
            return a == b
        return eng().simp(BAtom(b, frozenset([a])))
    if type(b) is _int:
        return eng().simp(BAtom(a, frozenset([b])))
    return eng().simp(BEq(a, b))


def c_in(c, codes):
    if type(c) is _int:
        return c in codes
    return eng().simp(BAtom(c, codes))


def c_conc(c):
    """decide the character by forking over its domain"""
    if type(c) is _int:
        return c
    d = eng().dom[c.name]
    while len(d) > 1:
        x = min(d)
        if eng().branch(BAtom(c, frozenset([x]))):
            return x
        d = eng().dom[c.name]
    return min(d)


def codes(s):
    return frozenset(ord(c) for c in s)


class SymStr(object):
    __slots__ = ('_parts', '_flat')
    __class__ = property(lambda self: str)

    def __init__(self, parts, flat=None):
        self._parts = parts       # list of native str | FVar(char) | Lazy | Choice
        self._flat = flat

    # -- flattening
    def _chars(self):
        if self._flat is None:
            out = []
            for p in self._parts:
                t = type(p)
                if t is _str:
                    out.extend(ord(c) for c in p)
                elif t is FVar:
                    out.append(p)
                elif t is Lazy:
                    n = p.force()
                    out.extend(p.cs[:n])
                else:
                    out.extend(ord(c) for c in p.force())
            self._flat = tuple(out)
            self._parts = None
        return self._flat

    def _single(self):
        """the only part, when it is a Lazy or Choice not flattened yet"""
        if self._flat is None and len(self._parts) == 1 and type(self._parts[0]) in (Lazy, Choice):
            return self._parts[0]
        return None

    def _sx_conc(self):
        s = self._single()
        if s is not None and type(s) is Choice:
            return s.force()
        return ''.join(chr(c_conc(c)) for c in self._chars())

    # -- basics
    def __len__(self):
        return len(self._chars())

    def __bool__(self):
        if self._flat is not None:
            return bool(self._flat)
        lens = []
        for p in self._parts:
            t = type(p)
            if t is FVar or (t is _str and p):
                return True
            if t is Lazy:
                d = eng().dom[p.lv.name]
                lens.append(BAtom(p.lv, frozenset(x for x in d if x > 0)))
            elif t is Choice:
                lens.append(p.where(lambda s: s != ''))
        return eng().branch(b_or([eng().simp(x) for x in lens]))

    def __hash__(self):
        return hash(self._sx_conc())

    def __repr__(self):
        return '<symstr>'

    def __str__(self):
        return self._sx_conc()

    def __format__(self, spec):
        return format(self._sx_conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _eqb(self, o):
        """boolean term for self == o"""
        if o is self:
            return True
        s = self._single()
        if type(o) is _str:
            if s is not None:
                if type(s) is Choice:
                    return eng().simp(s.where(lambda x: x == o))
                d = eng().dom[s.lv.name]
                if len(o) not in d:
                    return False
                return b_and([eng().simp(BAtom(s.lv, frozenset([len(o)])))] +
                             [c_eq(c, ord(x)) for c, x in zip(s.cs, o)])
            a = self._chars()
            if len(a) != len(o):
                return False
            return b_and([c_eq(c, ord(x)) for c, x in zip(a, o)])
        so = o._single()
        if s is not None and type(s) is Choice and so is not None and type(so) is Choice:
            if s.opts == so.opts and len(set(s.opts)) == len(s.opts):
                return eng().simp(BEq(s.v, so.v))
            return b_or([b_and([eng().simp(s.where(lambda x, w=w: x == w)), eng().simp(so.where(lambda x, w=w: x == w))])
                         for w in set(s.opts) & set(so.opts)])
        if s is not None and type(s) is Choice:
            return o._eqb(s.force())
        if so is not None and type(so) is Choice:
            return self._eqb(so.force())
        a, b = self._chars(), o._chars()
        if len(a) != len(b):
            return False
        return b_and([c_eq(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if type(o) is LazyVal:
            o = o._sx_conc()
        if type(o) is _str or type(o) is SymStr:
            return mkbool(self._eqb(o))
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def _lt(self, o, strict):
        if type(o) not in (_str, SymStr):
            return NotImplemented
        a, b = self._chars(), chars_of(o)
        for x, y in zip(a, b):
            if c_eq(x, y) is True:
                continue
            if eng().branch(c_eq(x, y)):
                continue
            if type(x) is _int and type(y) is _int:
                return x < y
            if type(x) is _int:
                return eng().branch(BAtom(y, frozenset(k for k in eng().dom[y.name] if x < k)))
            if type(y) is _int:
                return eng().branch(BAtom(x, frozenset(k for k in eng().dom[x.name] if k < y)))
            return eng().branch(BCmp(x, y, True))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __add__(self, o):
        if type(o) not in (_str, SymStr):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if type(o) not in (_str, SymStr):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, n):
        return concat([self] * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return self._sx_conc() % args

    def __getitem__(self, i):
        a = self._chars()
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mkstr(a[i])
        return mkstr((a[i],))

    def __iter__(self):
        for c in self._chars():
            yield mkstr((c,))

    def __contains__(self, sub):
        return bool(mkbool(contains_b(self._chars(), chars_of(sub))))

    # -- searching
    def _at(self, i, sub):
        a = self._chars()
        if i < 0 or i + len(sub) > len(a):
            return False
        return b_and([c_eq(a[i + k], sub[k]) for k in range(len(sub))])

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        if start or end is not None:
            return lift(self[start:end]).startswith(prefix)
        if type(prefix) is _str and self._flat is None:
            s = self._single()
            if s is not None and type(s) is Choice:
                return eng().branch(eng().simp(s.where(lambda x: x.startswith(prefix))))
            h = self._parts[0] if self._parts else ''
            if type(h) is _str and len(h) >= len(prefix):
                return h.startswith(prefix)
            if s is not None and type(s) is Lazy:
                d = eng().dom[s.lv.name]
                ok = frozenset(x for x in d if x >= len(prefix))
                return eng().branch(b_and([eng().simp(BAtom(s.lv, ok))] + [c_eq(c, ord(x)) for c, x in zip(s.cs, prefix)])
                                    if ok else False)
        return eng().branch(self._at(0, chars_of(prefix)))

    def endswith(self, suffix, start=0, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        if start or end is not None:
            return lift(self[start:end]).endswith(suffix)
        if type(suffix) is _str and self._flat is None:
            s = self._single()
            if s is not None and type(s) is Choice:
                return eng().branch(eng().simp(s.where(lambda x: x.endswith(suffix))))
            h = self._parts[-1] if self._parts else ''
            if type(h) is _str and len(h) >= len(suffix):
                return h.endswith(suffix)
        sub = chars_of(suffix)
        return eng().branch(self._at(len(self._chars()) - len(sub), sub))

    def _bounds(self, start, end):
        n = len(self._chars())
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        lo, hi = self._bounds(start, end)
        for i in range(lo, hi - len(sub) + 1):
            if eng().branch(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        lo, hi = self._bounds(start, end)
        for i in range(hi - len(sub), lo - 1, -1):
            if eng().branch(self._at(i, sub)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = chars_of(sub)
        lo, hi = self._bounds(start, end)
        n, i = 0, lo
        if not sub:
            return hi - lo + 1
        while i + len(sub) <= hi:
            if eng().branch(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        a, old, new = self._chars(), chars_of(old), chars_of(new)
        out, i, n = [], 0, 0
        if not old:
            return self._sx_conc().replace('', mkstr(new) if type(new) is tuple else new, count)
        while i < len(a):
            if (count < 0 or n < count) and eng().branch(self._at(i, old)):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(a[i])
                i += 1
        return mkstr(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._sx_conc().split(None, maxsplit)
        a, sep = self._chars(), chars_of(sep)
        if not sep:
            raise ValueError('empty separator')
        out, cur, i = [], [], 0
        while i < len(a):
            if (maxsplit < 0 or len(out) < maxsplit) and eng().branch(self._at(i, sep)):
                out.append(mkstr(tuple(cur)))
                cur = []
                i += len(sep)
            else:
                cur.append(a[i])
                i += 1
        out.append(mkstr(tuple(cur)))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._sx_conc().rsplit(None, maxsplit)
        if maxsplit < 0:
            # splitting from the right differs only for self-overlapping separators
            sc = chars_of(sep)
            if len(sc) == 1:
                return self.split(sep)
        a, sep = self._chars(), chars_of(sep)
        if not sep:
            raise ValueError('empty separator')
        out, hi, i = [], len(a), len(a) - len(sep)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sep) <= hi and eng().branch(self._at(i, sep)):
                out.append(mkstr(a[i + len(sep):hi]))
                hi = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mkstr(a[:hi]))
        out.reverse()
        return out

    def partition(self, sep):
        if not len(sep):
            raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0:
            return (mkstr(self._chars()), '', '')
        n = len(chars_of(sep))
        return (self[:i], sep, self[i + n:])

    def rpartition(self, sep):
        if not len(sep):
            raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mkstr(self._chars()))
        n = len(chars_of(sep))
        return (self[:i], sep, self[i + n:])

    def splitlines(self, keepends=False):
        return self._sx_conc().splitlines(keepends)

    def _stripset(self, chars):
        if chars is None:
            return frozenset(c for c in range(256) if chr(c).isspace())
        return frozenset(ord(c) for c in conc(chars))

    def lstrip(self, chars=None):
        a, s = self._chars(), self._stripset(chars)
        i = 0
        while i < len(a) and eng().branch(c_in(a[i], s)):
            i += 1
        return mkstr(a[i:])

    def rstrip(self, chars=None):
        a, s = self._chars(), self._stripset(chars)
        i = len(a)
        while i > 0 and eng().branch(c_in(a[i - 1], s)):
            i -= 1
        return mkstr(a[:i])

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def removeprefix(self, p):
        return self[len(chars_of(p)):] if chars_of(p) and self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(chars_of(p))] if chars_of(p) and self.endswith(p) else self

    def join(self, it):
        out = []
        for x in it:
            if out:
                out.append(self)
            out.append(x)
        return concat(out)

    def _map(self, f):
        out = []
        for c in self._chars():
            if type(c) is _int:
                out.extend(ord(x) for x in f(chr(c)))
                continue
            same = frozenset(k for k in eng().dom[c.name] if f(chr(k)) == chr(k))
            if eng().branch(c_in(c, same)):
                out.append(c)
            else:
                out.extend(ord(x) for x in f(chr(c_conc(c))))
        return mkstr(tuple(out))

    def lower(self):
        return self._map(_str.lower)

    def upper(self):
        return self._map(_str.upper)

    def casefold(self):
        return self._map(_str.casefold)

    def swapcase(self):
        return self._map(_str.swapcase)

    def _all(self, f, empty=False):
        a = self._chars()
        if not a:
            return empty
        s = frozenset(k for k in range(256) if f(chr(k)))
        return eng().branch(b_and([c_in(c, s) for c in a]))

    def isascii(self):
        return self._all(lambda c: ord(c) < 128, True)

    def isalpha(self):
        return self._all(_str.isalpha)

    def isdigit(self):
        return self._all(_str.isdigit)

    def isdecimal(self):
        return self._all(_str.isdecimal)

    def isnumeric(self):
        return self._all(_str.isnumeric)

    def isalnum(self):
        return self._all(_str.isalnum)

    def isspace(self):
        return self._all(_str.isspace)

    def isupper(self):
        return self._sx_conc().isupper()

    def islower(self):
        return self._sx_conc().islower()

    def title(self):
        return self._sx_conc().title()

    def capitalize(self):
        return self._sx_conc().capitalize()

    def zfill(self, n):
        return self._sx_conc().zfill(n)

    def encode(self, *a):
        return self._sx_conc().encode(*a)

    def translate(self, t):
        t = conc(t)
        t = dict((k, t[k]) for k in t.keys()) if isinstance(t, dict) else t
        return self._map(lambda c: c.translate(t))

    def ljust(self, n, fill=' '):
        a = self._chars()
        return mkstr(a + tuple(chars_of(fill)) * (n - len(a)))

    def rjust(self, n, fill=' '):
        a = self._chars()
        return mkstr(tuple(chars_of(fill)) * (n - len(a)) + a)

    def format(self, *a, **k):
        return self._sx_conc().format(*a, **k)

    def __getattr__(self, name):
        if name[:2] != '__' and hasattr(_str, name):
            return getattr(self._sx_conc(), name)
        raise AttributeError("'str' object has no attribute %r" % name)


STR_METHODS = set(n for n in dir(SymStr) if not n.startswith('_'))


def chars_of(s):
    if type(s) is SymStr:
        return s._chars()
    if type(s) is LazyVal:
        return chars_of(s._sx_conc())
    if type(s) is _str:
        return tuple(ord(c) for c in s)
    raise TypeError('must be str, not ' + type(s).__name__)


def contains_b(a, sub):
    if not sub:
        return True
    n = len(sub)
    return b_or([b_and([c_eq(a[i + k], sub[k]) for k in range(n)]) for i in range(len(a) - n + 1)])


def mkstr(flat):
    """native str when all characters are known"""
    if all(type(c) is _int for c in flat):
        return ''.join(map(chr, flat))
    vals = [_cval(c) for c in flat]
    if None not in vals:
        return ''.join(map(chr, vals))
    return SymStr(None, tuple(flat))


def lift(s):
    return s if type(s) is SymStr else SymStr([s])


def concat(xs):
    parts, sym = [], False
    for x in xs:
        if type(x) is _str:
            if x:
                parts.append(x)
        elif type(x) is SymStr:
            sym = True
            if x._flat is not None:
                for c in x._flat:
                    parts.append(chr(c) if type(c) is _int else c)
            else:
                parts.extend(x._parts)
        elif type(x) is LazyVal:
            y = x._sx_conc()
            if type(y) not in (_str, SymStr):
                raise TypeError('expected str instance')
            r = concat([y])
            if type(r) is SymStr:
                sym = True
                parts.extend(r._parts)
            else:
                parts.append(r)
        else:
            raise TypeError('sequence item: expected str instance, {} found'.format(type(x).__name__))
    if not sym:
        return ''.join(parts)
    return SymStr(parts)


# ------------------------------------------------------------------ lazily typed JSON scalar / container
class LazyVal(object):
    """a JSON value whose kind is decided when first observed; `mk(i)` builds alternative i"""
    __slots__ = ('v', 'mk', 'val', 'done')

    def __init__(self, v, mk):
        self.v, self.mk, self.val, self.done = v, mk, None, False

    def _sx_conc(self):
        if not self.done:
            d = eng().dom[self.v.name]
            while len(d) > 1:
                x = min(d)
                if eng().branch(BAtom(self.v, frozenset([x]))):
                    break
                d = eng().dom[self.v.name]
            x = self.mk[min(eng().dom[self.v.name])]
            self.val = x.get() if type(x) is Thunk else x
            self.done = True
        return self.val

    @property
    def __class__(self):
        return self._sx_conc().__class__

    def __getattr__(self, name):
        return getattr(self._sx_conc(), name)

    def __hash__(self):
        return hash(self._sx_conc())

    def __bool__(self):
        return bool(self._sx_conc())

    def __repr__(self):
        return '<lazy>'

    def __str__(self):
        return str(self._sx_conc())

    def __copy__(self):
        if not self.done:
            return self
        return _copy.copy(self.val)

    def __deepcopy__(self, memo):
        if not self.done:
            if not any(type(x) is Thunk for x in self.mk):
                return self
            return LazyVal(self.v, [_copy.deepcopy(x, memo) for x in self.mk])
        return _copy.deepcopy(self.val, memo)

    def __eq__(self, o):
        if o is self:
            return True
        return self._sx_conc() == (o._sx_conc() if type(o) is LazyVal else o)

    def __ne__(self, o):
        return sx_not(self.__eq__(o))


def _fwd(n):
    def f(self, *a):
        m = getattr(type(self._sx_conc()), n, None)
        if m is None:
            raise TypeError('unsupported operation ' + n)
        return m(self._sx_conc(), *a)
    return f


for _n in ('lt', 'le', 'gt', 'ge', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'len', 'iter', 'getitem', 'contains',
           'int', 'float', 'index', 'setitem', 'delitem', 'mod'):
    setattr(LazyVal, '__%s__' % _n, _fwd('__%s__' % _n))


def is_sym(x):
    return type(x) in SYM


SYM = (SymStr, SymInt, SymBool, LazyVal)


def force(x):
    """decide the kind of a lazily typed value, keep everything else"""
    return x._sx_conc() if type(x) is LazyVal else x


def conc(x):
    """decide the value completely"""
    while type(x) in SYM:
        x = x._sx_conc()
    return x


# ------------------------------------------------------------------ dict
class Thunk(object):
    """value of an optional entry, built when the entry turns out to be present"""
    __slots__ = ('fn', 'val', 'deps')

    def __init__(self, fn):
        self.fn, self.val, self.deps = fn, None, None

    def get(self):
        if self.fn is not None:
            f, self.fn = self.fn, None
            self.val = f()
            for t, memo in self.deps or ():      # copies taken earlier: must not see later changes
                if t.fn is not None:
                    t._set(_copy.deepcopy(self.val, memo))
            self.deps = None
        return self.val

    def _set(self, val):
        self.fn = lambda: val
        self.get()

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is None:
            if self.fn is None:
                return _copy.deepcopy(self.val, memo)
            r = memo[id(self)] = Thunk(None)
            r.fn = lambda: self._pull(r)
            self.deps = (self.deps or []) + [(r, memo)]
        return r

    def _pull(self, r):
        memo = [m for t, m in self.deps or () if t is r]
        self.deps = [(t, m) for t, m in self.deps or () if t is not r]
        return _copy.deepcopy(self.get(), memo[0] if memo else {})


class _E(object):
    __slots__ = ('k', 'v', 'p')

    def __init__(self, k, v, p):
        self.k, self.v, self.p = k, v, p


class SDict(object):
    """insertion-ordered mapping whose keys may be symbolic and whose entries may be optional"""
    _sx_default = None

    def __init__(self, *a, **kw):
        self._d = {}
        self._e = None
        if a or kw:
            self.update(*a, **kw)

    @property
    def __class__(self):
        t = type(self)
        return _dict if t in (SDict, SDefaultDict) else t

    # representation: self._e is None -> all keys native and present, in self._d
    def _slow(self):
        if self._e is None:
            self._e = [_E(k, v, True) for k, v in self._d.items()]
            self._d = None

    def _add_optional(self, k, v, p):
        """p: boolean variable, or True; v: value or Thunk"""
        if p is True and type(v) is Thunk:
            v = v.get()
        self._slow()
        self._e.append(_E(k, v, p))

    def _present(self, e):
        if e.p is True:
            return True
        if eng().branch(BAtom(e.p, ONE)):
            e.p = True
            if type(e.v) is Thunk:
                e.v = e.v.get()
            return True
        for i, x in enumerate(self._e):
            if x is e:
                del self._e[i]
                break
        return False

    def _settle(self):
        """decide the presence of every entry; back to the fast form when all keys are native"""
        if self._e is None:
            return
        for e in list(self._e):
            if e.p is not True:
                self._present(e)
        if all(type(e.k) not in SYM for e in self._e):
            self._d = dict((e.k, e.v) for e in self._e)
            self._e = None

    @staticmethod
    def _keq(a, b):
        ta, tb = type(a), type(b)
        if ta not in SYM and tb not in SYM:
            if ta is SObj or tb is SObj:
                return a is b
            return a == b and hash(a) == hash(b)
        return bool(a == b)

    def _find(self, k):
        k = force(k)
        if self._e is None:
            if type(k) not in SYM:
                try:
                    return self._d.get(k, _MISS)
                except TypeError:
                    raise
            for kk in self._d:
                if self._keq(kk, k):
                    return self._d[kk]
            return _MISS
        e = self._entry(k)
        return _MISS if e is None else e.v

    def _entry(self, k):
        if type(k) not in SYM:
            hash(k)
            for e in self._e:
                if type(e.k) not in SYM and e.k == k:
                    return e if self._present(e) else None
            for e in list(self._e):
                if type(e.k) in SYM and self._keq(e.k, k):
                    return e if self._present(e) else None
            return None
        for e in list(self._e):
            if self._keq(e.k, k):
                return e if self._present(e) else None
        return None

    def __getitem__(self, k):
        r = self._find(k)
        if r is _MISS:
            if hasattr(type(self), '__missing__'):
                return type(self).__missing__(self, k)
            raise KeyError(k)
        return r

    def get(self, k, default=None):
        r = self._find(k)
        return default if r is _MISS else r

    def __contains__(self, k):
        return self._find(k) is not _MISS

    def has_key(self, k):
        return k in self

    def __setitem__(self, k, v):
        k = force(k)
        if self._e is None:
            if type(k) not in SYM:
                self._d[k] = v
                return
            for kk in self._d:
                if self._keq(kk, k):
                    self._d[kk] = v
                    return
            self._slow()
            self._e.append(_E(k, v, True))
            return
        e = self._entry(k)
        if e is not None:
            e.v = v
        else:
            self._e.append(_E(k, v, True))

    def __delitem__(self, k):
        k = force(k)
        if self._e is None:
            if type(k) not in SYM:
                del self._d[k]
                return
            for kk in self._d:
                if self._keq(kk, k):
                    del self._d[kk]
                    return
            raise KeyError(k)
        e = self._entry(k)
        if e is None:
            raise KeyError(k)
        self._e = [x for x in self._e if x is not e]

    def pop(self, k, *d):
        r = self._find(k)
        if r is _MISS:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return r

    def popitem(self):
        self._settle()
        if not len(self):
            raise KeyError('popitem(): dictionary is empty')
        k = list(self)[-1]
        return k, self.pop(k)

    def setdefault(self, k, d=None):
        r = self._find(k)
        if r is _MISS:
            self[k] = d
            return d
        return r

    def clear(self):
        self._d, self._e = {}, None

    def _rawkeys(self):
        self._settle()
        if self._e is None:
            return list(self._d)
        return [e.k for e in self._e]

    def _rawitems(self):
        self._settle()
        if self._e is None:
            return list(self._d.items())
        return [(e.k, e.v) for e in self._e]

    def _walk(self, f):
        self._settle()
        n = len(self)
        if self._e is None:
            for k in list(self._d):
                if len(self) != n:
                    raise RuntimeError('dictionary changed size during iteration')
                yield f(k, self._d[k])
        else:
            for e in list(self._e):
                if len(self) != n:
                    raise RuntimeError('dictionary changed size during iteration')
                yield f(e.k, e.v)

    def __iter__(self):
        return self._walk(lambda k, v: k)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def keys(self):
        return KeysView(self)

    def items(self):
        return ItemsView(self)

    def values(self):
        return ValuesView(self)

    def __len__(self):
        self._settle()
        return len(self._d) if self._e is None else len(self._e)

    def __bool__(self):
        if self._e is not None:
            for e in self._e:
                if e.p is True:
                    return True
        return len(self) > 0

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, SDict):
                for k, v in o._rawitems():
                    self[k] = v
            elif isinstance(o, _dict) or hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        n = SDict()
        self._copy_into(n)
        return n

    def _copy_into(self, n):
        if self._e is None:
            n._d = dict(self._d)
        else:
            n._e = [_E(e.k, e.v, e.p) for e in self._e]
            n._d = None

    def __copy__(self):
        n = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            if k not in ('_d', '_e'):
                n.__dict__[k] = v
        n._d, n._e = {}, None
        self._copy_into(n)
        return n

    def __deepcopy__(self, memo):
        n = type(self).__new__(type(self))
        memo[id(self)] = n
        for k, v in self.__dict__.items():
            if k not in ('_d', '_e'):
                n.__dict__[k] = _copy.deepcopy(v, memo)
        if self._e is None:
            n._e = None
            n._d = dict((_copy.deepcopy(k, memo), _copy.deepcopy(v, memo)) for k, v in self._d.items())
        else:
            n._d = None
            n._e = [_E(e.k, _copy.deepcopy(e.v, memo), e.p) for e in self._e]
        return n

    def __eq__(self, o):
        o = force(o)
        if o is self:
            return True
        if isinstance(o, _dict) and not isinstance(o, SDict):
            o = SDict(o)
        if not isinstance(o, SDict):
            return NotImplemented
        a, b = self._rawitems(), o._rawitems()
        if len(a) != len(b):
            return False
        for k, v in a:
            w = o._find(k)
            if w is _MISS or not (v is w or v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __ror__(self, o):
        n = SDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        if self._e is None:
            return repr(self._d)
        return '<symdict {}>'.format([e.k for e in self._e])

    @classmethod
    def fromkeys(cls, it, v=None):
        n = cls()
        for k in it:
            n[k] = v
        return n

    # OrderedDict
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            rest = self._rawitems()
            self.clear()
            self[k] = v
            for kk, vv in rest:
                self[kk] = vv


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v


class SObj(object):
    """marker type, never instantiated"""


_MISS = object()


class _View(object):
    def __init__(self, d):
        self._m = d

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return bool(self._m)

    def __repr__(self):
        return '<view>'


class KeysView(_View):
    def __iter__(self):
        return iter(self._m)

    def __reversed__(self):
        return reversed(self._m)

    def __contains__(self, k):
        return k in self._m

    def _s(self):
        return SSet(self._m._rawkeys())

    def __and__(self, o):
        return self._s() & o

    def __or__(self, o):
        return self._s() | o

    def __sub__(self, o):
        return self._s() - o

    def __xor__(self, o):
        return self._s() ^ o

    def __eq__(self, o):
        return self._s() == SSet(o)

    def __ne__(self, o):
        return not (self == o)

    def __le__(self, o):
        return self._s() <= SSet(o)

    def __ge__(self, o):
        return self._s() >= SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self

    def __rand__(self, o):
        return SSet(o) & self

    def __ror__(self, o):
        return SSet(o) | self

    def isdisjoint(self, o):
        return self._s().isdisjoint(o)


class ItemsView(_View):
    def __iter__(self):
        return self._m._walk(lambda k, v: (k, v))

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, kv):
        r = self._m._find(kv[0])
        return r is not _MISS and bool(r == kv[1])


class ValuesView(_View):
    def __iter__(self):
        return self._m._walk(lambda k, v: v)

    def __reversed__(self):
        return iter(list(self)[::-1])


# ------------------------------------------------------------------ set
class SSet(object):
    """set (or frozenset) of possibly symbolic elements, kept in insertion order"""
    _frozen = False

    def __init__(self, it=()):
        self._l = []
        self._n = set()
        self._anysym = False
        for x in it:
            self._put(x)

    @property
    def __class__(self):
        return _set if type(self) is SSet else frozenset if type(self) is SFrozen else type(self)

    def _has(self, x):
        x = force(x)
        if type(x) not in SYM:
            if type(x) is SFrozen:
                return any(type(y) is SFrozen and y == x for y in self._l)
            if x in self._n:
                return True
            if self._anysym:
                return any(type(y) in SYM and bool(y == x) for y in self._l)
            return False
        for y in self._l:
            if y is x or bool(y == x):
                return True
        return False

    def _put(self, x):
        x = force(x)
        if self._has(x):
            return
        self._l.append(x)
        if type(x) in SYM:
            self._anysym = True
        elif type(x) is not SFrozen:
            self._n.add(x)

    def add(self, x):
        self._put(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self._put(x)

    def _without(self, x):
        x = force(x)
        for i, y in enumerate(self._l):
            if y is x or (type(y) == type(x) or type(y) in SYM or type(x) in SYM) and bool(y == x):
                del self._l[i]
                if type(y) not in SYM:
                    self._n.discard(y)
                return True
        return False

    def discard(self, x):
        self._without(x)

    def remove(self, x):
        if not self._without(x):
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError('pop from an empty set')
        x = self._l.pop(0)
        if type(x) not in SYM:
            self._n.discard(x)
        return x

    def clear(self):
        self._l, self._n = [], set()

    def copy(self):
        return type(self)(self._l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return type(self)(_copy.deepcopy(x, memo) for x in self._l)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __contains__(self, x):
        return self._has(x)

    def _mk(self, it):
        return SSet(it) if not self._frozen else SFrozen(it)

    def __and__(self, o):
        o = SSet(o)
        return self._mk(x for x in self._l if x in o)

    def __or__(self, o):
        return self._mk(self._l + list(o))

    def __sub__(self, o):
        o = SSet(o)
        return self._mk(x for x in self._l if x not in o)

    def __xor__(self, o):
        o = SSet(o)
        return self._mk([x for x in self._l if x not in o] + [x for x in o if x not in self])

    def __rand__(self, o):
        return SSet(o) & self

    def __ror__(self, o):
        return SSet(o) | self

    def __rsub__(self, o):
        return SSet(o) - self

    def __iand__(self, o):
        return self & o

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def union(self, *os):
        r = self._mk(self._l)
        for o in os:
            r = r | o
        return r

    def difference(self, *os):
        r = self._mk(self._l)
        for o in os:
            r = r - o
        return r

    def symmetric_difference(self, o):
        return self ^ o

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, o):
        r = self & o
        self._l, self._n, self._anysym = r._l, r._n, r._anysym

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if isinstance(o, (SSet, SFrozen, _set, frozenset)):
            return len(self) == len(o) and self.issubset(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '<set {}>'.format(self._l)


class SFrozen(SSet):
    _frozen = True

    def __hash__(self):
        return hash(frozenset(conc(x) for x in self._l))
