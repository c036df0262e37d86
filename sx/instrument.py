# -*- coding: utf-8 -*-
"""Loads Python modules from source with their AST instrumented, so that they run on symbolic values.

Instrumented: everything under /repo/pyopenapi except tests (read from the working tree on every run), the
property modules in /verif/props, and the standard-library modules pyopenapi computes strings with."""
import ast
import builtins
import collections
import collections.abc
import copy
import functools
import importlib
import operator
import os
import re
import string as _string_mod
import sys
import types

from . import core, values
from .values import (SymStr, SymInt, SymBool, LazyVal, SDict, SDefaultDict, SSet, SFrozen, SYM, is_sym, force, conc,
                     lift, concat, mkstr, chars_of, contains_b, mkbool, b_or, c_eq, c_in, c_conc)

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD = {
    'urllib.parse': os.path.join(os.path.dirname(os.__file__), 'urllib', 'parse.py'),
    'posixpath': os.path.join(os.path.dirname(os.__file__), 'posixpath.py'),
    'genericpath': os.path.join(os.path.dirname(os.__file__), 'genericpath.py'),
    'pathlib': os.path.join(VERIF, 'sx', 'model_pathlib.py'),
    'bisect': os.path.join(os.path.dirname(os.__file__), 'bisect.py'),
}

collections.abc.MutableMapping.register(SDict)      # for mapping patterns
ENTERED = set()     # functions executed by the instrumented code


# ---------------------------------------------------------------- AST transformation
NOWRAP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '_sxh_call'}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def name(self, n, ref):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), ref)

    def call(self, fn, args, ref):
        return ast.copy_location(ast.Call(func=self.name(fn, ref), args=args, keywords=[]), ref)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOWRAP:
            return node
        return ast.copy_location(ast.Call(func=self.name('_sxh_call', node), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.call('_sxh_in', [l, r], node)
                if isinstance(op, ast.NotIn):
                    c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
                return c
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value in (True, False) \
                    and r.value is not None and type(r.value) is bool:
                c = self.call('_sxh_isbool', [l, r], node)
                if isinstance(op, ast.IsNot):
                    c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
                return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('_sxh_mod', [node.left, node.right], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.fix_missing_locations(self.call('_sxh_dict', [ast.List(elts=elts, ctx=ast.Load())], node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.fix_missing_locations(self.call('_sxh_set', [ast.List(elts=node.elts, ctx=ast.Load())], node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.fix_missing_locations(self.call(
            '_sxh_set', [ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)], node))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.fix_missing_locations(self.call('_sxh_dict', [ast.copy_location(ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators), node)], node))

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        elts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                elts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                elts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.fix_missing_locations(self.call('_sxh_fstr', [ast.List(elts=elts, ctx=ast.Load())], node))

    def _func(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        decos = [d if isinstance(d, ast.Call) else self.call('_sxh_deco', [d], d) for d in
                 [self.visit(d) for d in node.decorator_list]]
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = [ast.fix_missing_locations(d) for d in decos]
        mark = ast.Expr(value=self.call('_sxh_enter', [ast.Constant(value=self.mod + ':' + qual)], node))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ast.fix_missing_locations(ast.copy_location(mark, node)))
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        node.bases = [ast.fix_missing_locations(self.call('_sxh_base', [b], node)) for b in node.bases]
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self.name('Exception', node)
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = self.name('Exception', node.type)
        return node


# ---------------------------------------------------------------- run-time hooks
def sx_enter(q):
    ENTERED.add(q)


def sx_in(a, b):
    a, b = force(a), force(b)
    tb = type(b)
    if tb is str:
        if type(a) is SymStr:
            s = a._single()
            if s is not None and type(s) is values.Choice:
                return core.eng().branch(core.eng().simp(s.where(lambda x: x in b)))
            ca = a._chars()
            if len(ca) == 1:
                return core.eng().branch(c_in(ca[0], values.codes(b)))
            return core.eng().branch(contains_b(tuple(map(ord, b)), ca))
        return a in b
    if type(a) in SYM:
        if tb is list or tb is tuple:
            if type(a) is SymStr and all(type(x) is str for x in b):
                return core.eng().branch(b_or([a._eqb(x) for x in b]))
            return a in b
        if isinstance(b, (dict, set, frozenset, types.MappingProxyType)) and tb not in (SDict, SSet, SFrozen) \
                and not isinstance(b, (SDict, SSet)):
            if type(a) is SymStr:
                return core.eng().branch(b_or([a._eqb(x) for x in b if type(x) is str]))
            return any(bool(a == x) for x in b)
    return a in b


def sx_isbool(a, c):
    if type(a) is LazyVal:
        a = force(a)
    if type(a) is SymBool:
        return a == c
    return a is c


def sx_mod(a, b):
    a = force(a)
    if type(a) is str and a.find('%') >= 0:
        args = b if isinstance(b, tuple) else (b,)
        if any(_deep_sym(x) for x in args):
            return _percent(a, b)
        return a % b
    if type(a) is SymStr:
        return a._sx_conc() % b
    return a % b


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([sdrifxX%])')


def _percent(fmt, args):
    out, pos, i = [], 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            v = tup[i]
            i += 1
        if m.group(3) == 's' and not m.group(2):
            out.append(sx_str(v))
        elif m.group(3) == 'r':
            out.append(repr(conc(v)))
        else:
            out.append(('%' + m.group(2) + m.group(3)) % conc(v))
    out.append(fmt[pos:])
    return concat(out)


def _deep_sym(x):
    return type(x) in SYM or isinstance(x, BaseException)


def sx_dict(items):
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def sx_set(items):
    return SSet(items)


def sx_fstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr(conc(v))
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(conc(v))
        if spec:
            out.append(format(conc(v), conc(spec)))
        else:
            out.append(sx_str(v))
    return concat(out)


def sx_str(v=''):
    v = force(v)
    t = type(v)
    if t is SymStr or t is str:
        return v
    if t in SYM:
        v = conc(v)
    elif isinstance(v, BaseException) and any(type(x) in SYM for x in v.args):
        v.args = tuple(conc(x) for x in v.args)
    return str(v)


_FMT = _string_mod.Formatter()


def sx_format(fmt, args, kw):
    if not any(_deep_sym(x) for x in args) and not any(_deep_sym(x) for x in kw.values()):
        return fmt.format(*args, **kw)
    out, auto = [], 0
    for lit, field, spec, conv in _FMT.parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        elif field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = _FMT.get_field(field, args, kw)
        if conv == 'r':
            v = repr(v)
        elif conv == 's':
            v = sx_str(v)
        if spec:
            out.append(format(conc(v), spec))
        else:
            out.append(sx_str(v))
    return concat(out)


def sx_deco(d):
    if d is functools.lru_cache or d is getattr(functools, 'cache', None):
        return lambda f: f
    return d


def sx_base(b):
    if b is dict:
        return SDict
    if b is collections.OrderedDict:
        return SDict
    if b is collections.defaultdict:
        return SDefaultDict
    if b is set:
        return SSet
    return b


def _flat_types(t):
    if isinstance(t, tuple):
        out = []
        for x in t:
            out.extend(_flat_types(x))
        return out
    return [t]


def sx_isinstance(x, t):
    if isinstance(x, t):
        return True
    tx = type(x)
    if isinstance(x, SDict):
        return any(b in (dict, collections.abc.Mapping, collections.abc.MutableMapping) or
                   (b is collections.OrderedDict and False) for b in _flat_types(t))
    if isinstance(x, SSet):
        return any(b in (set, collections.abc.Set) for b in _flat_types(t))
    return False


def sx_issubclass(c, t):
    if issubclass(c, t):
        return True
    if isinstance(c, type) and issubclass(c, SDict):
        return dict in _flat_types(t)
    return False


def sx_type(*a, **k):
    if len(a) == 1:
        x = force(a[0])
        t = type(x)
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t in (SDict, SDefaultDict):
            return dict
        if t is SSet:
            return set
        if t is SFrozen:
            return frozenset
        return t
    name, bases, ns = a
    if isinstance(ns, SDict):
        ns = dict((conc(k), v) for k, v in ns._rawitems())
    return type(conc(name), tuple(sx_base(b) for b in bases), ns, **k)


def sx_int(x=0, *a):
    return int(conc(x), *[conc(y) for y in a])


def sx_float(x=0.0):
    return float(conc(x))


def sx_bytes(*a, **k):
    return bytes(*[conc(x) for x in a], **k)


def sx_ord(c):
    return ord(conc(c))


def _attr_name(obj, name):
    """symbolic attribute name: decide which existing attribute it is, or give up on all of them"""
    if type(name) not in SYM:
        return name
    cands = sorted(set(dir(type(obj))) | set(getattr(obj, '__dict__', {})))
    for c in cands:
        if core.eng().branch(name._eqb(c)):
            return c
    return name._sx_conc()


def sx_getattr(obj, name, *d):
    name = force(name)
    if type(name) is SymStr:
        name = _attr_name(obj, name)
    return getattr(obj, name, *d)


def sx_hasattr(obj, name):
    name = force(name)
    if type(name) is SymStr:
        name = _attr_name(obj, name)
    return hasattr(obj, name)


def sx_setattr(obj, name, v):
    name = force(name)
    if type(name) is SymStr:
        name = _attr_name(obj, name)
    return setattr(obj, name, v)


def sx_lru(*a, **k):
    if len(a) == 1 and callable(a[0]):
        return a[0]
    return lambda f: f


def sx_repr(x):
    return repr(conc(x))


def sx_fspath(p):
    return p if type(p) is SymStr else os.fspath(p)


def sx_fsencode(p):
    return p if type(p) is SymStr else os.fsencode(p)


def sx_intern(s):
    return s


def sx_len(x):
    return len(x)


def sx_sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def _no_c(*a, **k):
    raise core.Unsupported('json/yaml of symbolic data')


def sx_json_loads(s, *a, **k):
    import json
    return tosym(json.loads(conc(s), *a, **k))


def tosym(x):
    """native JSON-like data -> the containers instrumented code works on"""
    if type(x) in (dict, collections.OrderedDict):
        d = SDict()
        for k, v in x.items():
            d[k] = tosym(v)
        return d
    if type(x) is list:
        return [tosym(v) for v in x]
    return x


def _hooked(f):
    if f is None:
        return None
    return lambda *a, **k: _sxh_call(f, *a, **k)


def sx_map(f, *its):
    return map(_hooked(f), *its)


def sx_filter(f, it):
    return filter(_hooked(f), it)


def sx_reduce(f, *a):
    return functools.reduce(_hooked(f), *a)


def sx_partial(f, *a, **k):
    return functools.partial(_hooked(f), *a, **k)


def sx_maketrans(*a):
    return str.maketrans(*[dict((conc(k), conc(x[k])) for k in x) if isinstance(x, dict) else conc(x) for x in a])


CALLS = {}
TYPES = {}


from . import vfs


def _init_tables():
    CALLS.update({
        isinstance: sx_isinstance, issubclass: sx_issubclass, getattr: sx_getattr, hasattr: sx_hasattr,
        setattr: sx_setattr, repr: sx_repr, ord: sx_ord, os.fspath: sx_fspath, os.fsencode: sx_fsencode,
        sys.intern: sx_intern, functools.lru_cache: sx_lru, importlib.import_module: sx_import_module,
        builtins.__import__: sx_import, functools.reduce: sx_reduce,
        str.maketrans: sx_maketrans, operator.contains: lambda a, b: sx_in(b, a),
    })
    CALLS.update(vfs.calls())
    if hasattr(functools, 'cache'):
        CALLS[functools.cache] = sx_lru
    TYPES.update({
        str: sx_str, int: sx_int, float: sx_float, bytes: sx_bytes, type: sx_type, dict: SDict, set: SSet, frozenset: SFrozen,
        collections.OrderedDict: SDict, collections.defaultdict: SDefaultDict,
        map: sx_map, filter: sx_filter, functools.partial: sx_partial,
    })


_BUILTIN = type(len)
_MDESC = type(str.join)
_WRAP = type(''.__eq__)
_FUNC = types.FunctionType
_METH = types.MethodType


def _has_sym_args(a):
    for x in a:
        if type(x) in SYM:
            return True
        if type(x) is tuple:
            for y in x:
                if type(y) in SYM:
                    return True
    return False


def _str_call(s, name, a, k):
    if name == 'join':
        items = list(a[0])
        if any(type(x) in SYM for x in items):
            return lift(s).join([force(x) for x in items])
        return s.join(items)
    if name == 'format':
        return sx_format(s, a, k)
    if _has_sym_args(a):
        return getattr(lift(s), name)(*[force(x) for x in a], **k)
    return getattr(s, name)(*a, **k)


def _sxh_call(f, *a, **k):
    t = type(f)
    if t is _METH:
        return f(*a, **k)
    if t is _FUNC:
        h = CALLS.get(f)
        return f(*a, **k) if h is None else h(*a, **k)
    if t is _BUILTIN:
        s = f.__self__
        ts = type(s)
        if ts is str:
            return _str_call(s, f.__name__, a, k)
        if ts is types.ModuleType or s is None:
            h = CALLS.get(f)
            if h is not None:
                return h(*a, **k)
            return f(*a, **k)
        if ts in (dict, set, frozenset) and a and type(a[0]) in SYM:
            if ts is dict and f.__name__ in ('get', '__getitem__', '__contains__'):
                return getattr(SDict(s), f.__name__)(*a)
            if ts in (set, frozenset) and f.__name__ in ('__contains__',):
                return sx_in(a[0], s)
        return f(*a, **k)
    if isinstance(f, type):
        h = TYPES.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is _WRAP and type(f.__self__) is str and _has_sym_args(a):
        return getattr(lift(f.__self__), f.__name__)(*[force(x) for x in a])
    if t is _MDESC:
        if f.__objclass__ is str and a:
            if type(a[0]) is str:
                return _str_call(a[0], f.__name__, a[1:], k)
            if type(a[0]) in SYM:
                return getattr(force(a[0]), f.__name__)(*a[1:], **k)
        if f.__objclass__ is dict and a and isinstance(a[0], SDict):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return f(*a, **k)
    try:
        h = CALLS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


# ---------------------------------------------------------------- shim modules
class NullLogger(object):
    def __getattr__(self, name):
        return lambda *a, **k: None


class Shim(types.ModuleType):
    """module with some attributes replaced, the rest taken from the native module"""

    def __init__(self, native, **over):
        types.ModuleType.__init__(self, native.__name__)
        self.__dict__['_native'] = native
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_native'], name)


MODULES = {}        # instrumented and shim modules by name


def _repo_file(name):
    if name != 'pyopenapi' and not name.startswith('pyopenapi.'):
        return None
    base = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    if os.path.isfile(base + '.py'):
        return base + '.py', False
    return None


def _source_of(name):
    r = _repo_file(name)
    if r:
        return r
    if name == 'props' or name.startswith('props.'):
        base = os.path.join(VERIF, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None
    if name in STD:
        return STD[name], False
    return None


ENCODED_FILES = {}


def load(name):
    if name in MODULES:
        return MODULES[name]
    if '.' in name and name not in STD:
        parent = name.rpartition('.')[0]
        load(parent)
        if name in MODULES:
            return MODULES[name]
    src = _source_of(name)
    if src is None:
        raise ModuleNotFoundError('No module named {!r}'.format(name))
    path, is_pkg = src
    with open(path, 'rb') as fh:
        text = fh.read()
    tree = ast.parse(text, path)
    tree = Instrument(name).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__package__ = name if is_pkg else name.rpartition('.')[0]
    if is_pkg:
        mod.__path__ = [os.path.dirname(path)]
    bi = dict(builtins.__dict__)
    bi.update({'__import__': sx_import, '_sxh_call': _sxh_call, '_sxh_in': sx_in, '_sxh_isbool': sx_isbool,
               '_sxh_mod': sx_mod, '_sxh_dict': sx_dict, '_sxh_set': sx_set, '_sxh_fstr': sx_fstr,
               '_sxh_enter': sx_enter, '_sxh_deco': sx_deco, '_sxh_base': sx_base})
    mod.__dict__['__builtins__'] = bi
    MODULES[name] = mod
    ENCODED_FILES[name] = path
    try:
        exec(code, mod.__dict__)
    except BaseException:
        MODULES.pop(name, None)
        raise
    if '.' in name and name not in STD:
        parent, _, leaf = name.rpartition('.')
        setattr(MODULES[parent], leaf, mod)
    return mod


def _inst(name):
    return name in MODULES or _source_of(name) is not None


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        name = pkg + '.' + name if name else pkg
    if name == 'posix' and fromlist and '_path_normpath' in fromlist:
        raise ImportError('use the pure Python version')
    if name in SHIMS():
        mod = SHIMS()[name]
        if fromlist:
            return mod
        top = name.partition('.')[0]
        return SHIMS().get(top) or importlib.import_module(top)
    if _inst(name):
        mod = load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(mod, f) and _inst(name + '.' + f):
                    load(name + '.' + f)
            return mod
        top = name.partition('.')[0]
        return load(top) if _inst(top) else importlib.import_module(top)
    return __import__(name, globals if not level else None, locals, fromlist, 0)


def sx_import_module(name, package=None):
    name = conc(name)
    if name.startswith('.'):
        raise core.Unsupported('relative import_module')
    if name in SHIMS():
        return SHIMS()[name]
    if _inst(name):
        return load(name)
    return importlib.import_module(name, package)


class _Loader(object):
    def __init__(self, name):
        self.name = name

    def load_module(self, name=None):
        return load(conc(name or self.name))

    def exec_module(self, mod):
        return None


def _find_loader(name):
    import pkgutil
    name = conc(name)
    if _inst(name):
        return _Loader(name)
    if name.startswith('pyopenapi.'):
        return None
    return pkgutil.find_loader(name)


_SHIMS = {}


def SHIMS():
    return _SHIMS


class _PathStub(object):
    pass


def setup():
    """build shim modules; must run before any instrumented module is loaded"""
    import pkgutil
    import logging
    import six
    from . import rx
    _init_tables()
    posixpath = None
    re_shim = rx.ReModule()
    _SHIMS['re'] = re_shim
    log = Shim(logging, getLogger=lambda *a: NullLogger())
    _SHIMS['logging'] = log
    _SHIMS['pkgutil'] = Shim(pkgutil, find_loader=_find_loader)
    os_shim = Shim(os)
    _SHIMS['os'] = os_shim
    posixpath = load('posixpath')
    os_shim.path = posixpath
    _SHIMS['os.path'] = posixpath
    parse = load('urllib.parse')
    import urllib
    import urllib.request
    import urllib.error
    url_shim = Shim(urllib, parse=parse, request=urllib.request, error=urllib.error)
    _SHIMS['urllib'] = url_shim
    moves = types.SimpleNamespace()

    class Moves(object):
        urllib = url_shim
        def __getattr__(self, n):
            return getattr(six.moves, n)
    mv = Moves()
    mv.urllib = url_shim
    _SHIMS['six'] = Shim(six, moves=mv)
    _SHIMS['six.moves'] = mv
    _SHIMS['six.moves.urllib'] = url_shim
    _SHIMS['six.moves.urllib.parse'] = parse
    import json
    import yaml
    _SHIMS['json'] = Shim(json, loads=sx_json_loads)
    _SHIMS['yaml'] = Shim(yaml, load=lambda s, *a, **k: tosym(yaml.load(conc(s), *a, **k)),
                          safe_load=lambda s: tosym(yaml.safe_load(conc(s))))
    import importlib.util as iu

    def _find_spec(name, package=None):
        name = conc(name)
        if _inst(name):
            return types.SimpleNamespace(name=name, loader=_Loader(name))
        if name.startswith('pyopenapi.'):
            return None
        return iu.find_spec(name, package)
    iu_shim = Shim(iu, find_spec=_find_spec, module_from_spec=lambda s: load(s.name))
    _SHIMS['importlib.util'] = iu_shim
    _SHIMS['importlib'] = Shim(importlib, import_module=sx_import_module, util=iu_shim)
