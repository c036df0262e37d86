# -*- coding: utf-8 -*-
"""Generates specification objects with symbolic content and checks loaded objects against them."""
from . import tables

LEAF = ('str', 'zero', 'false', 'true', 'int', 'float', 'elist', 'edict', 'list')
SCALAR = ('str', 'zero', 'false', 'true', 'int', 'float')     # the resolver walks containers
NAMES = ('p/~q', 'x')


class Gen(object):
    def __init__(self, S, table, mod, most=1, keys=NAMES, deep=None, leaf=LEAF):
        self.S, self.table, self.mod, self.most, self.keys = S, table, mod, most, keys
        self.deep = most if deep is None else deep
        self.nobool, self.bools, self.leaves = False, [], leaf
        self.siblings = False           # references may have further keys, which mean nothing

    # -- making documents
    def leaf(self, name):
        return self.S.any(name, 1, self.leaves)

    def text(self, name):
        return self.S.str(name, 1)

    def obj(self, kind, name, depth, most=None, every=False, only=None):
        """a dictionary with every subset of at most `most` optional entries, their content varying; if `every`, also
        the dictionary with all of them (with plain content)"""
        S, k = self.S, self.table[kind]
        most = self.most if most is None else most
        if every and S.pick(name + '.all', [False, True]):
            return self.plain(kind, name, depth, True)
        deep = [c for c in k.children if c in k.required]
        focus = None
        if deep and depth:
            focus = S.pick(name + '.deep', [None] + deep)
        entries = {}
        for f in k.fields:
            if f == '$ref':
                entries[f] = lambda f=f: '#/' + S.str('%s.ref' % name, 1)
            else:
                entries[f] = lambda f=f: self.leaf('%s.%s' % (name, f))
        for c, spec in k.children.items():
            if c in k.required and c != focus:
                entries[c] = lambda c=c, spec=spec: self.plain_child(spec, '%s.%s' % (name, c), 0)
            elif depth or c in k.required:
                entries[c] = lambda c=c, spec=spec: self.child(spec, '%s.%s' % (name, c), depth - 1)
        if only is not None:
            entries = dict((a, b) for a, b in entries.items() if a in only or a in k.required)
        if focus:
            entries = dict((a, b) for a, b in entries.items() if a in k.required)
        return S.dict(name, entries, required=k.required, most=most)

    def plain(self, kind, name, depth, every=False):
        """the required entries, or all entries, without alternatives"""
        S, k = self.S, self.table[kind]
        out = S.mkdict()
        for f in k.fields:
            if f in k.required or every:
                out[f] = '#/r' if f == '$ref' else self.leaf('%s.%s' % (name, f))
        for c, spec in k.children.items():
            if c in k.required or (every and depth):
                out[c] = self.plain_child(spec, '%s.%s' % (name, c), depth - 1)
        return out

    def plain_child(self, spec, name, depth):
        S = self.S
        if spec == 'str':
            return self.text(name)
        if isinstance(spec, str):
            if spec in tables.MAPS:
                return self.plain_child(tables.MAPS[spec], name, depth)
            return self.plain(spec, name, depth)
        how, c = spec
        if how in ('ref', 'bool'):
            return self.plain_child(c, name, depth)
        if how == 'list':
            return [self.plain_child(c, name + '.0', depth)]
        return S.mkdict([(self.keys[0], self.plain_child(c, name + '.0', depth))])

    def child(self, spec, name, depth):
        S = self.S
        if spec == 'str':
            return self.text(name)
        if isinstance(spec, str):
            if spec in tables.MAPS:
                return self.child(tables.MAPS[spec], name, depth)
            return self.obj(spec, name, depth if depth > 0 else 0, self.deep)
        how, c = spec
        if how == 'ref':
            r = S.pick(name + '.isref', [False, True, 'more'] if self.siblings else [False, True])
            if r:
                out = S.mkdict([('$ref', '#/' + S.str(name + '.ref', 1))])
                if r == 'more':
                    out['description'] = 'd'
                return out
            return self.child(c, name, depth)
        if how == 'bool':
            k = S.pick(name + '.isbool', [None, False, True])
            return self.child(c, name, depth) if k is None else k
        n = S.pick(name + '.n', [0, 1, 2] if len(self.keys) > 1 else [0, 1])
        out = []
        for i in range(n):
            if i == n - 1:                  # the last one varies
                out.append(self.child(c, '%s.%d' % (name, i), depth))
            else:
                out.append(self.plain_child(c, '%s.%d' % (name, i), depth))
        if how == 'list':
            return out
        return S.mkdict([(self.keys[i], out[i]) for i in range(n)])

    # -- what a dump may look like
    def strip(self, kind, spec):
        """the content, without empty containers in the positions of children"""
        S, k = self.S, self.table[kind]
        out = S.mkdict()
        for f in spec:
            if f in k.children:
                v = self.strip_child(k.children[f], spec[f])
                if v is not None:
                    out[f] = v
            else:
                out[f] = spec[f]
        return out

    def strip_child(self, spec, v):
        if spec == 'str':
            return v
        if isinstance(spec, str):
            if spec in tables.MAPS:
                return self.strip_child(tables.MAPS[spec], v)
            w = self.strip(spec, v)
            return w if len(w) else None
        how, c = spec
        if how == 'ref':
            return self.S.mkdict([('$ref', v['$ref'])]) if '$ref' in v else self.strip_child(c, v)
        if how == 'bool':
            if v is True or v is False:
                self.bools.append(v)
                return None if self.nobool else v
            return self.strip_child(c, v)
        if not len(v):
            return None
        if how == 'list':
            return [self.keep(c, x) for x in v]
        out = self.S.mkdict()
        for n in v:
            w = self.strip_child(c, v[n])
            if w is not None:
                out[n] = w
        return out if len(out) else None

    def keep(self, c, x):
        w = self.strip_child(c, x)
        return self.S.mkdict() if w is None else w

    def dumps(self, obj, kind, spec):
        """the object dumps to its content"""
        S = self.S
        self.bools, self.nobool = [], False
        want = self.strip(kind, spec)
        if True in self.bools:
            r = S.trap(obj.dump)
            if not S.known('boolean-dump', r[0] == 'ok', 'a valid object can be dumped'):
                return
            d = r[1]
        else:
            d = S.returns(lambda: obj.dump(), 'a valid object can be dumped')
        got = self.norm(kind, d)
        if self.bools:
            same = S.same(got, want)
            if not S.known('boolean-dump', same, 'dump gives the content back'):
                self.nobool = True
                want = self.strip(kind, spec)
                self.nobool = False
        S.check(S.same(got, want), 'dump gives the content back', lambda: '%r gave %r' % (spec, d))

    def norm(self, kind, dumped):
        return self.strip(kind, dumped)

    def read(self, obj):
        """what an object says, read through its attributes"""
        S, k = self.S, self.table[type(obj).__name__]
        out = S.mkdict([(f, getattr(obj, f)) for f in k.fields if obj.is_set(f)])
        for c in k.children:
            v = self.read_child(getattr(obj, c))
            if v is not None:
                out[c] = v
        return out

    def read_child(self, v):
        if hasattr(v, 'keys'):
            return self.S.mkdict([(n, self.read_child(v[n])) for n in v.keys()])
        if hasattr(v, 'append'):
            return [self.read_child(v[i]) for i in range(len(v))]
        if hasattr(v, 'get_children'):
            return self.read(v)
        return v

    # -- checking loaded objects
    def cls(self, kind):
        return getattr(self.mod, kind)

    def check(self, obj, kind, spec, deep=True):
        S, k = self.S, self.table[kind]
        S.check(type(obj) is self.cls(kind), 'loaded as the kind its position demands',
                lambda: '%s, expected %s' % (type(obj).__name__, kind))
        absent = []
        for f in k.fields:
            there = f in spec
            got = getattr(obj, f)
            absent.append(obj.is_set(f) == there)
            if there:
                S.check(S.same(got, spec[f]), 'a field has the value of the document', lambda: '%s.%s' % (kind, f))
            else:
                absent.append(S.same(got, k.default.get(f)))
        for c, cs in k.children.items():
            got = getattr(obj, c)
            if c in spec:
                self.check_child(got, cs, spec[c], '%s.%s' % (kind, c))
            else:
                absent.append(got is None)
        S.check(S.all(absent), 'what is absent is absent', lambda: '%s' % kind)
        alias = []
        for a, f in k.alias.items():
            x, y = getattr(obj, a), getattr(obj, f)
            alias.append(x is y or S.same(x, y))
        S.check(S.all(alias), 'an alias reads the field it stands for',
                lambda: '%s %s' % (kind, [a for a, v in zip(k.alias, alias) if not v]))

    def check_child(self, got, cs, spec, where):
        S = self.S
        if cs == 'str':
            S.check(S.same(got, spec), 'a string has the value of the document', where)
            return
        if isinstance(cs, str):
            if cs in tables.MAPS:
                S.check(type(got) is self.cls(cs), 'loaded as the kind its position demands', where)
                self.check_child(got, tables.MAPS[cs], spec, where)
            else:
                self.check(got, cs, spec)
            return
        how, c = cs
        if how == 'ref':
            if '$ref' in spec:
                S.check(type(got) is self.mod.Reference, 'a reference is loaded as a reference', where)
                S.check(S.same(got.ref, spec['$ref']), 'a reference keeps its target', where)
            else:
                self.check_child(got, c, spec, where)
            return
        if how == 'bool':
            if spec is True or spec is False:
                S.check(got is spec, 'a boolean is kept', where)
            else:
                self.check_child(got, c, spec, where)
            return
        S.check(got is not None and len(got) == len(spec), 'a container has as many elements as the document', where)
        if how == 'list':
            for i in range(len(spec)):
                self.check_child(got[i], c, spec[i], where + '[]')
        else:
            for n in spec:
                S.check(n in got, 'a name of the document is in the container', where)
                self.check_child(got[n], c, spec[n], where + '{}')
