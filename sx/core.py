# -*- coding: utf-8 -*-
"""Path exploration core: finite-domain symbolic variables, boolean terms over them, and an engine that
re-executes a harness along every feasible decision path, with z3 deciding feasibility and assertions."""
import time
import z3


class SxStop(BaseException):
    """control flow of the engine; deliberately not an Exception"""


class PathInfeasible(SxStop):
    pass


class Unsupported(SxStop):
    """an operation the engine does not model was applied to a symbolic value"""


class OutOfTime(SxStop):
    pass


class CheckFailed(SxStop):
    def __init__(self, label, env, detail=''):
        SxStop.__init__(self, label)
        self.label, self.env, self.detail = label, env, detail


ENGINE = None  # the engine running in this process


def eng():
    return ENGINE


# ---------------------------------------------------------------- variables
class FVar(object):
    """finite-domain variable; `name` identifies it across re-executions of the harness"""
    __slots__ = ('name', 'sort', 'z', 'group')

    def __init__(self, name, sort):
        self.name, self.sort, self.group = name, sort, None
        self.z = None

    def zexpr(self):
        if self.z is None:
            if self.sort == 'bv':
                self.z = z3.BitVec(self.name, 8)
            elif self.sort == 'bool':
                self.z = z3.Bool(self.name)
            else:
                self.z = z3.Int(self.name)
        return self.z


# ---------------------------------------------------------------- boolean terms
class B(object):
    __slots__ = ()


class BAtom(B):
    """var's value lies in a set"""
    __slots__ = ('var', 'sub')

    def __init__(self, var, sub):
        self.var, self.sub = var, sub

    def key(self):
        return ('a', self.var.name, self.sub)

    def ev(self, val):
        return val(self.var) in self.sub

    def z3(self, dom):
        return _member(self.var, self.sub, dom)


def _ranges(vals):
    vals = sorted(vals)
    out = []
    for v in vals:
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def _member(var, sub, dom):
    z = var.zexpr()
    if var.sort == 'bool':
        if len(sub) == 2:
            return z3.BoolVal(True)
        if not sub:
            return z3.BoolVal(False)
        return z if 1 in sub else z3.Not(z)
    # either side may be the shorter description
    inside, outside = sub & dom, dom - sub
    neg = False
    rs = _ranges(inside)
    if len(outside) < len(inside):
        ro = _ranges(outside)
        if len(ro) < len(rs):
            rs, neg = ro, True
    ors = []
    for lo, hi in rs:
        if lo == hi:
            ors.append(z == lo)
        elif var.sort == 'bv':
            ors.append(z3.And(z3.UGE(z, lo), z3.ULE(z, hi)))
        else:
            ors.append(z3.And(z >= lo, z <= hi))
    e = ors[0] if len(ors) == 1 else (z3.Or(*ors) if ors else z3.BoolVal(False))
    return z3.Not(e) if neg else e


class BEq(B):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def key(self):
        return ('e', self.a.name, self.b.name)

    def ev(self, val):
        return val(self.a) == val(self.b)

    def z3(self, dom):
        return self.a.zexpr() == self.b.zexpr()


class BCmp(B):
    """a < b  or  a <= b between two variables"""
    __slots__ = ('a', 'b', 'strict')

    def __init__(self, a, b, strict):
        self.a, self.b, self.strict = a, b, strict

    def key(self):
        return ('c', self.a.name, self.b.name, self.strict)

    def ev(self, val):
        return val(self.a) < val(self.b) if self.strict else val(self.a) <= val(self.b)

    def z3(self, dom):
        a, b = self.a.zexpr(), self.b.zexpr()
        if self.a.sort == 'bv':
            return z3.ULT(a, b) if self.strict else z3.ULE(a, b)
        return a < b if self.strict else a <= b


class BNot(B):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def key(self):
        return ('n', self.x.key())

    def ev(self, val):
        return not self.x.ev(val)

    def z3(self, dom):
        return z3.Not(self.x.z3(dom))


class BAnd(B):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs

    def key(self):
        return ('&',) + tuple(x.key() for x in self.xs)

    def ev(self, val):
        return all(x.ev(val) for x in self.xs)

    def z3(self, dom):
        return z3.And(*[x.z3(dom) for x in self.xs])


class BOr(B):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs

    def key(self):
        return ('|',) + tuple(x.key() for x in self.xs)

    def ev(self, val):
        return any(x.ev(val) for x in self.xs)

    def z3(self, dom):
        return z3.Or(*[x.z3(dom) for x in self.xs])


class BCard(B):
    """number of true boolean variables lies in lo..hi"""
    __slots__ = ('vars', 'lo', 'hi')

    def __init__(self, vars, lo, hi):
        self.vars, self.lo, self.hi = vars, lo, hi

    def key(self):
        return ('k', tuple(v.name for v in self.vars), self.lo, self.hi)

    def ev(self, val):
        return self.lo <= sum(1 for v in self.vars if val(v)) <= self.hi

    def z3(self, dom):
        ps = [(v.zexpr(), 1) for v in self.vars]
        cs = []
        if self.hi < len(ps):
            cs.append(z3.PbLe(ps, self.hi))
        if self.lo > 0:
            cs.append(z3.PbGe(ps, self.lo))
        return z3.And(*cs) if cs else z3.BoolVal(True)


def b_not(x):
    if x is True or x is False:
        return not x
    if isinstance(x, BNot):
        return x.x
    return BNot(x)


def b_and(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else BAnd(out)


def b_or(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else BOr(out)


# ---------------------------------------------------------------- engine
class Stats(object):
    FIELDS = ('paths', 'infeasible', 'queries', 'solver_s', 'decisions', 'checks', 'discharged_by_solver',
              'replayed', 'unmodelled', 'unknown')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))

    def as_dict(self):
        return dict((f, round(getattr(self, f), 3)) for f in self.FIELDS)


class Engine(object):
    MAX_DECISIONS = 4000

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set('random_seed', 1)
        self.solver.set('timeout', 60000)
        self.frames = 0            # frames currently on the solver
        self.stats = Stats()
        self.last_decisions = []
        self.last_pos = []         # event position before each decision of the last path
        self.deadline = None

    # ---- one path
    def begin(self, prefix):
        common = 0
        n = min(len(prefix), len(self.last_decisions))
        while common < n and prefix[common] == self.last_decisions[common]:
            common += 1
        if common < len(self.last_pos):
            keep = self.last_pos[common]
        else:
            keep = self.frames
        if not self.last_decisions and not prefix:
            keep = 0
        if keep < self.frames:
            self.solver.pop(self.frames - keep)
            self.frames = keep
        self.prefix = prefix
        self.pending = []          # alternatives found on this path
        self.decisions = []
        self.pos_of = []
        self.pos = 0               # events seen on this path
        self.dom = {}
        self.vars = {}
        self.decided = {}
        self.groups = []
        self.values = {}           # current satisfying assignment, name -> int
        self.model_ok = not prefix
        self.checked_need = False
        self.inputs = {}           # name -> thunk giving the concrete value
        self.check_log = []
        self.stats.paths += 1

    def end(self):
        if self.pos < self.frames:
            self.solver.pop(self.frames - self.pos)
            self.frames = self.pos
        self.last_decisions = self.decisions
        self.last_pos = self.pos_of

    # ---- variables
    def declare(self, name, sort, dom):
        if name in self.vars:
            raise Exception('symbolic variable declared twice: ' + name)
        v = FVar(name, sort)
        self.vars[name] = v
        dom = frozenset(dom)
        self.dom[name] = dom
        self.values.setdefault(name, min(dom))
        if sort != 'bool':
            if sort == 'bv':
                full = len(dom) == 256
            else:
                full = False
            if not full:
                self._assert_lazy(lambda: _member(v, dom, frozenset(range(256)) if sort == 'bv' else dom) if sort == 'bv' else _int_dom(v, dom))
        elif len(dom) == 1:
            self._assert_lazy(lambda: v.zexpr() if 1 in dom else z3.Not(v.zexpr()))
        return v

    def val(self, var):
        return self.values[var.name]

    # ---- solver interaction
    def _assert_lazy(self, mk):
        if self.pos >= self.frames:
            self.solver.push()
            self.solver.add(mk())
            self.frames += 1
        self.pos += 1

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unsupported('solver answered unknown')
        return r == z3.sat

    def _load_model(self):
        m = self.solver.model()
        vals = {}
        for name, v in self.vars.items():
            x = m.eval(v.zexpr(), model_completion=False)
            if v.sort == 'bool':
                if z3.is_true(x):
                    vals[name] = 1
                elif z3.is_false(x):
                    vals[name] = 0
                else:
                    vals[name] = min(self.dom[name])
            else:
                try:
                    vals[name] = x.as_long()
                except AttributeError:
                    vals[name] = min(self.dom[name])
        self.values = vals

    # ---- simplification by the domains known on this path
    def simp(self, b):
        if b is True or b is False:
            return b
        t = type(b)
        if t is BAtom:
            d = self.dom[b.var.name]
            i = d & b.sub
            if not i:
                return False
            if len(i) == len(d):
                return True
            return b
        if t is BEq:
            if b.a is b.b:
                return True
            da, db = self.dom[b.a.name], self.dom[b.b.name]
            if len(da) == 1:
                return self.simp(BAtom(b.b, da))
            if len(db) == 1:
                return self.simp(BAtom(b.a, db))
            if not (da & db):
                return False
            return self.decided.get(b.key(), b)
        if t is BCmp:
            da, db = self.dom[b.a.name], self.dom[b.b.name]
            if len(da) == 1:
                x = min(da)
                return self.simp(BAtom(b.b, frozenset(y for y in db if (x < y if b.strict else x <= y))))
            if len(db) == 1:
                y = min(db)
                return self.simp(BAtom(b.a, frozenset(x for x in da if (x < y if b.strict else x <= y))))
            return self.decided.get(b.key(), b)
        if t is BNot:
            return b_not(self.simp(b.x))
        if t is BAnd:
            return b_and([self.simp(x) for x in b.xs])
        if t is BOr:
            return b_or([self.simp(x) for x in b.xs])
        return b

    def _learn(self, b, truth):
        t = type(b)
        if t is BNot:
            self._learn(b.x, not truth)
        elif t is BAtom:
            d = self.dom[b.var.name]
            self.dom[b.var.name] = (d & b.sub) if truth else (d - b.sub)
            if b.var.group is not None:
                self._group(b.var.group)
        elif t is BAnd and truth:
            for x in b.xs:
                self._learn(x, True)
        elif t is BOr and not truth:
            for x in b.xs:
                self._learn(x, False)
        elif t is BEq and truth:
            i = self.dom[b.a.name] & self.dom[b.b.name]
            self.dom[b.a.name] = self.dom[b.b.name] = i
            self.decided[b.key()] = True
        elif t in (BEq, BCmp):
            self.decided[b.key()] = truth

    def _group(self, g):
        """cardinality propagation inside one presence group"""
        vars_, lo, hi = g
        t = sum(1 for v in vars_ if self.dom[v.name] == ONE)
        f = sum(1 for v in vars_ if self.dom[v.name] == ZERO)
        if t >= hi:
            for v in vars_:
                if len(self.dom[v.name]) == 2:
                    self.dom[v.name] = ZERO
        elif len(vars_) - f <= lo:
            for v in vars_:
                if len(self.dom[v.name]) == 2:
                    self.dom[v.name] = ONE

    def card(self, vars_, lo, hi):
        g = (vars_, lo, hi)
        for v in vars_:
            v.group = g
        self.assume(BCard(vars_, lo, hi))
        self._group(g)

    # ---- decisions
    def branch(self, b):
        b = self.simp(b)
        if b is True or b is False:
            return b
        i = len(self.decisions)
        if i >= self.MAX_DECISIONS:
            raise Unsupported('too many decisions on one path')
        if i % 64 == 63 and self.deadline and time.time() > self.deadline:
            raise OutOfTime()
        self.pos_of.append(self.pos)
        dom = self.dom
        if i < len(self.prefix):
            taken = self.prefix[i]
            self.decisions.append(taken)
            self._assert_lazy(lambda: _z(b if taken else b_not(b), dom))
            if i == len(self.prefix) - 1:
                if not self._check():
                    self.stats.infeasible += 1
                    raise PathInfeasible()
                self._load_model()
        else:
            taken = b.ev(self.val)
            self.pending.append(self.decisions + [not taken])
            self.decisions.append(taken)
            self._assert_lazy(lambda: _z(b if taken else b_not(b), dom))
            self.stats.decisions += 1
        self._learn(b, taken)
        return taken

    def assume(self, b):
        b = self.simp(b)
        if b is True:
            return
        if b is False:
            self.stats.infeasible += 1
            raise PathInfeasible()
        dom = self.dom
        self._assert_lazy(lambda: _z(b, dom))
        if len(self.decisions) >= len(self.prefix):
            if not b.ev(self.val):
                if not self._check():
                    self.stats.infeasible += 1
                    raise PathInfeasible()
                self._load_model()
        self._learn(b, True)

    def sync(self):
        """solver frames beyond this path's events are stale; drop them before a direct query"""
        if self.pos < self.frames:
            self.solver.pop(self.frames - self.pos)
            self.frames = self.pos

    def check(self, b, label, detail=''):
        """assert b on this path: (path condition and not b) must be unsatisfiable"""
        self.check_log.append(label)
        if len(self.decisions) < len(self.prefix):
            return              # decided on the path this one was forked from, before it was forked
        self.stats.checks += 1
        b = self.simp(b)
        if b is True:
            return
        if b is False or not b.ev(self.val):
            raise CheckFailed(label, self.env(), detail)
        self.sync()
        self.solver.push()
        self.solver.add(_z(b_not(b), self.dom))
        sat = self._check()
        if sat:
            self._load_model()
        self.solver.pop()
        if sat:
            raise CheckFailed(label, self.env(), detail)
        self.stats.discharged_by_solver += 1

    def env(self):
        return dict((n, f()) for n, f in self.inputs.items())


ONE, ZERO = frozenset([1]), frozenset([0])
BOTH = frozenset([0, 1])


def _int_dom(v, dom):
    z = v.zexpr()
    return z3.Or(*[z3.And(z >= lo, z <= hi) if lo != hi else z == lo for lo, hi in _ranges(dom)])


def _z(b, dom):
    """z3 form; atoms are described relative to the variable's *declared* range, which z3 also knows, so use the
    full byte range for bit-vectors to stay independent of path-local domains"""
    t = type(b)
    if t is BAtom:
        if b.var.sort == 'bv':
            return _member(b.var, b.sub, _ALL)
        if b.var.sort == 'bool':
            return _member(b.var, b.sub, BOTH)
        z = b.var.zexpr()
        return z3.Or(*[z3.And(z >= lo, z <= hi) if lo != hi else z == lo for lo, hi in _ranges(b.sub)])
    if t is BNot:
        return z3.Not(_z(b.x, dom))
    if t is BAnd:
        return z3.And(*[_z(x, dom) for x in b.xs])
    if t is BOr:
        return z3.Or(*[_z(x, dom) for x in b.xs])
    return b.z3(dom)


_ALL = frozenset(range(256))
