#!/usr/bin/env python3
"""Mutation run: small edits of /repo's sources (in copies under /tmp) that keep the tests passing, each given to the
checks that enter the function changed. Prints those no check reports.

  tools/mutate.py gen OUT.json [FILE ...]      mutants that pass the stable tests
  tools/mutate.py run IN.json OUT.log [ids]    the checks on them
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def files():
    out = []
    for d, _, fs in os.walk(REPO + '/pyopenapi'):
        rel = os.path.relpath(d, REPO)
        if 'tests' in rel.split(os.sep) or 'spec' in rel.split(os.sep) or '__pycache__' in rel:
            continue
        out += [os.path.join(rel, f) for f in fs if f.endswith('.py') and f != '__init__.py']
    return sorted(out)


class Src(object):
    def __init__(self, text):
        self.t = text
        self.off = [0]
        for l in text.split('\n'):
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def sub(self, n, new):
        a, b = self.span(n)
        return (self.b[:a] + new.encode() + self.b[b:]).decode()


CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
       ast.In: ['not in'], ast.NotIn: ['in']}
METH = {'rsplit': 'split', 'split': 'rsplit', 'startswith': 'endswith', 'endswith': 'startswith', 'find': 'rfind',
        'append': 'extend', 'rstrip': 'strip', 'pop': 'get', 'keys': 'values', 'setdefault': 'get', 'match': 'search'}
FUN = ('sorted', 'list', 'set', 'dict', 'reversed', 'deref', 'str', 'int', 'float', 'jp_compose', 'bool')


def mutants(rel):
    src = Src(open(os.path.join(REPO, rel)).read())
    tree = ast.parse(src.t)
    out = []

    def add(node, new, what, fn):
        text = src.sub(node, new)
        try:
            ast.parse(text)
        except SyntaxError:
            return
        out.append(dict(file=rel, line=node.lineno, fn=fn, what=what, old=src.seg(node)[:120], new=new[:120], text=text))

    def elements(node, elts, fn, what):
        for i, e in enumerate(elts):
            rest = [src.seg(x) for j, x in enumerate(elts) if j != i]
            op, cl = {'L': '[]', 'T': '()', 'S': '{}'}[what]
            if what == 'S' and not rest:
                continue
            add(node, op + ', '.join(rest) + (',' if what == 'T' and len(rest) == 1 else '') + cl,
                'drop element %s' % src.seg(e)[:40], fn)

    def walk(node, fn, inraise=False):
        for f, v in ast.iter_fields(node):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    visit(c, node, f, fn, inraise)

    def visit(n, parent, field, fn, inraise):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            sub = fn + '.' + n.name if fn else n.name
            for d in n.decorator_list:
                if isinstance(d, ast.Call):
                    visit(d, n, 'decorator_list', sub, inraise)
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    visit(d, n, 'defaults', sub, inraise)
            for b in body:
                visit(b, n, 'body', sub, inraise)
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'drop raise', fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr):
            if 'logger.' in src.seg(n):
                return
            add(n, 'pass', 'drop statement', fn)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'drop assignment', fn)
        if isinstance(n, ast.AugAssign):
            add(n, 'pass', 'drop assignment', fn)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'drop ' + type(n).__name__, fn)
            add(n, 'break' if isinstance(n, ast.Continue) else 'continue', 'swap ' + type(n).__name__, fn)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
            s = src.seg(t)
            add(t, 'not (%s)' % s, 'negate', fn)
            if not isinstance(n, ast.While):
                add(t, 'True', 'always', fn)
                add(t, 'False', 'never', fn)
            if isinstance(n, ast.If):
                pass
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, 'True', 'no filter', fn)
        if isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(n.values)):
                add(n, '(' + op.join('(%s)' % src.seg(v) for j, v in enumerate(n.values) if j != i) + ')',
                    'drop operand %s' % src.seg(n.values[i])[:40], fn)
            add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % src.seg(v) for v in n.values) + ')', 'and/or', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % src.seg(n.operand), 'drop not', fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = src.seg(n.left), src.seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (l, o, r), 'compare', fn)
            if isinstance(n.ops[0], ast.Is) and r == 'None':
                add(n, '(not (%s))' % l, 'falsy for None', fn)
            if isinstance(n.ops[0], ast.IsNot) and r == 'None':
                add(n, '(%s)' % l, 'truthy for not None', fn)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool', fn)
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int', fn)
                add(n, '(%d)' % (n.value - 1), 'int', fn)
            elif isinstance(n.value, str):
                add(n, repr(n.value + '_'), 'string', fn)
                if n.value and not n.value.isalnum():
                    add(n, "''", 'empty string', fn)
            elif n.value is None and field not in ('comparators',):
                pass
        if isinstance(n, ast.List) and len(n.elts) >= 1 and isinstance(n.ctx, ast.Load):
            elements(n, n.elts, fn, 'L')
        if isinstance(n, ast.Tuple) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load) and src.seg(n).startswith('('):
            elements(n, n.elts, fn, 'T')
        if isinstance(n, ast.Dict) and n.keys:
            for i in range(len(n.keys)):
                add(n, '{' + ', '.join('%s: %s' % (src.seg(k), src.seg(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + '}',
                    'drop entry %s' % src.seg(n.keys[i]), fn)
        if isinstance(n, ast.Call):
            f = src.seg(n.func)
            args = [src.seg(a) for a in n.args]
            kws = ['%s=%s' % (k.arg, src.seg(k.value)) if k.arg else '**' + src.seg(k.value) for k in n.keywords]
            for i, k in enumerate(kws):
                add(n, '%s(%s)' % (f, ', '.join(args + kws[:i] + kws[i + 1:])), 'drop keyword ' + k[:40], fn)
            if len(args) >= 2:
                add(n, '%s(%s)' % (f, ', '.join(args[:-1] + kws)), 'drop last argument', fn)
                if len(args) == 2:
                    add(n, '%s(%s)' % (f, ', '.join([args[1], args[0]] + kws)), 'swap arguments', fn)
            if isinstance(n.func, ast.Attribute) and n.func.attr in METH:
                add(n, '%s.%s(%s)' % (src.seg(n.func.value), METH[n.func.attr], ', '.join(args + kws)), 'other method', fn)
            if f in FUN and len(args) >= 1:
                add(n, '(%s)' % args[0], 'drop call', fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            s = n.slice
            v = src.seg(n.value)
            lo, hi = s.lower and src.seg(s.lower), s.upper and src.seg(s.upper)
            if lo:
                add(n, '%s[:%s]' % (v, hi or ''), 'drop lower', fn)
                add(n, '%s[(%s) + 1:%s]' % (v, lo, hi or ''), 'lower + 1', fn)
            if hi:
                add(n, '%s[%s:]' % (v, lo or ''), 'drop upper', fn)
                add(n, '%s[%s:(%s) + 1]' % (v, lo or '', hi), 'upper + 1', fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            add(n, src.seg(n.left), 'drop right', fn)
            add(n, src.seg(n.right), 'drop left', fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.Sub)):
            add(n, src.seg(n.left), 'drop right', fn)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant,)):
            pass
        if isinstance(n, ast.Call) and src.seg(n.func).startswith('logger.'):
            return
        walk(n, fn, inraise)

    walk(tree, '')
    seen, uniq = set(), []
    for m in out:
        if m['text'] not in seen and m['text'] != src.t:
            seen.add(m['text'])
            uniq.append(m)
    return uniq


def copy():
    d = tempfile.mkdtemp(prefix='mut')
    shutil.copytree(REPO + '/pyopenapi', d + '/pyopenapi', ignore=shutil.ignore_patterns('__pycache__'))
    for f in ('setup.py', 'README.md'):
        shutil.copy(os.path.join(REPO, f), d)
    return d


def passes(d):
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-W', 'ignore', '--rootdir=' + d, 'pyopenapi/tests'],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def gen_chunk(ms):
    d = copy()
    out = []
    try:
        for m in ms:
            p = os.path.join(d, m['file'])
            keep = open(p).read()
            open(p, 'w').write(m['text'])
            if passes(d):
                out.append(m)
            open(p, 'w').write(keep)
    finally:
        shutil.rmtree(d)
    return out


def gen(out, only):
    ms = []
    for f in files():
        if not only or any(o in f for o in only):
            ms += mutants(f)
    print(len(ms), 'mutants', flush=True)
    random.Random(1).shuffle(ms)
    ms = ms[int(os.environ.get('FROM', '0')):][:int(os.environ.get('N', '100000'))]
    chunks = [ms[i::64] for i in range(64)]
    alive = []
    with cf.ProcessPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        for i, r in enumerate(ex.map(gen_chunk, chunks)):
            alive += r
            print(i, len(alive), flush=True)
    alive.sort(key=lambda m: (m['file'], m['line'], m['what']))
    for i, m in enumerate(alive):
        m['id'] = i
    json.dump(alive, open(out, 'w'))
    print(len(alive), 'survive the tests')


FIRST = [('converters', 'C15 C16 C18 C17 C19 C21'), ('parameter_context', 'C17 C19'), ('constants', 'C15 C16 C17'), ('v1_2/scanner', 'C20'),
         ('base.py', 'C26 C21 C27 C28 C14'), ('store.py', 'C11 C12 C13'), ('getter.py', 'C24 C14 C23'), ('migration/resolve.py', 'C14 C24'),
         ('scan.py', 'C09'), ('v3_0_0/scanner/resolve.py', 'C21 C27'), ('v2_0/scanner/resolve.py', 'C21 C22'), ('comm.py', 'C22'),
         ('merge.py', 'C22'), ('yaml.py', 'C23 C18'), ('norm_ref.py', 'C21'), ('attrs.py', 'C21 C22'), ('main.py', 'C28 C21 C26 C27'),
         ('consts.py', 'C24 C03 C04'), ('v1_2/objects', 'C07 C20'), ('v2_0/objects', 'C07 C21'), ('v3_0_0/objects', 'C08 C21')]
CONVERTERS = [('schema', 'C15'), ('header', 'C18 C16'), ('respon', 'C18'), ('param', 'C16 C17'), ('item', 'C16'), ('media', 'C17 C18'),
              ('content', 'C17'), ('body', 'C17'), ('path_item', 'C19 C17'), ('operation', 'C19 C17'), ('openapi', 'C19'), ('server', 'C19'),
              ('sec', 'C19'), ('', 'C19 C16')]
UTILS = {'scope': 'C04 C20', 'ScopeDict': 'C04', 'CycleGuard': 'C06 C22', 'jp_': 'C01', 'jr_split': 'C02', 'deref': 'C06', 'final': 'C06',
         'path2url': 'C03', 'normalize_url': 'C03', 'url_dirname': 'C03', 'url_join': 'C03', 'normalize_jr': 'C02', '_fullmatch': 'C02',
         'derel': 'C02', 'get_swagger': 'C26', 'compare': 'C05', 'get_or_none': 'C20', 'patch_path': 'C24', 'get_supported': 'C26'}


def order(m, ev, wall):
    fn = m['file'][:-3].replace('/', '.')
    pat = fn + ':' + m['fn']
    mod = [p for p in ev if any(f.startswith(fn + ':') for f in ev[p])]
    hit = [p for p in mod if any(f == pat or f.startswith(pat + '.') or pat.startswith(f + '.') for f in ev[p])]
    first = []
    for k, v in CONVERTERS:
        if 'converters' in m['file'] and k in m['fn'] and not first:
            first = v.split()
    for k, v in ([] if first else FIRST):
        if m['file'].endswith(k) or k in m['file']:
            first = v.split()
            break
    else:
        for k, v in UTILS.items():
            if m['fn'].startswith(k):
                first = v.split()
    return first + [p for p in sorted(hit, key=lambda p: wall[p]) if p not in first]


def run_one(a):
    m, ev, wall, cap = a
    d = copy()
    tried = []
    try:
        open(os.path.join(d, m['file']), 'w').write(m['text'])
        for p in order(m, ev, wall)[:cap]:
            try:
                r = subprocess.run([os.path.join(VERIF, 'check.py'), p, '--jobs', '1'], cwd=VERIF,
                                   env=dict(os.environ, SX_REPO=d, VERIF_EVIDENCE=d + '/ev', VERIF_BUDGET='420'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            tried.append((p, rc))
            if rc == 1:
                return m['id'], p, tried
            if rc != 0 and rc != 'timeout':
                tried.append((r.stdout.decode()[-300:],))
    finally:
        shutil.rmtree(d)
    return m['id'], None, tried


def run(inp, out, ids):
    ms = json.load(open(inp))
    if ids:
        ms = [m for m in ms if m['id'] in ids]
    ev, wall = {}, {}
    for f in glob.glob(VERIF + '/evidence/C*.json') + glob.glob(os.environ.get('EV2', '/nowhere') + '/C*.json'):
        e = json.load(open(f))
        if 'coverage' not in e:
            continue
        ev.setdefault(e['property'], set()).update(e['coverage']['functions_encoded'])
        wall[e['property']] = max(wall.get(e['property'], 0), e['wall_s'])
    cap = int(os.environ.get('CAP', '6'))
    log = open(out, 'a')
    by = dict((m['id'], m) for m in ms)
    random.Random(2).shuffle(ms)
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        for f in cf.as_completed([ex.submit(run_one, (m, ev, wall, cap)) for m in ms]):
            i, p, tried = f.result()
            m = by[i]
            print('%s %d %s:%d %s | %s | %r -> %r | %s' % ('CAUGHT' if p else 'MISSED', i, m['file'], m['line'], m['fn'], m['what'],
                                                        m['old'], m['new'], tried), file=log, flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], set(int(x) for x in sys.argv[4:]))
