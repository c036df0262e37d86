#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, then one section per property (statement, cases and bounds are
read from properties.jsonl and /verif/props; the notes below are by hand), then the table of planted bugs."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {}
cur = None
for line in open(os.path.join(V, 'tools', 'design_notes.md')):
    if line.startswith('## '):
        cur = line[3:].strip()
        NOTES[cur] = ''
    elif cur:
        NOTES[cur] += line

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]


def cases(pid):
    t = ast.parse(open(os.path.join(V, 'props', pid.lower() + '.py')).read())
    assume, out = [], []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            assume = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'case':
                    q = ast.unparse(d.args[0])[5:-1]
                    th = [ast.unparse(x)[5:-1] for x in d.args[1].elts] if len(d.args) > 1 else []
                    out.append((n.name, ' '.join((ast.get_docstring(n) or '').split()), q, th))
    return assume, out


w = []
w.append(open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip() + '\n')
w.append('\n## Properties\n\nStatements are in properties.jsonl. Bounds: quick, then what `thorough` runs on top of it.\n')
for p in props:
    assume, cs = cases(p['id'])
    w.append('\n### %s %s\n\n' % (p['id'], p['title']))
    if NOTES.get(p['id']):
        w.append(NOTES[p['id']].strip() + '\n\n')
    w.append('Code: %s.\n\n' % ', '.join('`%s`' % f for f in p['anchors']['files']))
    w.append('Cases:\n\n')
    for name, doc, q, th in cs:
        b = q or 'as written'
        if th:
            b += '; thorough: ' + ' / '.join(x or 'as written' for x in th)
        w.append('- `%s`: %s [%s]\n' % (name, doc, b))
    if assume:
        w.append('\nAssumed, or not claimed:\n\n')
        for a in assume:
            w.append('- %s\n' % a)
w.append('\n## Planted bugs\n\nEach was planted in a copy from the text of the property and the code; "caught" is the exit '
         'code of the check of that property on the patched tree (tools/seedcheck.py).\n\n'
         '| bug | property | what it breaks | needs |\n|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    w.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'],
                                         m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
w.append('\n' + NOTES.get('seeds', '').strip() + '\n')
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(w))
