"""plant bugs: tools/seed.py SEEDFILE [id...]

SEEDFILE defines SEEDS, a list of dicts with id, prop, edits [(file, old, new)],
demo (python source; sys.path starts with the cwd), needs, breaks. Each one is
applied to a scratch copy of /repo, the stable tests and the demonstration are
run there, then the check of the property against it. Those for which the tests
pass and the demonstration distinguishes are written to /verif/seeded/<id>.
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(copy):
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + copy,
                  '-rfE', 'pyopenapi/tests'], copy, dict(ENV, PYTHONPATH=copy))
    return [l for l in out.splitlines() if l.startswith(('FAILED', 'ERROR'))], out.splitlines()[-1:]


def own_lines_only(diff):
    """removes lines, but only ones that commits after the first one of /repo added"""
    orig = own = at = 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout
            blame = dict((i + 1, not x.startswith('^')) for i, x in enumerate(out.splitlines()))
        elif l.startswith('@@'):
            at = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-'):
            orig, own, at = orig + (not blame[at]), own + blame[at], at + 1
        elif l.startswith(' '):
            at += 1
    return own and not orig


def run(s, base_fail, check=True):
    d = tempfile.mkdtemp(prefix='seed_')
    copy = os.path.join(d, 'r')
    demo = os.path.join(d, 'demo')
    os.mkdir(demo)
    rep = []
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        open(demo + '/demo.py', 'w').write(s['demo'].lstrip())
        open(demo + '/demo.sh', 'w').write(SH)
        for name, body in s.get('files', {}).items():
            open(os.path.join(demo, name), 'w').write(body)
        rc0, out0 = sh(['bash', demo + '/demo.sh'], copy)
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            src = open(p).read()
            if src.count(old) != 1:
                return s['id'], 'BAD', ['old text occurs %d times in %s' % (src.count(old), f)]
            open(p, 'w').write(src.replace(old, new))
        fails, last = tests(copy)
        new_fails = [f for f in fails if f.split(' - ')[0] not in base_fail]
        rc1, out1 = sh(['bash', demo + '/demo.sh'], copy)
        ok = rc0 == 0 and rc1 != 0 and not new_fails
        rep.append('demo clean=%d patched=%d tests=%s' % (rc0, rc1, last))
        if rc0: rep.append(out0[-800:])
        if not rc1 and not rc0: rep.append('demo quiet on the patch')
        rep += new_fails[:6]
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, text=True).stdout
        if own_lines_only(diff):
            rep.append('changes lines of my own commits only')
            ok = False
        caught = '-'
        if check and ok:
            for prop in [s['prop']] + s.get('also', []):
                rc, out = sh(['/verif/check.py', prop], '/verif',
                             dict(os.environ, SX_REPO=copy, VERIF_EVIDENCE=d), timeout=2000)
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                rep.append('%s rc=%d %s' % (prop, rc, v[:1]))
                if rc == 1 and v:
                    caught = prop
                    break
        if ok:
            dst = '/verif/seeded/' + s['id']
            os.makedirs(dst, exist_ok=True)
            for name in os.listdir(demo):
                shutil.copy(os.path.join(demo, name), dst)
            open(dst + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(dst + '/meta.json', 'w'), indent=1)
        return s['id'], 'OK caught=%s' % caught if ok else 'REJECTED', rep
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    check = '--nocheck' not in sys.argv
    if ids:
        seeds = [s for s in seeds if s['id'] in ids]
    fails, _ = tests('/repo')
    base_fail = set(f.split(' - ')[0] for f in fails)
    for s in seeds:
        try:
            i, st, rep = run(s, base_fail, check)
        except Exception as e:
            i, st, rep = s['id'], 'ERR', [repr(e)]
        print('%-28s %s' % (i, st))
        for r in rep:
            print('     ', str(r)[:700].replace('\n', '\n      '))
        sys.stdout.flush()


main()
