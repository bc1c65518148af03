#!/usr/bin/env python3
"""seed.py check [ID...]: confirm planted bugs in a scratch copy of /repo (tests pass, demo fails with, passes without)
seed.py detect [ID...] [--props C01,C02]: run the checks on a patched scratch copy (VERIF_REPO) and print what catches it"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'


def copy():
    d = tempfile.mkdtemp(prefix='seed_')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d + '/repo'


def env(r):
    e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1')
    return e


def main():
    mode = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(SEED))
    bad = 0
    for i in ids:
        d = os.path.join(SEED, i)
        r = copy()
        try:
            meta = json.load(open(d + '/meta.json'))
            subprocess.check_call(['git', '-C', r, 'apply', d + '/patch.diff'])
            if mode == 'check':
                t = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=env(r), capture_output=True, text=True)
                where = subprocess.run([PY, '-B', '-c', 'import skcurve; print(skcurve.__file__)'], cwd=r, env=env(r), capture_output=True, text=True).stdout.strip()
                a = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=env(r), capture_output=True, text=True)
                b = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
                ok = t.returncode == 0 and a.returncode != 0 and b.returncode == 0 and where.startswith(r)
                bad += not ok
                print(i, 'OK' if ok else 'BAD', 'tests', t.returncode, 'patched demo', a.returncode, 'clean demo', b.returncode)
                if not ok:
                    print(t.stdout[-600:], a.stdout[-300:], a.stderr[-300:], b.stdout[-300:], b.stderr[-300:])
            else:
                props = [meta['property']]
                for x in sys.argv[2:]:
                    if x.startswith('--props='):
                        props = x[8:].split(',')
                for p in props:
                    c = subprocess.run(['python3-vt', ROOT + '/check.py', p], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
                    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                    print(i, p, 'exit', c.returncode, 'violations', len(v), c.stdout.splitlines()[-1:] )
                    bad += c.returncode != 1
        finally:
            shutil.rmtree(os.path.dirname(r))
    sys.exit(bool(bad))


main()
