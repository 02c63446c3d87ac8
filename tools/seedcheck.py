"""Confirms planted bugs in scratch copies and tries the checks on them (development tool, no check uses it).

    python tools/seedcheck.py [--all-checks] [--no-check] ID ...

For each seeded/<ID>: the demo passes on a clean copy, and with the patch the package compiles, the stable tests pass, the
demo fails, and the check of the property (or all of them) exits 1."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONWARNINGS='ignore', PYTHONPATH=cwd)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def demo(sid, cwd):
    d = tempfile.mkdtemp(prefix='demo')
    try:
        for f in os.listdir(os.path.join(ROOT, 'seeded', sid)):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(ROOT, 'seeded', sid, f), d)
        return sh('bash %s/demo.sh' % d, cwd, timeout=300)
    finally:
        shutil.rmtree(d)


def one(sid, checks):
    meta = json.load(open(os.path.join(ROOT, 'seeded', sid, 'meta.json')))
    top = tempfile.mkdtemp(prefix='seed-')
    work = os.path.join(top, 'repo')
    try:
        shutil.copytree('/repo', work, symlinks=True)
        subprocess.run('git checkout -q -- .', shell=True, cwd=work)
        rc, out = demo(sid, work)
        if rc != 0:
            return sid, 'DEMO FAILS ON CLEAN TREE\n' + out[-1500:]
        rc, out = sh('git apply %s' % os.path.join(ROOT, 'seeded', sid, 'patch.diff'), work)
        if rc != 0:
            return sid, 'PATCH DOES NOT APPLY\n' + out
        rc, out = demo(sid, work)
        if rc == 0:
            return sid, 'DEMO PASSES WITH THE PATCH\n' + out[-1500:]
        why = out.strip().splitlines()[-1] if out.strip() else ''
        rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --tb=short -W ignore -rA tests 2>&1', work)
        passed = len(set(re.findall(r'^PASSED (\S+)', out, re.M)))
        if passed < len(STABLE):
            return sid, 'TESTS FAIL (%d passed)\n%s' % (passed, out[-2500:])
        res = []
        for c in checks or [meta['property']]:
            if c == '-':
                continue
            rc, out = sh('./check.sh %s quick' % c, ROOT, env=dict(MC_REPO=work, PYTHONPATH=work))
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            if rc != 0 or not checks or len(checks) == 1:
                res.append('%s:%s' % (c, 'caught' if rc == 1 and v else 'rc=%d %s' % (rc, out[-300:] if rc else 'MISSED')))
        return sid, 'ok [%s] demo: %s' % (' '.join(res), why[:120])
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    if '--no-check' in args:
        args.remove('--no-check')
        checks = ['-']
    if '--all-checks' in args:
        args.remove('--all-checks')
        checks = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    for sid in args or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        print('%s: %s' % one(sid, checks), flush=True)
