"""
Helper to plant a bug:  plant(id, property, needs, what_it_breaks, [(file, old, new), ...], demo_python_text)
Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} and confirms it in a scratch copy of /repo:
patch applies, package imports, the stable tests pass, demo.sh 0 on the clean tree / nonzero with the patch,
and which checks catch it (the property's own check by default).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with the repository as working directory
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=e)
    return r.returncode, r.stdout


def verify(bid, tests=True, checks=None):
    d = os.path.join(ROOT, 'seeded', bid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='mut-%s-' % bid)
    repo = os.path.join(tmp, 'repo')
    ok = True
    try:
        sh('cp -a /repo %s' % repo, '/')
        rc, out = sh('git checkout -q -- . && git apply %s/patch.diff' % d, repo)
        if rc:
            print(bid, 'PATCH DOES NOT APPLY', out[-300:])
            return False
        rc, out = sh('bash %s/demo.sh' % d, '/repo')
        if rc:
            print(bid, 'DEMO FAILS ON CLEAN', out[-1500:])
            ok = False
        rc, out = sh('bash %s/demo.sh' % d, repo)
        if rc == 0:
            print(bid, 'DEMO PASSES ON PATCHED', out[-500:])
            ok = False
        if tests:
            rc, out = sh('MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 '
                         'OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 '
                         'PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
                         '--continue-on-collection-errors -n 8 -o junit_family=xunit2 --junitxml=%s/j.xml tests; '
                         '/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (repo, tmp, tmp, tmp), repo)
            r = json.load(open(tmp + '/o.json'))
            b = json.load(open('/opt/vp/BASELINE.json'))

            def names(x):
                for k in ('stable', 'passed', 'pass', 'tests'):
                    if k in x:
                        return set(x[k])
            miss = names(b) - names(r)
            if miss:
                print(bid, 'TESTS BROKEN', sorted(miss)[:5])
                ok = False
        caught = []
        for c in checks or [meta['property']]:
            rc, out = sh('bash run.sh ' + c, ROOT, env={'VERIF_REPO': repo}, timeout=1200)
            if rc == 1 and 'VIOLATION property=' + c in out:
                caught.append(c)
        print(bid, meta['property'], 'OK' if ok else 'BAD', 'caught by', caught or 'NOTHING')
    finally:
        shutil.rmtree(tmp)
    sys.stdout.flush()
    return ok and bool(caught)


def plant(bid, prop, needs, breaks, edits, demo, tests=True, checks=None):
    d = os.path.join(ROOT, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = tmp + '/r'
        sh('git clone -q /repo ' + repo, '/')
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', repo)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return verify(bid, tests, checks)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    for b in a or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        verify(b, tests='--notests' not in sys.argv)
