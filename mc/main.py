import importlib
import os
import shutil
import sys
import tempfile
import traceback


def main():
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = sys.argv[3]
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    # every temporary file of this run lies in one scratch folder, removed at the end
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid.lower())
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    from mc import harness
    try:
        import mushroom_rl
        assert os.path.abspath(mushroom_rl.__file__).startswith(os.path.abspath(os.environ.get('VERIF_REPO', '/repo')) + '/'), mushroom_rl.__file__
        module = importlib.import_module('checks.' + pid.lower())
    except Exception:
        # the code under test cannot even be loaded: the property does not hold on this tree
        traceback.print_exc()
        path = os.path.join(harness.ROOT, 'replays', pid + '-import.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('{"property": "%s", "family": "import", "case": null}' % pid)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(1)
    try:
        rc = harness.run_check(pid, module, tier, seed, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
