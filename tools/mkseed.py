"""
Development tool (no check uses it): builds and validates a planted bug.
  mkseed(id, property, needs, what_it_breaks, [(file, old, new), ...], demo_python_source)
"""
import json
import os
import shutil
import subprocess
import sys

V = os.environ.get('SEED_VERIF', '/verif')
R = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=ENV)


def demo(d, cwd):
    try:
        return sh('timeout 250 bash %s/demo.sh' % d, cwd, 300)
    except subprocess.TimeoutExpired:
        return None


def tests(cwd):
    w = cwd + '-work'
    os.makedirs(w, exist_ok=True)
    base = PY + ' -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors -o junit_family=xunit2 '
    sh(base + '--junitxml=%s/a.xml -p no:xdist tests/test_files.py tests/test_configuration' % w, cwd)
    sh(base + '--junitxml=%s/b.xml -n 8 --dist loadfile --ignore=tests/test_files.py --ignore=tests/test_configuration tests' % w, cwd)
    sh('/usr/bin/python3 /opt/vp/results.py %s/out.json "junit:%s/*.xml"' % (w, w), cwd)
    got = set(json.load(open(w + '/out.json'))['passed'])
    shutil.rmtree(w)
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in got]


def mkseed(id, prop, needs, breaks, edits, demo_src, run=True, check=None):
    d = V + '/seeded/' + id
    c = '/tmp/seedwt-' + id
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(R, c, symlinks=True)
    try:
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(demo_src.lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                    'exec timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        r = demo(d, c)
        if r is None or r.returncode != 0:
            print(id, 'DEMO FAILS ON CLEAN TREE', r and r.stdout[-500:], r and r.stderr[-1500:])
            return False
        for file, old, new in edits:
            p = os.path.join(c, file)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (id, file, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run('git diff', shell=True, cwd=c, capture_output=True, env=ENV).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        r = demo(d, c)
        if r is not None and r.returncode == 0:
            print(id, 'DEMO PASSES WITH THE PATCH')
            return False
        bad = tests(c) if run else []
        print(id, 'tests lost:', bad, '| demo:', r and (r.stderr.strip().split('\n') or [''])[-1][:150])
        return not bad
    finally:
        shutil.rmtree(c, ignore_errors=True)


def against(id, prop=None, tier='quick'):
    """Runs the property's check with the planted bug applied to /repo, and undoes it."""
    d = V + '/seeded/' + id
    prop = prop or json.load(open(d + '/meta.json'))['property']
    assert not sh('git status --porcelain', R).stdout, 'dirty /repo'
    r = sh('git apply %s/patch.diff' % d, R)
    if r.returncode:
        print(id, 'DOES NOT APPLY', r.stderr)
        return
    try:
        r = sh('bash run.sh %s %s' % (prop, tier), V, 1000)
        print(id, prop, 'exit', r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l][:1], r.stdout.strip().split('\n')[-1][:200])
    finally:
        sh('git checkout -- .', R)


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
        against(i)
