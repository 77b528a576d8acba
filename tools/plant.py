"""plant.py SPEC.py: makes seeded/<id> from a list of bugs and tries each of them in /repo

SPEC defines bug(id, property, file, [(old, new), ...], needs, breaks, demo)
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PLANT_REPO', '/repo')
PY = '/opt/venv/bin/python'
HEAD = '''import os, sys, tempfile, atexit, shutil, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
_d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, _d, True)
os.chdir(_d)          # pyRFtk writes its log in the current directory
import numpy as np


def close(a, b, what=''):
    a, b = np.array(a), np.array(b)
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=1e-9):
        print('FAIL', what, a, b)
        sys.exit(1)

'''
BUGS = []


def bug(*a):
    BUGS.append(a)


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh('git', '-C', REPO, 'checkout', '--', '.')


def main(spec, only):
    exec(open(spec).read(), dict(bug=bug))
    assert not sh('git', '-C', REPO, 'status', '--short').stdout
    for id, prop, file, reps, needs, breaks, demo in BUGS:
        if only and id not in only:
            continue
        path = os.path.join(REPO, 'src/pyRFtk', file)
        try:
            s = open(path, newline='').read()
            crlf = '\r\n' in s
            for old, new in reps:
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert s.count(old) == 1, (id, s.count(old), old)
                s = s.replace(old, new)
            open(path, 'w', newline='').write(s)
            d = os.path.join(ROOT, 'seeded', id)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'patch.diff'), 'w') as f:
                f.write(sh('git', '-C', REPO, 'diff').stdout)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(HEAD + demo.strip() + "\nprint('ok')\n")
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f,
                          indent=1)
                f.write('\n')
            on = sh('bash', d + '/demo.sh', cwd=REPO)
            # the test script of the sandbox on the repository in which the bug is planted
            t = open('/opt/vp/test.sh').read().replace('/repo', REPO)
            sh('bash', '-c', t, 'test.sh', '/tmp/plant_out.json')
            res = json.load(open('/tmp/plant_out.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            lost = stable - set(res['passed'])
            r = sh(PY, ROOT + '/check.py', prop, '--noev', cwd=ROOT,
                   env=dict(os.environ, PYRFTK_SRC=REPO + '/src'))
            caught = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        finally:
            clean()
        off = sh('bash', d + '/demo.sh', cwd=REPO)
        print('%-28s %s demo %d/%d %s tests %s  check %d %s' % (
            id, prop, off.returncode, on.returncode,
            'OK ' if (off.returncode == 0 and on.returncode) else 'BAD',
            'ok' if not lost else 'LOST %s' % lost, r.returncode,
            'caught (%d)' % len(caught) if r.returncode == 1 and caught else 'MISSED'),
            flush=True)
        if off.returncode or not on.returncode:
            print('   off:', (off.stdout + off.stderr)[-300:])
            print('   on:', (on.stdout + on.stderr)[-300:])


main(sys.argv[1], sys.argv[2:])
