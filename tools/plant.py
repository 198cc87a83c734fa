"""Turn the planted bugs described in a python file into seeded/<id>/ folders, after
checking each in a scratch copy: it applies, the stable tests pass, the demonstration
passes without and fails with it. Then run the check of its property on the copy.

usage: plant.py SPEC.py [id ...]      (development tool; no check uses it)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    out = os.path.join(repo, '.out.json')
    script = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % repo).replace(
        'PYTHONPATH=/repo:', 'PYTHONPATH=%s:' % repo)
    p = os.path.join(repo, '.test.sh')
    open(p, 'w').write(script)
    sh('bash %s %s' % (p, out), repo)
    d = json.load(open(out))
    return sorted(STABLE - set(d['passed']))


def demo(folder, repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    return sh('bash %s/demo.sh' % folder, repo, env=env)


def one(b):
    folder = os.path.join(VERIF, 'seeded', b['id'])
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        edits = b['edits']
        for f, old, new in edits:
            p = os.path.join(repo, 'arboris', f)
            s = open(p).read()
            if s.count(old) != 1:
                return b, 'BAD: %d matches of %r' % (s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, 'patch.diff'), 'w').write(diff)
        open(os.path.join(folder, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(folder, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run with the repository as the current directory\n'
            'd=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        r = demo(folder, repo)
        if r.returncode == 0:
            return b, 'BAD: demo passes with the bug\n' + r.stdout[-800:]
        last = r.stdout.strip().split('\n')[-1]
        r0 = demo(folder, '/repo')
        if r0.returncode != 0:
            return b, 'BAD: demo fails on the unchanged tree\n' + r0.stdout[-1500:]
        t = tests(repo)
        if t:
            return b, 'BAD: tests fail: %s' % t
        env = dict(os.environ, PVC_REPO=repo, VERIF_SEED='1', PVC_EVIDENCE=tmp)
        r = sh('%s %s/check.py %s --tier quick' % (sys.executable, VERIF, b['property']), VERIF,
               env=env, timeout=1200)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        if r.returncode == 1 and v and 'no-failing-input' not in v[0]:
            return b, 'CAUGHT   (%s)' % last[:70]
        if r.returncode == 1 and v:
            return b, 'caught without input (%s)\n%s' % (last[:70], r.stdout[:1500])
        return b, 'MISSED rc=%d (%s)\n%s' % (r.returncode, last[:70], r.stdout[-600:])
    finally:
        shutil.rmtree(tmp)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(5) as ex:
        for b, r in ex.map(one, bugs):
            print('%-32s %s %s' % (b['id'], b['property'], r), flush=True)
            if r.startswith('BAD'):
                f = os.path.join(VERIF, 'seeded', b['id'])
                if os.path.isdir(f):
                    shutil.rmtree(f)


main()
