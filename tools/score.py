"""Run the check of its property against every change in seeded/ (each in a scratch copy of
/repo, through PVC_REPO).   usage: score.py [id ...]    (development tool; no check uses it)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    d = os.path.join(VERIF, 'seeded', b)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='score-')
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r)
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r)
        if p.returncode:
            return b, prop, 'DOES NOT APPLY', ''
        ev = os.path.join(t, 'evidence')
        env = dict(os.environ, PVC_REPO=r, PYTHONDONTWRITEBYTECODE='1', PVC_EVIDENCE=ev,
                   VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        f = [l for l in p.stdout.splitlines() if l.startswith('FAILED')]
        if p.returncode == 1 and v:
            what = 'caught' + (' (no input)' if v[0].endswith('no-failing-input-found') else '')
        else:
            what = 'MISSED' if p.returncode == 0 else 'BROKEN'
        return b, prop, what, (f[0][:110] if f else p.stdout[-300:] if what != 'MISSED' else '')
    finally:
        shutil.rmtree(t)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
with ThreadPoolExecutor(4) as ex:
    n = 0
    for b, prop, what, f in ex.map(one, ids):
        n += what.startswith('caught')
        print('%-24s %s %-18s %s' % (b, prop, what, f), flush=True)
print('%d of %d' % (n, len(ids)))
