#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE : run the contracts of one property."""
import os
import sys

PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PVC_CHILD') != '1':
    env = dict(os.environ, PVC_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    os.execve(PY, [PY, os.path.join(ROOT, 'check.py')] + sys.argv[1:], env)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from pvc import run as R   # noqa: E402


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    args = []
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--only':
            only = next(it)
        elif a == '--replay':
            return do_replay(next(it))
        else:
            args.append(a)
    return max([R.check(p, tier, seed, only=only) for p in args])


def do_replay(path):
    import json
    with open(path) as f:
        d = json.load(f)
    cs = {c.name: c for c in R.load_contracts(d['property'])}
    rc = 0
    for v in d['violations']:
        c = cs[v['contract']]
        env = R.Env(0, d['seed'], R.unwit(v['witness']))
        st, fails, C = R.one_con(c, env, v.get('choices'))
        print(v['contract'], v['obligation'], st, fails[:2])
        rc |= st == 'fail'
    return int(rc)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
