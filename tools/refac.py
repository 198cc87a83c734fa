"""Apply behaviour-preserving rewrites to a scratch copy of the repository, run the stable tests
and every check on it: no check may raise an alarm.    (development tool; no check uses it)
usage: refac.py SPEC.py [--props C01,C02] [--keep]
A spec lists (file, 'Class.function' or None, new source): the function is replaced by the source
(which may hold several definitions); with None, (old, new) text is replaced."""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def find(tree, path):
    for n in tree.body:
        if getattr(n, 'name', None) == path[0]:
            return n if len(path) == 1 else find(n, path[1:])
    raise KeyError(path)


def apply(repo, edits):
    for f, where, new in edits:
        p = os.path.join(repo, 'arboris', f)
        s = open(p, encoding='utf-8').read()
        if where is None:
            old, new = new
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        else:
            n = find(ast.parse(s), where.split('.'))
            lines = s.split('\n')
            lo = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            src = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * n.col_offset)
            s = '\n'.join(lines[:lo] + src.split('\n') + lines[n.end_lineno:])
        open(p, 'w', encoding='utf-8').write(s)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    props = ['C%02d' % i for i in range(1, 45) if i != 43]
    if '--props' in sys.argv:
        props = sys.argv[sys.argv.index('--props') + 1].split(',')
    tmp = tempfile.mkdtemp(prefix='refac_')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, text in ns.get('FILES', {}).items():
            open(os.path.join(repo, 'arboris', f), 'w', encoding='utf-8').write(text)
        apply(repo, ns.get('EDITS', ()))
        if ns.get('RENAME'):    # private names, everywhere
            for d, _, fs in os.walk(os.path.join(repo, 'arboris')):
                for f in fs:
                    if f.endswith('.py'):
                        p = os.path.join(d, f)
                        s = open(p, encoding='utf-8').read()
                        for k in ns['RENAME']:
                            s = re.sub(r'(?:(?<=\.)|(?<=def ))%s\b' % k, ns['RENAME'][k], s)
                        open(p, 'w', encoding='utf-8').write(s)
        out = os.path.join(tmp, 'out.json')
        script = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % repo).replace(
            'PYTHONPATH=/repo:', 'PYTHONPATH=%s:' % repo)
        open(os.path.join(tmp, 't.sh'), 'w').write(script)
        r = sh('bash %s/t.sh %s' % (tmp, out), repo)
        bad = sorted(STABLE - set(json.load(open(out))['passed']))
        print('tests', bad or 'pass', flush=True)
        if bad:
            print(r.stdout[-3000:])

        def one(p):
            env = dict(os.environ, PVC_REPO=repo, VERIF_SEED='1', PVC_EVIDENCE=tmp)
            r = sh('%s %s/check.py %s' % (sys.executable, VERIF, p), VERIF, env=env)
            if r.returncode:
                print('ALARM', p, r.returncode, '\n' + '\n'.join(
                    x[:700] for x in r.stdout.split('\n')[-14:]), flush=True)
            return r.returncode
        with ThreadPoolExecutor(2) as ex:
            print('alarms:', sum(1 for x in ex.map(one, props) if x))
    finally:
        if '--keep' in sys.argv:
            print(tmp)
        else:
            shutil.rmtree(tmp)


main()
