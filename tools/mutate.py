"""Mutation survey: small edits of the code that the stable tests do not notice, and whether
the check of the property they belong to does.  (development tool; no check uses it)
usage: mutate.py OUT.jsonl [--only FILE] [--jobs N] [--step K] [--offset I]"""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
WHERE = [
    ('homogeneousmatrix.py', [('transl rotzyx rotzy rotzx rotyx rotx roty rotz', 'C01'),
                              ('rotzyx_angles', 'C03'), ('zaligned', 'C04'),
                              ('adjoint iadjoint dAdjoint', 'C05'), ('*', 'C02')]),
    ('adjointmatrix.py', [('*', 'C05')]),
    ('twistvector.py', [('adjacency', 'C05'), ('*', 'C06')]),
    ('rigidmotion.py', [('*', 'C07')]),
    ('joints.py', [('integrate', 'C09'), ('*', 'C08 C09')]),
    ('massmatrix.py', [('ismassmatrix transport', 'C11'), ('principalframe', 'C12'),
                       ('*', 'C10')]),
    ('controllers.py', [('WeightController', 'C18'), ('*', 'C19')]),
    ('constraints.py', [('JointLimits', 'C22'), ('BallAndSocketConstraint', 'C23'),
                        ('PointContact', 'C24'), ('get_all_contacts', 'C29'),
                        ('jacobian', 'C24'), ('*', 'C25 C24')]),
    ('collisions.py', [('choose_solver', 'C29'), ('sphere_sphere_collision '
                        '_sphere_sphere_collision sphere_point_collision', 'C26'),
                       ('plane_sphere_collision plane_point_collision _plane_sphere_collision',
                        'C28'), ('*', 'C27')]),
    ('shapes.py', [('Plane', 'C28'), ('*', 'C29 C26 C27 C42')]),
    ('observers.py', [('EnergyMonitor', 'C35'), ('CoMObserver', 'C36'),
                      ('PerfMonitor SocketCom plot', ''), ('*', 'C37')]),
    ('robots/simplearm.py', [('*', 'C38')]), ('robots/snake.py', [('*', 'C38')]),
    ('robots/simpleshapes.py', [('*', 'C38')]),
    ('robots/human36.py', [('*', 'C39')]), ('robots/icub.py', [('*', 'C40')]),
    ('visu/world_drawer.py', [('*', 'C42')]),
    ('core.py', [('NamedObjectsList name_all_elements JointsList NamedObject '
                  'DuplicateNameError', 'C33'),
                 ('simulate', 'C34'), ('parse', 'C41'), ('add_link replace_joint register '
                  'iter_descendant_bodies iter_ancestor_bodies iter_descendant_joints '
                  'iter_ancestor_joints iterbodies iterjoints', 'C31 C30'),
                 ('init', 'C30 C20'), ('integrate', 'C20 C09'),
                 ('update_controllers', 'C17'), ('update_constraints', 'C21'),
                 ('update_geometric', 'C13'), ('_SubFrame SubFrame MovingSubFrame', 'C32'),
                 ('Joint LinearConfigurationSpaceJoint', 'C08 C09 C30'),
                 ('Constraint', 'C21 C23'),
                 ('Body', 'C13 C14 C15 C31 C30'), ('update_dynamic', 'C16'),
                 ('World', 'C30 C31 C16 C20 C33 C41')]),
]


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.path = src, [], []
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new):
        a, b = self.span(n)
        self.out.append((list(self.path), n.lineno, a, b, new))

    def visit(self, n):
        t = type(n)
        if t in (ast.FunctionDef, ast.ClassDef):
            self.path.append(n.name)
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for x in body:
                self.visit(x)
            self.path.pop()
            return
        if t in (ast.Import, ast.ImportFrom):
            return
        if t is ast.Constant and self.path:
            if type(n.value) in (int, float):
                self.add(n, repr(n.value + 1))
                if n.value:
                    self.add(n, repr(n.value * 0))
            elif type(n.value) is bool:
                self.add(n, repr(not n.value))
        if t is ast.BinOp:
            l, r = self.text(n.left), self.text(n.right)
            if isinstance(n.op, ast.Add):
                self.add(n, '(%s) - (%s)' % (l, r))
            if isinstance(n.op, ast.Sub):
                self.add(n, '((%s) + (%s))' % (l, r))
            if isinstance(n.op, ast.Mult):
                self.add(n, '((%s) / (%s))' % (l, r))
            if isinstance(n.op, ast.Div):
                self.add(n, '((%s) * (%s))' % (l, r))
        if t is ast.UnaryOp:
            self.add(n, '(%s)' % self.text(n.operand))
        if t is ast.Compare and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            m = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
                 ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
                 ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
            for o in m[type(n.ops[0])]:
                self.add(n, '(%s) %s (%s)' % (l, o, r))
        if t is ast.BoolOp:
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.add(n, '(' + o.join('(%s)' % self.text(v) for v in n.values) + ')')
        if t is ast.Attribute:
            sw = dict(frame0='frame1', frame1='frame0', start='stop', stop='start', gpos='gvel',
                      gvel='gpos', pose='bpose', bpose='pose', jacobian='djacobian',
                      djacobian='jacobian', iadjoint='adjoint', adjoint='iadjoint',
                      mass='viscosity', viscosity='mass', twist='itwist', _min='_max', _max='_min',
                      ipose='pose', body='body.body')
            v = self.text(n.value)
            if n.attr in sw:
                self.add(n, '%s.%s' % (v, sw[n.attr]))
            if n.attr == 'T':
                self.add(n, v)
        if t is ast.Call:
            f = self.text(n.func)
            a = [self.text(x) for x in n.args]
            if f.endswith('.copy') and not a:
                self.add(n, self.text(n.func.value))
            if f.split('.')[-1] in ('dot', 'outer', 'cross') and len(a) == 2:
                self.add(n, '%s(%s, %s)' % (f, a[1], a[0]))
            if f.split('.')[-1] == 'inv' and len(a) == 1:
                self.add(n, a[0])
        if t in (ast.Assign, ast.AugAssign, ast.Expr) and self.path:
            if not (t is ast.Expr and isinstance(n.value, ast.Constant)):
                self.add(n, 'pass')
            if t is ast.AugAssign:
                self.add(n, '%s = %s' % (self.text(n.target), self.text(n.value)))
        if t is ast.If:
            self.add(n.test, 'True')
            self.add(n.test, 'False')
        self.generic_visit(n)


def mutants(file):
    src = open(os.path.join('/repo/arboris', file)).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    b = src.encode()
    for path, line, a, z, new in f.out:
        s = (b[:a] + new.encode() + b[z:]).decode()
        try:
            compile(s, file, 'exec')
        except SyntaxError:
            continue
        if s != src:
            yield dict(file=file, path=path, line=line, old=b[a:z].decode(), new=new), s


def props(file, path):
    for names, p in dict(WHERE)[file]:
        if names == '*' or set(names.split()) & set(path):
            return p.split()
    return []


def run(job):
    d, s = job
    t = tempfile.mkdtemp(prefix='mut-')
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(r, 'arboris', d['file']), 'w').write(s)
        script = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % r).replace(
            'PYTHONPATH=/repo:', 'PYTHONPATH=%s:' % r)
        open(os.path.join(t, 'test.sh'), 'w').write(script)
        out = os.path.join(t, 'out.json')
        try:
            subprocess.run(['bash', os.path.join(t, 'test.sh'), out], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
            d['tests'] = not (STABLE - set(json.load(open(out))['passed']))
        except Exception:
            d['tests'] = False
        if not d['tests']:
            return d
        d['props'] = props(d['file'], d['path'])
        for p in d['props']:
            env = dict(os.environ, PVC_REPO=r, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1',
                       PVC_EVIDENCE=t)
            try:
                q = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), p],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=env, timeout=900)
                rc, so = q.returncode, q.stdout
            except subprocess.TimeoutExpired:
                rc, so = -1, 'TIMEOUT'
            v = [l for l in so.splitlines() if l.startswith('VIOLATION')]
            if rc == 1 and v:
                d['caught'] = p + (' no-input' if v[0].endswith('found') else '')
                if not v[0].endswith('found'):
                    break
            elif rc != 0:
                d['broken'] = (p, rc, so[-300:])
        return d
    finally:
        shutil.rmtree(t)


ap = argparse.ArgumentParser()
ap.add_argument('out')
ap.add_argument('--only')
ap.add_argument('--jobs', type=int, default=3)
ap.add_argument('--step', type=int, default=1)
ap.add_argument('--offset', type=int, default=0)
ap.add_argument('--count', action='store_true')
A = ap.parse_args()
jobs = []
for f, _ in WHERE:
    if A.only and f not in A.only.split(','):
        continue
    m = [x for x in mutants(f) if props(f, x[0]['path'])]
    print(f, len(m))
    jobs += m
jobs = jobs[A.offset::A.step]
print(len(jobs), flush=True)
if not A.count:
    with ThreadPoolExecutor(A.jobs) as ex, open(A.out, 'a') as fh:
        for d in ex.map(run, jobs):
            fh.write(json.dumps(d) + '\n')
            fh.flush()
            if d['tests'] and 'caught' not in d:
                print('SURVIVES %s:%d %s  %r -> %r %s' % (
                    d['file'], d['line'], '.'.join(d['path']), d['old'][:60], d['new'][:60],
                    d.get('broken', '')), flush=True)
