"""Degenerate data that the other contracts keep away from: plates, rods and points without
mass, bodies with an inertia but no weight."""
import numpy as np
from pvc.run import contract
from c_collisions import attached
from c_mass import _diag6
from c_world import body_in_motion, two_bodies


@contract('C10')
def thin_solids(C):
    """Some of the sizes are zero."""
    M = C.mod('massmatrix')
    m = C.pos('m') if C.choice('mass', (True, False)) else C.const(0)
    flat = C.choice('flat', ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)))
    d = [C.const(0) if i in flat else C.pos('xyz'[i]) for i in range(3)]
    x, y, z = d
    I = [m * (y * y + z * z), m * (x * x + z * z), m * (x * x + y * y)]
    C.eq('box (half extents)', M.box(tuple(d), m), _diag6(C, [i / 3 for i in I], m))
    C.eq('ellipsoid', M.ellipsoid(tuple(d), m), _diag6(C, [i / 5 for i in I], m))
    t = m * (y * y / 4 + x * x / 12)
    C.eq('cylinder (axis z)', M.cylinder(x, y, m), _diag6(C, [t, t, m * y * y / 2], m))
    i = 2 * m * x * x / 5
    C.eq('sphere', M.sphere(x, m), _diag6(C, [i, i, i], m))


@contract('C15')
def weightless_inertia(C):
    """A body with moments of inertia and no mass: the gyroscopic torque only."""
    I = C.sym_mat('I', 3)
    T = C.vec('T', 6)
    M = C.zeros((6, 6))
    M[0:3, 0:3] = I
    f = body_in_motion(C, M, T, C.hom('H')).nleffects @ T
    C.eq('torque', f[0:3], C.skew(T[0:3]) @ (I @ T[0:3]))
    C.eq('force', f[3:6], C.zeros(3))


@contract('C16')
def weightless_bodies(C):
    """Bodies without mass count by their inertia and their viscosity."""
    w, bodies, nu = two_bodies(C)
    for x, k in zip(bodies, C.choice('kinds', (('rotor', 'solid'), ('solid', 'rotor'),
                                               ('nothing', 'rotor'), ('nothing', 'nothing')))):
        if k != 'solid':
            x.mass = C.zeros((6, 6))
        if k == 'rotor':
            x.mass[0:3, 0:3] = C.sym_mat('R', 3)
    w.update_dynamic()
    C.eq('mass', w.mass, sum(b.jacobian.T @ b.mass @ b.jacobian for b in bodies))
    C.eq('viscosity', w.viscosity, sum(b.jacobian.T @ b.viscosity @ b.jacobian for b in bodies))
    C.eq('nonlinear effects', w.nleffects @ nu, sum(
        b.jacobian.T @ (b.mass @ (b.djacobian @ nu) + b.nleffects @ (b.jacobian @ nu))
        for b in bodies))


@contract('C27', sym=False, samples=400,
          bounded='plates, rods, points, cubes and square boxes, in the frame of their body')
def special_boxes(C):
    """Boxes with equal or zero sizes, given as lists, tuples or arrays."""
    core, sh, co = C.mod('core'), C.mod('shapes'), C.mod('collisions')
    a, b = C.real('a', .1, 2), C.real('b', .1, 2)
    h = np.array(C.choice('sizes', ((a, a, a), (1., 1., 1.), (a, a, b), (a, b, a), (b, a, a), (0, a, b),
                                    (a, 0, b), (a, b, 0), (0, 0, a), (0, a, 0), (a, 0, 0), (0, 0, 0))),
                 dtype=float)
    r = C.choice('radius', (0, C.real('r', 0, 1)))
    p = C.vec('p', 3, -1, 1) * C.choice('near', (h + .01, h, 2 * h + 1))
    H = C.hom('H')
    body = core.Body()
    Z = C.zeros((6, 0))
    body.update_dynamic(H, Z, Z, C.zeros(6))
    box = sh.Box(body, C.choice('type', (tuple, list, np.array))(h))
    f1 = attached(C, H[0:3, 0:3] @ p + H[0:3, 3], '1')
    if r == 0:
        d, H0, H1 = co.box_point_collision((box, sh.Point(f1)))
    else:
        d, H0, H1 = co.box_sphere_collision((box, sh.Sphere(f1, r)))
    R, o = H[0:3, 0:3], H[0:3, 3]
    if np.any(abs(p) > h):
        C.assume(np.linalg.norm(p - np.clip(p, -h, h)) > 1e-6)
        f = np.clip(p, -h, h)
        L = np.linalg.norm(p - f)
        n = (p - f) / L
    else:
        C.assume((h > 0).all())
        x = sorted(h - abs(p))
        i = int(np.argmin(h - abs(p)))
        C.assume(x[1] - x[0] > 1e-6 and abs(p[i]) > 1e-6)
        n = np.zeros(3)
        n[i] = 1 if p[i] > 0 else -1
        L = -x[0]
        f = p.copy()
        f[i] = n[i] * h[i]
    C.eq('distance', d, L - r)
    C.eq('box point', H0[0:3, 3], R @ f + o)
    C.eq('normal', H0[0:3, 2], R @ n)
    C.eq('sphere point', H1[0:3, 3], R @ (p - r * n) + o)


# ------------------------------------------------------------------------ C38
def some_options(sizes):
    def body(C):
        """Each option of a snake has its own default."""
        core = C.mod('core')
        w = core.World()
        n = C.choice('links', sizes)
        val = dict(lengths=[C.one / 2] * n, masses=[C.one * 2] * n, gpos=[C.const(0)] * n,
                   gvel=[C.const(0)] * n)
        kw = {}
        for k in ('lengths', 'masses', 'gpos', 'gvel'):
            if C.choice('with ' + k, (True, False)):
                val[k] = kw[k] = [(C.real if k[0] == 'g' else C.pos)('%s%d' % (k, i))
                                  for i in range(n)]
        if C.choice('free', (True, False)):
            kw['is_fixed'] = False
        if 'masses' in kw:
            for m in kw['masses']:
                C.assume_lt(C.const(1) / 10 ** 6, m)
        if 'lengths' in kw:
            for x in kw['lengths']:
                C.assume_lt(C.const(1) / 10 ** 3, x)
        k = 0 if 'is_fixed' not in kw else 1
        C.mod('robots.snake').add_snake(w, n, **kw)
        bodies, js = list(w.iterbodies())[1:], list(w.iterjoints())
        C.true('links', len(bodies) == n + k and w.ndof == n + 6 * k)
        if k:
            C.eq('mass of the base', bodies[0].mass[5, 5], val['masses'][0])
        C.eq('masses', [b.mass[5, 5] for b in bodies[k:]], val['masses'])
        C.eq('centers', [b.mass[2, 3] for b in bodies[k:]],
             [-x * m / 2 for x, m in zip(val['lengths'], val['masses'])])
        C.eq('positions', [j.gpos[0] for j in js[k:]], val['gpos'])
        C.eq('velocities', list(w.gvel), [0] * (6 * k) + val['gvel'])
        for j, x in zip(js[k + 1:], val['lengths']):
            C.eq('where the next one starts', j.frame0.bpose[0:3, 3], [0, x, 0])
        C.eq('end', list(w.itersubframes())[-1].bpose[0:3, 3], [0, val['lengths'][-1], 0])
    return body


contract('C38', 'snake_long', sym=False, samples=40, bounded='up to 60 links')(
    some_options((1, 2, 12, 60)))
