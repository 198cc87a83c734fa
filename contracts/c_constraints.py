"""Joint limits, ball and socket, point and soft-finger contacts."""
import numpy as np
from pvc.run import contract
from c_dyn import subframe
from c_world import arb_world


# ------------------------------------------------------------------------ C22
def spd_adm(C, n, coupled=True):
    """A symmetric positive definite admittance (n <= 2)."""
    a = [C.real('Y%d' % i, 0, 5, strict=True, lo_sample=.1) for i in range(n)]
    Y = C.diag(a)
    if n == 2 and coupled:
        c = C.real('Yc', -2, 2)
        Y[0, 1] = Y[1, 0] = c
        C.assume_lt(c * c, a[0] * a[1])
    return Y


def limited(C, n, prox=None):
    J, cs, core = C.mod('joints'), C.mod('constraints'), C.mod('core')
    q, v = C.vec('q', n, -2, 2), C.vec('v', n)
    lo, hi = C.vec('lo', n, -1, 0), C.vec('hi', n, 0, 1)
    for i in range(n):
        C.assume_lt(lo[i], hi[i])
    j = {1: J.RzJoint, 2: J.RzRyJoint}[n](gpos=q, gvel=v)
    w = core.World()
    w.add_link(w.ground, J.TxJoint(), core.Body())
    w.add_link(w.ground, j, core.Body())
    c = cs.JointLimits(j, list(lo), list(hi), prox)
    w.register(c)
    w.add_link(w.ground, J.TyJoint(), core.Body())
    w.init()
    w.update_dynamic()
    return w, j, c, q, v, lo, hi


def limits_solve(n, coupled):
    def body(C):
        w, j, c, q, v, lo, hi = limited(C, n)
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        C.eq('size', c.ndol, n)
        Jc = c.jacobian
        C.eq('jacobian', Jc @ w.gvel, v)
        c.update(dt)
        C.eq('no force before solving', c.gforce, C.zeros(w.ndof))
        Y = spd_adm(C, n, coupled)
        f = C.zeros(n)
        for sweep in (0, 1):
            vel = C.vec('vel%d' % sweep, n, -5, 5)
            d = c.solve(vel, Y, dt)
            fn = f + d
            C.eq('force', c.gforce, Jc.T @ fn)
            free = q + dt * (vel - Y @ f)        # position reached without force
            x = q + dt * (vel + Y @ d)           # position reached with the new force
            below = [bool(free[i] <= lo[i]) for i in range(n)]
            above = [not below[i] and bool(hi[i] <= free[i]) for i in range(n)]
            for i in range(n):
                if below[i]:
                    C.le('pushes up', 0, fn[i])
                elif above[i]:
                    C.le('pushes down', fn[i], 0)
                else:
                    C.eq('free', fn[i], 0)
                if not coupled or n == 1 or sum(below) + sum(above) == 1:
                    if below[i]:
                        C.eq('stopped at the lower bound', x[i], lo[i])
                    elif above[i]:
                        C.eq('stopped at the upper bound', x[i], hi[i])
                    elif not coupled:
                        C.lt('stays inside', lo[i], x[i])
                        C.lt('stays inside', x[i], hi[i])
                elif not sum(below) + sum(above):
                    C.lt('stays inside', lo[i], x[i])
                    C.lt('stays inside', x[i], hi[i])
            if sum(below) + sum(above) == 2:
                # both stopped, unless one of them would have to stick
                target = C.arr([lo[i] if below[i] else hi[i] for i in range(n)])
                g = C.inv(Y) @ (target - free) / dt
                ok = [bool(g[i] >= 0) if below[i] else bool(g[i] <= 0) for i in range(n)]
                if all(ok):
                    C.eq('both stopped', x, target)
                for i in range(n):
                    if not ok[i]:
                        C.eq('never sticks', fn[i], 0)
            f = fn
            if n == 2 and not C.concrete():
                break
        c.update(dt)
        C.eq('no force at the next step', c.gforce, C.zeros(w.ndof))
    return body


contract('C22', 'one_dof')(limits_solve(1, False))
contract('C22', 'two_dof')(limits_solve(2, False))
contract('C22', 'two_coupled_dof')(limits_solve(2, True))


@contract('C22')
def sweeps_two_dof(C):
    """The solution only depends on the force-free prediction, whatever the force
    left by earlier sweeps."""
    w, j, c, q, v, lo, hi = limited(C, 2)
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    c.update(dt)
    Y = spd_adm(C, 2, False)
    a, b = C.vec('a', 2, -5, 5), C.vec('b', 2, -5, 5)
    f = c.solve(a, Y, dt)
    d = c.solve(b + Y @ f, Y, dt)
    f1 = f + d
    c.update(dt)
    f2 = c.solve(b, Y, dt)
    C.eq('same force', f1, f2)


def limits_active(n):
    def body(C):
        prox = C.vec('prox', n, 0, 1)
        w, j, c, q, v, lo, hi = limited(C, n, list(prox))
        c.update(C.pos('dt', 1))
        near = False
        for i in range(n):
            near = near or bool(q[i] - lo[i] < prox[i]) or bool(hi[i] - q[i] < prox[i])
        C.true('active near a bound', bool(c.is_active()) == near)
    return body


contract('C22', 'active_1')(limits_active(1))
contract('C22', 'active_2')(limits_active(2))


@contract('C22')
def default_proximity(C):
    w, j, c, q, v, lo, hi = limited(C, 1)
    c.update(C.pos('dt', 1))
    p = C.const(1) / 100
    C.assume_ne(q[0] - lo[0], p)
    C.assume_ne(hi[0] - q[0], p)
    C.true('active near a bound',
           bool(c.is_active()) == (bool(q[0] - lo[0] < p) or bool(hi[0] - q[0] < p)))


@contract('C22')
def limits_step(C):
    """A world step from a position within its bounds, near one of them, stays within them."""
    J, cs, core = C.mod('joints'), C.mod('constraints'), C.mod('core')
    q, v = C.vec('q', 1, -1, 1), C.vec('v', 1, -9, 9)
    lo, hi = C.real('lo', -1, 0), C.real('hi', 0, 1)
    C.assume_lt(lo, hi)
    C.assume_le(lo, q[0])
    C.assume_le(q[0], hi)
    w = core.World()
    b = core.Body()
    I = C.real('I', 0, 5, strict=True, lo_sample=.1)
    b.mass = C.diag([I, I, I, C.one, C.one, C.one])
    j = J.RzJoint(gpos=q, gvel=v)
    w.add_link(w.ground, j, b)
    prox = C.const(3)
    c = cs.JointLimits(j, [lo], [hi], [prox])
    w.register(c)
    w.init()
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    C.assume_lt(hi - lo, prox)
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt, maxiters=2)
    free = q[0] + dt * v[0]
    w.integrate(dt)
    C.le('above', lo, j.gpos[0])
    C.le('below', j.gpos[0], hi)
    if bool(lo < free) and bool(free < hi):
        C.eq('free motion', j.gpos[0], free)


@contract('C22')
def limits_refused(C):
    J, cs, core = C.mod('joints'), C.mod('constraints'), C.mod('core')
    for cls in (J.FreeJoint, core.Joint):
        try:
            j = cls()
        except Exception:
            continue
        C.raises('not a linear joint', ValueError, lambda: cs.JointLimits(j, [0.] * 6, [1.] * 6))


# ------------------------------------------------------------------------ C23
def moving(C, tag, n, fixed=False):
    """A body at any pose with any jacobian, and a frame at any offset on it."""
    core = C.mod('core')
    b = core.Body()
    q = C.rotstate('Q' + tag)
    p = C.vec('p' + tag, 3)
    nu = C.vec('nu', n)
    J = C.mat('J' + tag, 6, n)
    H = C.mkhom(C.rot_of(q.q), p)
    b.update_dynamic(H, J, C.zeros((6, n)), J @ nu)
    return b, q, p, J, nu, H


def anchors(C, n, kind):
    """Two frames on bodies in any state; kind: bodies, ground (the first body is the
    ground), body (both frames are the bodies themselves)."""
    core = C.mod('core')
    if kind == 'ground':
        w = core.World()
        b0 = w.ground
        nu = C.vec('nu', n)
        J0 = C.zeros((6, n))
        q0 = p0 = None
        H0 = C.eye(4)
        b0.update_dynamic(H0, J0, J0, C.zeros(6))
    else:
        b0, q0, p0, J0, nu, H0 = moving(C, '0', n)
    b1, q1, p1, J1, nu, H1 = moving(C, '1', n)
    if kind == 'body':
        K0, K1 = C.eye(4), C.eye(4)
        f0, f1 = b0, b1
    else:
        K0 = C.mkhom(C.rot('K0'), C.vec('k0', 3))
        K1 = C.mkhom(C.eye(3), C.vec('k1', 3))
        f0, f1 = subframe(C, b0, K0), subframe(C, b1, K1)

    # position of the second anchor in the first frame, along the motion
    def rel(R0, x0, y0, z0, R1, x1, y1, z1):
        A = C.mkhom(R0, C.arr([x0, y0, z0])) @ K0
        B = C.mkhom(R1, C.arr([x1, y1, z1])) @ K1
        return A[0:3, 0:3].T @ (B[0:3, 3] - A[0:3, 3])
    items, rates = [], []
    for q, p, J in ((q0, p0, J0), (q1, p1, J1)):
        if q is None:
            continue
        t = J @ nu
        items += [q] + list(p)
        rates += [t[0:3]] + list(C.rot_of(q.q) @ t[3:6])

    def fn(*a):
        return rel(*a) if kind != 'ground' else rel(C.eye(3), 0, 0, 0, *a)
    A, B = H0 @ K0, H1 @ K1
    p01 = A[0:3, 0:3].T @ (B[0:3, 3] - A[0:3, 3])
    # velocities of the two bodies where the first anchor is, in the first frame
    def at(H, t):
        R = H[0:3, 0:3]
        return R @ (t[3:6] + C.skew(t[0:3]) @ (R.T @ (A[0:3, 3] - H[0:3, 3])))
    rel_v = A[0:3, 0:3].T @ (at(H1, J1 @ nu) - at(H0, J0 @ nu))
    rel_w = A[0:3, 0:3].T @ (H1[0:3, 0:3] @ (J1 @ nu)[0:3] - H0[0:3, 0:3] @ (J0 @ nu)[0:3])
    return (f0, f1), nu, fn, items, rates, p01, rel_v, rel_w


def ball_jacobian(kind):
    def body(C):
        cs = C.mod('constraints')
        fr, nu, fn, items, rates, p01, rel_v, rel_w = anchors(C, 1, kind)
        c = cs.BallAndSocketConstraint(frames=fr)
        C.eq('size', c.ndol, 3)
        dt = C.pos('dt', 1)
        c.update(dt)
        C.true('always active', c.is_active())
        v = c.jacobian @ nu
        C.eq('relative velocity at the first anchor', v, rel_v)
        # the derivative of the gap, when the relative rotation does not change it
        C.eq('derivative of the gap', v - C.skew(p01) @ rel_w, C.deriv(fn, items, rates),
             tol=1e-5)
    return body


for _k in ('bodies', 'ground', 'body'):
    contract('C23', 'jacobian_' + _k)(ball_jacobian(_k))


def gap_pair(C, n, aligned=False):
    """Two frames, the second at any place (and orientation) from the first."""
    core = C.mod('core')
    A = C.hom('A')
    p01 = C.vec('gap', 3, -2, 2)
    B = A @ C.mkhom(C.eye(3) if aligned else C.rot('R01'), p01)
    b = [core.Body(), core.Body()]
    for i, H in ((0, A), (1, B)):
        J = C.mat('J%d' % i, 6, n)
        b[i].update_dynamic(H, J, C.zeros((6, n)), C.zeros(6))
    return b, p01


@contract('C23')
def ball_solve(C):
    """The gap is cancelled within one step, whatever the present force."""
    cs = C.mod('constraints')
    fr, p01 = gap_pair(C, 1, True)
    c = cs.BallAndSocketConstraint(frames=fr)
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    c.update(dt)
    Y = C.sym_mat('Y', 3)
    C.assume_ne(C.det(Y), 0, 'the admittance is invertible')
    for sweep in (0, 1):
        vel = C.vec('vel%d' % sweep, 3)
        snap = C.snap(vel)
        d = c.solve(vel, Y, dt)
        C.eq('gap cancelled', p01 + dt * (vel + Y @ d), C.zeros(3), tol=1e-5)
        C.eq('velocity kept', vel, snap)


@contract('C23')
def ball_gap(C):
    """The gap is the one of the present poses, and the force the sum of its changes."""
    cs = C.mod('constraints')
    fr, p01 = gap_pair(C, 1)
    c = cs.BallAndSocketConstraint(frames=fr)
    for step in (0, 1):
        dt = C.real('dt%d' % step, 0, 1, strict=True, lo_sample=.05)
        c.update(dt)
        J = c.jacobian
        g = c.gforce
        y = C.real('y%d' % step, 0, 5, strict=True, lo_sample=.1)
        vel = C.vec('vel%d' % step, 3)
        d = c.solve(vel, y * C.eye(3), dt)
        C.eq('gap cancelled', p01 + dt * (vel + y * d), C.zeros(3), tol=1e-5)
        C.eq('force change', c.gforce - g, J.T @ d, tol=1e-5)
        if step == 0:
            # the bodies move
            p01 = C.vec('gap_', 3, -2, 2)
            A = C.mkhom(C.eye(3), C.vec('A_', 3))
            B = A @ C.mkhom(C.rot('R01'), p01)
            Z = C.zeros((6, 1))
            for i, H in ((0, A), (1, B)):
                fr[i].update_dynamic(H, Z, Z, C.zeros(6))


@contract('C23')
def ball_reaction(C):
    """Action and reaction: the wrenches on the two bodies balance, and both are applied
    at the first anchor."""
    cs, core = C.mod('constraints'), C.mod('core')
    Q0, Q1 = C.hom('H0'), C.hom('H1')
    J0, J1 = C.zeros((6, 12)), C.zeros((6, 12))
    for i in range(6):
        J0[i, i] = C.one
        J1[i, 6 + i] = C.one
    b = [core.Body(), core.Body()]
    b[0].update_dynamic(Q0, J0, C.zeros((6, 12)), C.zeros(6))
    b[1].update_dynamic(Q1, J1, C.zeros((6, 12)), C.zeros(6))
    k0, k1 = C.vec('k0', 3), C.vec('k1', 3)
    fr = (subframe(C, b[0], C.mkhom(C.eye(3), k0)), subframe(C, b[1], C.mkhom(C.eye(3), k1)))
    c = cs.BallAndSocketConstraint(frames=fr)
    c.update(C.one)
    d = c.solve(C.vec('vel', 3), C.eye(3), C.one)
    g = c.gforce
    w0 = C.Ad(C.hinv(Q0)).T @ g[0:6]
    w1 = C.Ad(C.hinv(Q1)).T @ g[6:12]
    C.eq('forces balance', (w0 + w1)[3:6], C.zeros(3))
    C.eq('torques balance', (w0 + w1)[0:3], C.zeros(3))
    R = Q0[0:3, 0:3]
    C.eq('force on the second body', w1[3:6], R @ d)
    a = R @ k0 + Q0[0:3, 3]
    C.eq('applied at the first anchor', w1[0:3], C.skew(a) @ (R @ d))


# ------------------------------------------------------------------------ C24
def contact_world(C, n, ground):
    """Shapes on two bodies in any state, and a collision solver returning any contact
    frames (same orientation, gap along the normal)."""
    core, cs, sh = C.mod('core'), C.mod('constraints'), C.mod('shapes')
    w = core.World()
    nu = C.vec('nu', n)
    bodies, poses, twists, items, rates = [], [], [], [], []
    for i in (0, 1):
        if i == 0 and ground:
            b, H, J = w.ground, C.eye(4), C.zeros((6, n))
            b.update_dynamic(H, J, J, C.zeros(6))
            items.append(None)
        else:
            b = core.Body()
            q, p = C.rotstate('Q%d' % i), C.vec('p%d' % i, 3)
            H, J = C.mkhom(C.rot_of(q.q), p), C.mat('J%d' % i, 6, n)
            b.update_dynamic(H, J, C.zeros((6, n)), J @ nu)
            t = J @ nu
            items.append(([q] + list(p), [t[0:3]] + list(H[0:3, 0:3] @ t[3:6])))
        bodies.append(b)
        poses.append(H)
        twists.append(J @ nu)
    return w, nu, bodies, poses, twists, items


def contact_update(ground):
    def body(C):
        core, cs, sh = C.mod('core'), C.mod('constraints'), C.mod('shapes')
        w, nu, b, H, T, items = contact_world(C, 1, ground)
        # contact frames, given relative to the first body
        Rc = C.rot('Rc')
        K0 = C.mkhom(Rc, C.vec('k0', 3))
        gap = C.real('gap', -1, 1)
        A = H[0] @ K0
        B = A @ C.mkhom(C.eye(3), C.arr([0, 0, gap]))
        shapes = (sh.Sphere(b[0], 1.), sh.Sphere(subframe(C, b[1], C.eye(4)), 1.))
        calls = []

        def solver(s):
            calls.append(s)
            return (gap, A.copy(), B.copy())
        prox = C.real('prox', 0, 1)
        c = cs.SoftFingerContact(shapes, C.real('mu', 0, 2), collision_solver=solver,
                                 proximity=prox)
        w.register(c)
        fr = [x for x in w.iterconstraints()][0]
        C.true('registered', fr is c)
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        c.update(dt)
        C.true('solver called with the shapes', len(calls) >= 1 and
               all([tuple(s) == shapes for s in calls]))
        f = [x for x in w.getframes() if x.body in b and x not in b and
             x is not shapes[1].frame]
        f0 = [x for x in f if x.body is b[0]]
        f1 = [x for x in f if x.body is b[1]]
        C.true('one contact frame per body', len(f0) == 1 and len(f1) == 1)
        C.eq('first contact frame', f0[0].pose, A)
        C.eq('second contact frame', f1[0].pose, B)
        C.eq('no force', c.gforce, C.zeros(1))
        # relative motion of the frames fixed to the bodies
        L0 = K0
        L1 = C.hinv(H[1]) @ B

        def fn(*a):
            if ground:
                X = K0
            else:
                X, a = C.mkhom(a[0], C.arr(list(a[1:4]))) @ K0, a[4:]
            Y = C.mkhom(a[0], C.arr(list(a[1:4]))) @ L1
            return X[0:3, 0:3].T @ (Y[0:3, 3] - X[0:3, 3])
        its = sum([x[0] for x in items if x], [])
        rts = sum([x[1] for x in items if x], [])
        dp = C.deriv(fn, its, rts) if C.concrete() else None

        def at(k):
            R = H[k][0:3, 0:3]
            r = R.T @ (A[0:3, 3] - H[k][0:3, 3])
            return R @ (T[k][3:6] + C.skew(T[k][0:3]) @ r), R @ T[k][0:3]
        (v0, w0), (v1, w1) = at(0), at(1)
        rv = A[0:3, 0:3].T @ (v1 - v0)
        rw = A[0:3, 0:3].T @ (w1 - w0)
        if dp is not None:
            C.eq('the gap changes at the normal velocity', dp[2], rv[2], tol=1e-5)
        C.assume_ne(gap + dt * rv[2], prox)
        C.true('active when the gap closes', bool(c.is_active()) ==
               bool(gap + dt * rv[2] < prox))
        C.eq('size', c.ndol, 4)
        C.eq('jacobian', c.jacobian @ nu, [rw[2], rv[0], rv[1], rv[2]])
    return body


contract('C24', 'update_bodies')(contact_update(False))
contract('C24', 'update_ground')(contact_update(True))


@contract('C24')
def contact_follows(C):
    """Updating again follows the geometry, and forgets the force of the last step."""
    core, cs, sh = C.mod('core'), C.mod('constraints'), C.mod('shapes')
    w = core.World()
    b = core.Body()
    Z = C.zeros((6, 1))
    w.ground.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    shapes = (sh.Sphere(w.ground, 1.), sh.Sphere(b, 1.))
    gaps = [C.real('gap0', -1, 0), C.real('gap1', -1, 1)]
    poses = []
    k = [0]

    def solver(s):
        A = C.mkhom(C.rot('R%d' % k[0]), C.vec('p%d' % k[0], 3))
        B = A @ C.mkhom(C.eye(3), C.arr([0, 0, gaps[k[0]]]))
        poses.append((A, B))
        return gaps[k[0]], A.copy(), B.copy()
    c = cs.SoftFingerContact(shapes, C.const(1) / 2, collision_solver=solver, proximity=0.)
    w.register(c)
    fr = [x for x in w.iterframes() if x.body in (w.ground, b) and x not in (w.ground, b)]
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    for k[0] in (0, 1):
        H = C.hom('H%d' % k[0])
        b.update_dynamic(H, Z, Z, C.zeros(6))
        c.update(dt)
        A, B = poses[-1]
        for x in fr:
            C.eq('frame', x.pose, A if x.body is w.ground else B)
        C.eq('no force', c.gforce, C.zeros(1))
        C.assume_ne(gaps[k[0]], 0)
        C.true('active', bool(c.is_active()) == bool(gaps[k[0]] < 0))
        if k[0] == 0:
            d = c.solve(C.zeros(4), C.eye(4), dt)
            C.eq('force', d[3] * dt, -gaps[0])


@contract('C24')
def default_solver(C):
    """The solver and the order of the shapes follow from the shapes."""
    cs, sh, co, core = (C.mod(x) for x in ('constraints', 'shapes', 'collisions', 'core'))
    w = core.World()
    b = core.Body()
    Z = C.zeros((6, 1))
    w.ground.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    p = C.vec('p', 3, -3, 3)
    b.update_dynamic(C.mkhom(C.eye(3), p), Z, Z, C.zeros(6))
    r = C.real('r', 0, 2, strict=True, lo_sample=.1)
    plane = sh.Plane(w.ground, (0., 0., 1., 0.))
    ball = sh.Sphere(b, r)
    for shapes in ((plane, ball), (ball, plane)):
        c = cs.SoftFingerContact(shapes, 1., proximity=0.)
        c.update(C.one)
        C.assume_ne(p[2], r)
        C.true('active', bool(c.is_active()) == bool(p[2] < r))


# ------------------------------------------------------------------------ C25
def finger(C, sdist, mu):
    """A contact with this gap between two bodies, with a unit jacobian (n = 4)."""
    core, cs, sh = C.mod('core'), C.mod('constraints'), C.mod('shapes')
    w = core.World()
    b = core.Body()
    J = C.zeros((6, 4))
    for i in range(4):
        J[2 + i, i] = C.one
    Z = C.zeros((6, 4))
    w.ground.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    B = C.mkhom(C.eye(3), C.arr([0, 0, sdist]))
    b.update_dynamic(B, J, Z, C.zeros(6))
    c = cs.SoftFingerContact((sh.Sphere(w.ground, 1.), sh.Sphere(b, 1.)), mu,
                             collision_solver=lambda s: (sdist, C.eye(4), B.copy()))
    c.update(C.one)
    return c


def pd_lemma(C, Y, s):
    """det(Y - s diag(1, 1, 1, 0)) > 0 for a positive definite Y and s <= 0: it is a
    polynomial in -s whose coefficients are sums of principal minors of Y."""
    t = -s
    A = Y + t * C.diag([1, 1, 1, 0])

    def minor(ix):
        return C.det(C.arr([[Y[i, j] for j in ix] for i in ix]))
    e = minor([0, 1, 2, 3]) + t * (minor([0, 1, 3]) + minor([0, 2, 3]) + minor([1, 2, 3])) + \
        t * t * (minor([0, 3]) + minor([1, 3]) + minor([2, 3])) + t * t * t * Y[3, 3]
    C.eq('expansion of the determinant', C.det(A), e)
    C.fact('<', -C.det(A), 'the principal minors of a symmetric positive definite matrix are '
           'positive')


def finger_solve(mode):
    """mode: the shape of the admittance (full: any symmetric one)"""
    def body(C):
        mu = C.real('mu', 0, 2, strict=True, lo_sample=.1)
        sdist = C.real('sdist', -1, 1)
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        c = finger(C, sdist, mu)
        if C.concrete() or mode != 'full':
            Y = C.spd('Y', 4) if C.concrete() else C.diag(
                [C.real('Y%d' % i, 0, 5, strict=True) for i in range(4)])
        else:
            Y = C.sym_mat('Y', 4)
        f0 = C.vec('f', 4)
        c._force[:] = f0
        # the velocity is given by the velocity without the present force
        alpha = C.vec('alpha', 4)
        vel = alpha + Y @ f0
        vel[3] = vel[3] - sdist / dt
        snap = C.snap(vel)
        roots = []

        def eigvals(B):
            s, s2 = C.real('s', -5, 0), C.real('s2', 0, 5)
            C.assume_le(s, 0)
            C.assume_lt(-10 ** 10, s)
            C.assume_lt(0, s2)
            roots.append((B, s))
            pd_lemma(C, Y, s)
            return C.arr([s2, s])
        C.stub('eigvals', eigvals)
        C.assume_lt(0, Y[3, 3])
        C.assume_ne(C.det(Y), 0)
        d = c.solve(vel, Y, dt)
        f = f0 + d
        v = vel + Y @ d
        C.eq('force kept', c.gforce, f)
        C.eq('velocity kept', vel, snap)
        gap = sdist + dt * v[3]
        if bool(alpha[3] >= 0):
            C.eq('separating: no force', f, C.zeros(4))
            C.le('separating: no penetration', 0, gap)
            return
        C.eq('gap cancelled', gap, 0, tol=1e-5)
        q = f[0] * f[0] + f[1] * f[1] + f[2] * f[2] - mu * mu * f[3] * f[3]
        if not C.concrete():
            if not roots:
                C.le('sticking: inside the cone', q, 0)
                C.eq('sticking: no sliding', v[0:3], C.zeros(3))
                return
            B, s = roots[0]
            C.eq('sliding: opposed to the force', v[0:3], s * f[0:3])
            A = Y - s * C.diag([1, 1, 1, 0])
            a = mu / Y[3, 3] * alpha[3]
            k = C.det(A) / Y[3, 3]
            D = C.det(B - s * C.eye(6))
            C.eq('sliding: on the cone', q * k * k, -a * a * D)
            return
        ft = float(np.linalg.norm(f[0:3]))
        fn = float(mu * abs(f[3]))
        vt = float(np.linalg.norm(v[0:3]))
        scale = max(1., float(np.linalg.norm(alpha)))
        if vt <= 1e-6 * scale:
            C.le('sticking: inside the cone', ft, fn, tol=1e-6)
        else:
            C.eq('sliding: on the cone', ft, fn, tol=1e-4)
            C.le('sliding: opposed to the force', f[0:3] @ v[0:3], 0, tol=1e-6)
            C.eq('sliding: along the force', v[0:3] * ft, -vt * f[0:3], tol=1e-4)
        if mu * float(np.linalg.norm(Y[0:3, 3])) < float(Y[3, 3]):
            C.le('never adhesive', 0, f[3], tol=1e-6)
    return body


contract('C25', 'solve', rt=1e-5, budget=400)(finger_solve('full'))
contract('C25', 'solve_diagonal', rt=1e-5, budget=400)(finger_solve('diag'))


@contract('C25')
def never_adhesive(C):
    """Lemma over the contract of solve: as long as the coupling of the admittance is
    moderate (mu |Yc| < yn), a closing contact never pulls."""
    Yc, ft = C.vec('Yc', 3, -1, 1), C.vec('ft', 3, -1, 1)
    fn = C.real('fn', -1, 1)
    mu, yn = C.real('mu', 0, 2), C.real('yn', 0, 5, strict=True)
    c, P, T = Yc @ ft, Yc @ Yc, ft @ ft
    x = C.skew(Yc) @ ft
    C.eq('Lagrange identity', P * T - c * c, x @ x)
    c, P, T = C.real('c', -1, 1), C.real('P', 0, 1), C.real('T', 0, 1)
    C.assume_le(c * c, P * T, 'Cauchy-Schwarz, from the Lagrange identity')
    C.assume_le(0, mu)
    C.assume_le(0, P)
    C.assume_le(0, T)
    C.assume_le(T, mu * mu * fn * fn)          # in or on the cone
    C.assume_lt(0, yn)
    C.assume_lt(mu * mu * P, yn * yn)          # moderate coupling
    C.assume_lt(0, yn * fn + c)                # the gap would close
    C.le('the force pushes', 0, fn)


@contract('C25')
def frictionless(C):
    """Without friction the force is along the normal."""
    sdist = C.real('sdist', -1, 1)
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    c = finger(C, sdist, 0.)
    Y = C.sym_mat('Y', 4) if not C.concrete() else C.spd('Y', 4)
    C.assume_lt(0, Y[3, 3])
    C.assume_ne(C.det(Y), 0)
    # the velocity is given by the force g that would stop all motion
    g = C.vec('g', 4)
    vel = -(Y @ g)
    vel[3] = vel[3] - sdist / dt
    f = C.zeros(4)
    d = c.solve(vel, Y, dt)
    f = f + d
    v = vel + Y @ d
    gap = sdist + dt * v[3]
    C.eq('no friction', f[0:3], C.zeros(3), tol=1e-5)
    C.eq('force kept', c.gforce, f)
    if bool(sdist + dt * vel[3] >= 0):
        C.eq('separating: no force', f, C.zeros(4))
    else:
        C.eq('gap cancelled', gap, 0, tol=1e-5)
        C.le('pushes', 0, f[3])


@contract('C25')
def grazing(C):
    """Surfaces that exactly touch without force stay without force."""
    mu = C.real('mu', 0, 2)
    sdist = C.real('sdist', -1, 1)
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    c = finger(C, sdist, mu)
    Y = C.spd('Y', 4)
    vel = C.vec('vel', 4)
    vel[3] = -sdist / dt
    if C.concrete():
        C.assume(sdist + dt * vel[3] == 0)
    d = c.solve(vel, Y, dt)
    C.eq('no force', d, C.zeros(4))
