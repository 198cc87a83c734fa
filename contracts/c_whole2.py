"""Bounded contracts on whole robots with constraints and shapes (see c_whole.py)."""
import numpy as np
from pvc.run import contract
import gen
from c_whole import BOUND, KW, Controls, LINEAR, well, one_step, gen_edit_keeping


def kind0(pair):
    return type(pair[0]).__name__.lower()


def apart(C, R, it):
    """Two spheres in contact do not have the same center, after the changes too."""
    if it[1] == 'contact':
        P = [R.kinematics(s.frame.body, s.frame.bpose)[0][0:3, 3] for s in it[3].shapes]
        return np.linalg.norm(P[0] - P[1]) > 1e-3
    return True


def solvable(Q, Y, dt):
    """The admittance of each contact is invertible (the laws of friction have a unique
    answer then), and those of the balls do not mix very large and very small values."""
    for it in Q.items:
        if it[0].is_enabled():
            it[0].update(dt)
            J = it[2]()
            s = np.linalg.svd(J @ Y @ J.T, compute_uv=False)
            if s.max() < 1e-8 * np.abs(Y).max(initial=0) or not Y.size:
                return False        # bodies that cannot move relative to each other
            if it[1] == 'contact' and it[0].is_active() and s.min() < 1e-5 * s.max():
                return False
            if it[1] == 'ball' and ((s > 1e-10 * s.max()) & (s < 1e-5 * s.max())).any():
                return False
    return True


class Touch(object):
    """What a contact was made from."""


class Cons(object):
    """Constraints of a robot, with the jacobians they should have."""

    def __init__(self, C, R):
        self.C, self.R, self.items = C, R, []

    def limits(self, tag, registered=True):
        C, R = self.C, self.R
        ls = [l for l in R.order() if l.kind in LINEAR]
        if not ls:
            return
        l = ls[C.choice(tag + 'joint', tuple(range(len(ls))))]
        n = gen.size(l.kind)
        q = np.ravel(l.joint.gpos)
        lo = q - C.vec(tag + 'lo', n, 0, 1) * C.choice(tag + 'near', (1, .01))
        hi = q + C.vec(tag + 'hi', n, 0, 1, strict=True)
        prox = C.choice(tag + 'prox', (None, 2.))
        c = C.mod('constraints').JointLimits(l.joint, lo.copy(), hi.copy(),
                                             None if prox is None else [prox] * n)
        R.w.register(c)

        def jac():
            return np.eye(R.ndof())[R.dofs()[id(l)]]
        self.items.append((c, 'limits', jac, (l, lo, hi, .01 if prox is None else prox)))

    def ball(self, tag):
        C, R = self.C, self.R
        bodies = [R.w.ground] + R.bodies
        k = C.choice(tag + 'b0', tuple(range(len(bodies))))
        m = (k + 1 + C.choice(tag + 'b1', tuple(range(len(bodies) - 1)))) % len(bodies)
        fr = [gen.some_frame(C, R, bodies[i], tag + str(i)) for i in (k, m)]
        c = C.mod('constraints').BallAndSocketConstraint(frames=(fr[0][0], fr[1][0]))
        R.w.register(c)

        def both():
            A, JA, dA, VA = R.kinematics(bodies[k], fr[0][1])
            B, JB, dB, VB = R.kinematics(bodies[m], fr[1][1])
            return A, JA, B, JB

        def jac():
            A, JA, B, JB = both()
            return (gen.Ad(gen.hinv(A) @ B) @ JB - JA)[3:6]
        self.items.append((c, 'ball', jac, both))

    def contact(self, tag):
        C, R = self.C, self.R
        bodies = [R.w.ground] + R.bodies
        sh = C.mod('shapes')
        k = C.choice(tag + 'b0', tuple(range(len(bodies))))
        m = (k + 1 + C.choice(tag + 'b1', tuple(range(len(bodies) - 1)))) % len(bodies)
        pair = []
        for i, kind in ((k, C.choice(tag + 'k0', ('plane', 'box', 'sphere'))), (m, 'sphere')):
            f, H = gen.some_frame(C, R, bodies[i], tag + 's' + str(i))
            if kind == 'plane':
                s = sh.Plane(f, (0., 1., 0., -3.))
            elif kind == 'box':
                s = sh.Box(f, (.5, .6, .7))
            else:
                s = sh.Sphere(f, C.real(tag + 'r' + str(i), 0, 1, strict=True, lo_sample=.2))
            pair.append(s)
        if kind0(pair) == 'sphere':
            # the centers of two spheres are not the same point
            A, B = [R.kinematics(s.frame.body, s.frame.bpose)[0][0:3, 3] for s in pair]
            C.assume(np.linalg.norm(A - B) > 1e-3)
        if C.choice(tag + 'swap', (0, 1)):
            pair.reverse()
        T = Touch()
        T.mu, T.prox = C.real(tag + 'mu', 0, 1.5), C.choice(tag + 'p', (.02, 9.))
        T.shapes, T.solver = C.mod('collisions').choose_solver(*pair)
        c = C.mod('constraints').SoftFingerContact(tuple(pair), T.mu, proximity=T.prox)
        R.w.register(c)
        # (the contact registers its two moving frames, the last ones then)
        T.frames = list(R.w.itermovingsubframes())[-2:]
        T.bodies = [s.frame.body for s in T.shapes]
        if T.frames[0].body is not T.bodies[0]:
            T.frames.reverse()

        def jac():
            A, B = [R.kinematics(b, f.bpose) for b, f in zip(T.bodies, T.frames)]
            return (gen.Ad(gen.hinv(A[0]) @ B[0]) @ B[1] - A[1])[2:6]
        self.items.append((c, 'contact', jac, T))

    def add(self, kinds):
        for i, k in enumerate(kinds):
            getattr(self, k)('k%d' % i)
        gen.namesakes(self.C, 'cons', [it[0] for it in self.items])


def spied(cs, log):
    """Record the calls of solve, with the forces of all the constraints before."""
    for c in cs:
        def solve(vel, admittance, dt, c=c, fn=c.solve):
            before = [np.array(x._force, dtype=float) for x in cs]
            v, a = vel.copy(), admittance.copy()
            d = fn(vel, admittance, dt)
            log.append((c, v, a, dt, before, np.array(d, dtype=float),
                        np.array(c._force, dtype=float)))
            return d
        c.solve = solve


@contract('C21', bounded=BOUND % 5 + ', up to four real constraints', **KW)
def whole_sweeps(C):
    """Every solve of every sweep gets the velocity that the implicit dynamics give for
    the present forces, and the final force holds each of them once."""
    R = gen.robot(C, 1, 4)
    gen.regular(C, R)
    R.w.init()
    R.w.update_dynamic()
    K = Controls(C, R)
    K.add(C.choice('controllers', (0, 1, 2)))
    Q = Cons(C, R)
    Q.add([C.choice('cons%d' % i, ('limits', 'ball', 'contact'))
           for i in range(C.choice('count', gen.up_to((1, 4), (5, 10))))])
    R.w.init()
    cs = [it[0] for it in Q.items]
    log = []
    spied(cs, log)
    w = R.w
    for step in range(3):
        for i, c in enumerate(cs):
            if C.choice('off%d_%d' % (step, i), (0, 0, 1)):
                c.disable()
            else:
                c.enable()
        if not all([apart(C, R, it) for it in Q.items]):
            break
        dt = C.real('dt%d' % step, 0, .2, strict=True, lo_sample=.01)
        w.update_dynamic()
        f0, Z = K.total(dt)
        M, B, h = R.dynamics()
        nu = R.gvel()
        imp = M / dt + B + R.nonlinear() - Z
        well(C, imp)
        w.update_controllers(dt)
        Y = np.linalg.inv(imp) if len(nu) else imp
        if not solvable(Q, Y, dt):
            break
        maxiters = C.choice('maxiters%d' % step, (1, 2, 3, 50))
        tol = C.choice('tol%d' % step, (1e-4, 1e-2, 1.))
        del log[:]
        w.update_constraints(dt, maxiters=maxiters, tol=tol)
        on = [it for it in Q.items if it[0].is_enabled() and it[0].is_active()]
        J = [it[2]() for it in on]
        for it, j in zip(on, J):
            C.eq('jacobian of a %s' % it[1], it[0].jacobian, j)
        solved = [x[0] for x in log]
        n = len(on)
        if log and max([np.abs(x[6]).max() for x in log]) > 1e4:
            break       # constraints that fight each other: too far for the comparison
        C.true('sweeps over the active constraints', n == 0 and not solved or n > 0 and
               len(solved) % n == 0 and
               all([solved[i] is on[i % n][0] for i in range(len(solved))]))
        free = Y @ (M @ nu / dt + f0)

        def velocity(forces):
            f = free
            for it, j in zip(on, J):
                f = f + Y @ (j.T @ forces[[x is it[0] for x in cs].index(True)])
            return f
        prev = None
        sweeps = len(solved) // n if n else 0
        for i, (c, v, a, d, before, df, after) in enumerate(log):
            j = J[i % n]
            C.eq('velocity', v, j @ velocity(before), tol=1e-6)
            C.eq('admittance', a, j @ Y @ j.T)
            C.eq('step', d, dt)
            C.eq('change of the force', df, after - before[[x is c for x in cs].index(True)],
                 tol=1e-6)
        if n:
            # the end of each sweep: all but the last two changed the velocities
            ends = []
            for s in range(sweeps):
                forces = [np.array(x) for x in log[s * n + n - 1][4]]
                last = log[s * n + n - 1]
                forces[[x is last[0] for x in cs].index(True)] = last[6]
                ends.append(np.concatenate([j @ velocity(forces) for j in J]))
            moves = [np.linalg.norm(ends[s] - ends[s - 1]) for s in range(1, sweeps)]
            C.true('number of sweeps', 1 <= sweeps <= maxiters)
            C.true('sweeps go on until one changes little',
                   all([m >= tol * (1 - 1e-6) for m in moves[:-1]]))
            C.true('sweeps stop when one changes little', sweeps == maxiters or
                   sweeps >= 2 and moves[-1] <= tol * (1 + 1e-6))
        want = f0.copy()
        for it, j in zip(on, J):
            want = want + j.T @ it[0]._force
        C.eq('total force', w.gforce, want, tol=1e-6)
        C.eq('velocity kept', w.gvel, nu)
        w.integrate(dt)
        C.eq('implicit equation', imp @ w.gvel, M @ nu / dt + want, tol=1e-6)


@contract('C22', bounded=BOUND % 5 + ', one limited joint', **KW)
def whole_limits(C):
    """Along the steps of a world, a limited joint of one degree of freedom that is
    within its bounds stays within them, and moves freely away from them."""
    R = gen.robot(C, 1, 4)
    gen.regular(C, R)
    R.w.init()
    R.w.update_dynamic()
    K = Controls(C, R)
    K.add(C.choice('controllers', (0, 1)))
    Q = Cons(C, R)
    Q.limits('q')
    C.assume(bool(Q.items))
    c, _, jac, (l, lo, hi, prox) = Q.items[0]
    n = gen.size(l.kind)
    R.w.init()
    w = R.w
    for step in range(4):
        dt = C.real('dt%d' % step, 0, .1, strict=True, lo_sample=.005)
        w.update_dynamic()
        q = np.ravel(l.joint.gpos).copy()
        w.update_controllers(dt)
        well(C, w.admittance)
        f0 = w.gforce
        M, B, h = R.dynamics()
        free = w.admittance @ (M @ R.gvel() / dt + f0)
        w.update_constraints(dt)
        near = bool(((q - lo < prox) | (hi - q < prox)).any())
        if np.abs(np.concatenate([q - lo - prox, hi - q - prox])).min() > 1e-9:
            C.true('active near a bound', bool(c.is_active()) == near)
        f = jac() @ (w.gforce - f0)
        C.eq('force on the joint only', w.gforce - f0, jac().T @ f)
        w.integrate(dt)
        x = np.ravel(l.joint.gpos)
        out = q + dt * (jac() @ free)
        low, high = out <= lo, out >= hi
        if not near:
            C.eq('no force', f, np.zeros(n))
            continue
        for i in range(n):
            if np.abs([out[i] - lo[i], out[i] - hi[i]]).min() < 1e-9:
                continue
            if low[i]:
                C.le('pushes up', 0, f[i])
            elif high[i]:
                C.le('pushes down', f[i], 0)
            else:
                C.eq('free', f[i], 0)
        if n == 1:
            C.eq('position', x, np.clip(out, lo, hi) if lo[0] <= q[0] <= hi[0] or
                 low[0] or high[0] else out, tol=1e-6)
        if step == 1 and C.choice('shift', (0, 1)):
            gen.shift(C, R, 's', [l.joint])
            gen.regular(C, R)
            w.init()


@contract('C23', bounded=BOUND % 5 + ', one ball and socket', **KW)
def whole_ball(C):
    """A step with one ball and socket gives the relative velocity that closes the gap."""
    R = gen.robot(C, 1, 4)
    gen.regular(C, R)
    R.w.init()
    R.w.update_dynamic()
    K = Controls(C, R)
    K.add(C.choice('controllers', (0, 1)))
    Q = Cons(C, R)
    Q.ball('b')
    c, _, jac, both = Q.items[0]
    R.w.init()
    w = R.w
    for step in range(3):
        dt = C.real('dt%d' % step, 0, .2, strict=True, lo_sample=.02)
        w.update_dynamic()
        w.update_controllers(dt)
        f0 = w.gforce
        J = jac()
        A, JA, B, JB = both()
        gap = (gen.hinv(A) @ B)[0:3, 3]
        S = J @ w.admittance @ J.T
        if not solvable(Q, w.admittance, dt):
            break
        w.update_constraints(dt)
        C.eq('jacobian', c.jacobian, J)
        f = w.gforce - f0
        C.eq('force of the constraint', f, J.T @ c._force, tol=1e-6)
        w.integrate(dt)
        if np.linalg.matrix_rank(J, 1e-2) == 3 and np.linalg.cond(S) < 1e6:
            C.eq('closes the gap', gap + dt * (J @ w.gvel), np.zeros(3), tol=1e-6)
        if not len(w.gvel) or np.abs(w.gvel).max() > 1e3:
            break


@contract('C24', bounded=BOUND % 5 + ', one contact', **KW)
def whole_contact(C):
    """The contact frames of a step follow the bodies; the jacobian gives the relative
    velocity at the contact; active when the gap would close."""
    R = gen.robot(C, 1, 4, dyn=False)
    R.w.init()
    R.w.update_dynamic()
    Q = Cons(C, R)
    Q.contact('c')
    c, _, jac, T = Q.items[0]
    R.w.init()
    for step in range(3):
        R.w.update_dynamic()
        if not apart(C, R, Q.items[0]):
            break
        dt = C.real('dt%d' % step, 0, .2, strict=True, lo_sample=.02)
        c._force[:] = C.vec('f%d' % step, 4)
        c.update(dt)
        d, H0, H1 = T.solver(T.shapes)
        C.eq('first frame', T.frames[0].pose, H0)
        C.eq('second frame', T.frames[1].pose, H1)
        C.true('frames on the bodies', [f.body for f in T.frames] == T.bodies)
        C.eq('no force', c.gforce, np.zeros(R.ndof()))
        J = jac()
        C.eq('jacobian', c.jacobian, J)
        p = C.mod('constraints')
        prox = T.prox
        nxt = d + dt * (J @ R.gvel())[3]
        if abs(nxt - prox) > 1e-7:
            C.true('active when the gap would close', bool(c.is_active()) == (nxt < prox))
        gen.edit(C, R, 'e%d' % step)
        R.w.init()


@contract('C25', bounded=BOUND % 5 + ', one contact', **KW)
def whole_friction(C):
    """A step with one contact obeys the laws of contact and friction (from rest: the
    admittance is symmetric then)."""
    R = gen.robot(C, 1, 4)
    gen.regular(C, R)
    for l in R.links:
        l.joint.gvel[:] = 0.
    K = Controls(C, R)
    K.weight('w')
    R.w.init()
    R.w.update_dynamic()
    Q = Cons(C, R)
    Q.contact('c')
    c, _, jac, T = Q.items[0]
    R.w.init()
    w = R.w
    dt = C.real('dt', 0, .1, strict=True, lo_sample=.01)
    w.update_dynamic()
    w.update_controllers(dt)
    M, B, h = R.dynamics()
    free = w.admittance @ w.gforce
    f0 = w.gforce
    C.assume(solvable(Q, w.admittance, dt))
    w.update_constraints(dt)
    if not c.is_active():
        C.eq('no force', w.gforce, f0)
        return
    J = jac()
    S = J @ w.admittance @ J.T
    f = c._force.copy()
    d = T.solver(T.shapes)[0]
    v0 = J @ free
    w.integrate(dt)
    v = J @ w.gvel
    C.eq('velocity of the contact', v, v0 + S @ f, tol=1e-6)
    if d + dt * v0[3] > 1e-9:
        C.eq('no force when separating', f, np.zeros(4))
    elif d + dt * v0[3] < -1e-9:
        C.eq('the gap closes', d + dt * v[3], 0, tol=1e-6)
        mu = T.mu
        t = np.sqrt(np.sum((f[0:3]) ** 2))
        s = max(1., np.abs(f).max())
        C.le('friction cone', t / s, mu * abs(f[3]) / s, tol=1e-5)
        if t < mu * abs(f[3]) * (1 - 1e-5) - 1e-9:
            C.eq('sticking', v[0:3], np.zeros(3), tol=1e-5)
        elif f[3] > 0:
            C.le('friction opposes the sliding', f[0:3] @ v[0:3] / s, 0, tol=1e-5)
            n = np.linalg.norm(v[0:3])
            if n > 1e-6 and t / s > 1e-6:
                C.eq('direction of the friction', f[0:3] / t, -v[0:3] / n, tol=1e-3)


@contract('C29', bounded=BOUND % 6 + ', up to six shapes', **KW)
def whole_contacts(C):
    """All the contacts of a world."""
    from c_collisions import KINDS, make, supported
    R = gen.robot(C, 1, 5, dyn=False)
    w = R.w
    bodies = [w.ground] + R.bodies
    shapes, kinds, where = [], [], []
    for i in range(C.choice('shapes', gen.up_to((1, 6), (7, 20)))):
        k = C.choice('kind%d' % i, KINDS)
        p = C.choice('body%d' % i, tuple(range(len(bodies))))
        f, H = gen.some_frame(C, R, bodies[p], 's%d' % i)
        shapes.append(make(C, k, f, 1.))
        shapes[-1].name = C.choice('name%d' % i, (None, 'a', 'b'))
        kinds.append(k)
        where.append(p)
        w.register(shapes[-1])
    if C.choice('init', (0, 1)):
        w.init()
        w.update_dynamic()
    cs = C.mod('constraints')

    class Known(cs.SoftFingerContact):
        def __init__(self, shapes, *args, **kw):
            self.given = shapes
            cs.SoftFingerContact.__init__(self, shapes, *args, **kw)
    n = len(shapes)
    how = C.choice('class', (None, Known, Known))
    r = cs.get_all_contacts(w, how, friction_coeff=.3)
    if how is None:
        C.true('kind of contact', all([isinstance(c, cs.SoftFingerContact) for c in r]))
        r2 = cs.get_all_contacts(w, Known, friction_coeff=.3)
        C.true('the same contacts', len(r) == len(r2))
        r = r2
    got = [sorted([[s is x for x in shapes].index(True) for s in c.given]) for c in r]
    want = [[i, j] for i in range(n) for j in range(i + 1, n)
            if where[i] != where[j] and supported(kinds[i], kinds[j])]
    C.true('one contact for each pair', sorted(got) == want, '%s / %s' % (sorted(got), want))
