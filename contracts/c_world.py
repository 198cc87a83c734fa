"""World: dynamics assembly, controllers, constraints, integration."""
from pvc.poke import poke
from pvc.run import contract
from c_dyn import make_joint, subframe
from c_mass import WHY


def body_in_motion(C, M, T, H=None, world=None):
    """A body of mass M (6x6) at the pose H, moving at the twist T."""
    core = C.mod('core')
    b = core.Body()
    b.mass = M
    b.update_dynamic(C.eye(4) if H is None else H, C.zeros((6, 0)), C.zeros((6, 0)), T)
    return b


# ------------------------------------------------------------------------ C15
@contract('C15')
def newton_euler(C):
    """M dT/dt + N T = d(momentum)/dt in the body frame, for every solid."""
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    com = C.vec('com', 3, -3, 3)
    I = C.sym_mat('I', 3)
    M = C.inertia('M', m, com, I)
    T = C.vec('T', 6)
    b = body_in_motion(C, M, T, C.hom('H'))
    f = b.nleffects @ T
    # momentum (about the body origin) and its derivative at constant twist
    h = M @ T
    C.eq('linear', f[3:6], C.skew(T[0:3]) @ h[3:6])
    C.eq('angular', f[0:3], C.skew(T[0:3]) @ h[0:3] + C.skew(T[3:6]) @ h[3:6])
    C.eq('no work', T @ f, 0)


@contract('C15')
def euler_rotation(C):
    """A solid turning about its center of mass: the gyroscopic torque w x I w."""
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    I = C.sym_mat('I', 3)
    w = C.vec('w', 3)
    T = C.arr(list(w) + [0, 0, 0])
    b = body_in_motion(C, C.inertia('M', m, C.zeros(3), I), T)
    f = b.nleffects @ T
    C.eq('torque', f[0:3], C.skew(w) @ (I @ w))
    C.eq('force', f[3:6], C.zeros(3))


@contract('C15')
def massless(C):
    T = C.vec('T', 6)
    b = body_in_motion(C, C.zeros((6, 6)), T)
    C.eq('no wrench', b.nleffects @ T, C.zeros(6))
    C.eq('no effects', b.nleffects, C.zeros((6, 6)))


@contract('C15')
def free_body_momentum(C):
    """Along the free motion given by the model, the momentum seen from the ground
    is constant."""
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    com = C.vec('com', 3, -3, 3)
    I = C.sym_mat('I', 3)
    M = C.inertia('M', m, com, I)
    q = C.rotstate('H')
    p = C.vec('p', 3)
    T = C.vec('T', 6)
    a = C.vec('a', 6)      # twist derivative
    b = body_in_motion(C, M, T, C.mkhom(C.rot_of(q.q), p))
    f = b.nleffects @ T
    v = C.rot_of(q.q) @ T[3:6]

    def momentum(Q, x, y, z, *t):
        h = M @ C.arr(list(t))
        K = C.mkhom(Q, C.arr([x, y, z]))
        return C.Ad(C.hinv(K)).T @ h
    d = C.deriv(momentum, [q] + list(p) + list(T), [T[0:3]] + list(v) + list(a))
    K = C.mkhom(C.rot_of(q.q), p)
    C.eq('momentum balance', d, C.Ad(C.hinv(K)).T @ (M @ a + f), tol=1e-5)


# ------------------------------------------------------------------------ C16
def two_bodies(C, n=2):
    core = C.mod('core')
    w = core.World()
    a, b = core.Body('a'), core.Body('b')
    nu = C.vec('nu', n)
    k = n // 2
    H1 = C.hom('H1')
    H2 = C.mkhom(C.eye(3), C.vec('p2', 3))
    S1, S2 = C.mat('S1', 6, k), C.mat('S2', 6, n - k)
    D1, D2 = C.mat('D1', 6, k), C.mat('D2', 6, n - k)
    w.add_link(w.ground, make_joint(C, H1, S1, D1, nu[0:k], k), a)
    w.add_link(a, make_joint(C, H2, S2, D2, nu[k:n], n - k), b)
    for i, x in enumerate((a, b)):
        m = C.real('m%d' % i, 0, 100, strict=True, lo_sample=.3)
        C.assume_lt(C.const(1) / 10 ** 9, m)
        x.mass = C.inertia('M', m, C.vec('com%d' % i, 3, -3, 3), C.sym_mat('I%d' % i, 3))
        x.viscosity = C.mat('B%d' % i, 6, 6)
    w.init()
    return w, (a, b), nu


@contract('C16')
def assembly(C):
    """The generalized matrices are those of the bodies seen through their jacobians."""
    w, bodies, nu = two_bodies(C)
    for i in (0, 1):
        w.update_dynamic()
        M = sum(b.jacobian.T @ b.mass @ b.jacobian for b in bodies)
        B = sum(b.jacobian.T @ b.viscosity @ b.jacobian for b in bodies)
        C.eq('mass', w.mass, M)
        C.eq('viscosity', w.viscosity, B)
        N = sum(b.jacobian.T @ (b.mass @ (b.djacobian @ nu) + b.nleffects @ (b.jacobian @ nu))
                for b in bodies)
        C.eq('nonlinear effects', w.nleffects @ nu, N)
    C.eq('symmetric', w.mass, w.mass.T)


@contract('C16')
def kinetic_energy(C):
    w, bodies, nu = two_bodies(C)
    w.update_dynamic()
    C.eq('kinetic energy', nu @ (w.mass @ nu), sum(b.twist @ (b.mass @ b.twist) for b in bodies))
    C.eq('dissipated power', nu @ (w.viscosity @ nu),
         sum(b.twist @ (b.viscosity @ b.twist) for b in bodies))


def pendulum(C, q, v, M):
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    a, b = core.Body('a'), core.Body('b')
    a.mass, b.mass = M
    w.add_link(w.ground, J.RzJoint(gpos=[q[0]], gvel=[v[0]]), a)
    w.add_link(subframe(C, a, C.mkhom(C.eye(3), C.arr([1, 0, 0]))),
               J.RyJoint(gpos=[q[1]], gvel=[v[1]]), b)
    w.init()
    w.update_dynamic()
    return w


@contract('C16', budget=200)
def energy_conserved(C):
    """Free motion of a double pendulum: M dv + N v = 0 conserves the kinetic energy,
    that is v.(dM/dt/2 - N).v = 0."""
    q, v = C.vec('q', 2), C.vec('v', 2)
    M = []
    for i in (0, 1):
        m = C.real('m%d' % i, 0, 100, strict=True, lo_sample=.3)
        C.assume_lt(C.const(1) / 10 ** 9, m)
        M.append(C.inertia('M', m, C.vec('com%d' % i, 3, -3, 3), C.sym_mat('I%d' % i, 3)))
    w = pendulum(C, q, v, M)
    dM = C.deriv(lambda *s: pendulum(C, list(s), v, M).mass, list(q), list(v))
    C.eq('energy', v @ (dM @ v) / 2, v @ (w.nleffects @ v), tol=1e-5)
    # Lagrange's equations: N v = dM/dt v - d(v.M.v/2)/dq
    f = w.nleffects @ v
    for k in (0, 1):
        r = [0, 0]
        r[k] = 1
        dk = C.deriv(lambda *s: pendulum(C, list(s), v, M).mass, list(q), r)
        C.eq('Lagrange', f[k], (dM @ v)[k] - v @ (dk @ v) / 2, tol=1e-5)


# --------------------------------------------------------- an arbitrary world
class Arb(object):
    pass


def arb_world(C, n, joints=None, rec=None):
    """A world in an arbitrary dynamic state: mass, viscosity and nonlinear
    matrices are arbitrary (n x n, n <= 3)."""
    core = C.mod('core')
    w = core.World()
    nu = C.vec('nu', n)
    joints = joints or [n]
    parent = w.ground
    k = 0
    js = []
    dS = C.zeros((6, n))
    dS[3:3 + n, :] = C.mat('dS', n, n)

    class AnyJoint(core.Joint):
        def __init__(self, lo, hi):
            core.Joint.__init__(self)
            self.lo, self.hi = lo, hi
            self.gvel = nu[lo:hi].copy()

        ndof = property(lambda s: s.hi - s.lo)
        pose = property(lambda s: C.eye(4))

        @property
        def jacobian(self):
            S = C.zeros((6, self.hi - self.lo))
            for i in range(self.lo, self.hi):
                S[3 + i, i - self.lo] = C.one
            return S

        @property
        def djacobian(self):
            return dS[:, self.lo:self.hi].copy()

        def integrate(self, gvel, dt):
            if rec is None:
                raise AssertionError('not to be integrated')
            rec.append((self, gvel.copy(), dt))
            self.gvel = gvel
    for ndof in joints:
        b = core.Body()
        j = AnyJoint(k, k + ndof)
        w.add_link(parent, j, b)
        js.append(j)
        parent = b
        k += ndof
    X = C.eye(6)
    X[3:3 + n, 3:3 + n] = C.mat('M', n, n) + (0 if not C.concrete() else 6 * C.eye(n))
    if n == 3:
        X[5, 5] = 1 + X[5, 5] * X[5, 5]     # read as the mass of the body
    V = C.zeros((6, 6))
    V[3:3 + n, 3:3 + n] = C.mat('V', n, n)
    b.mass, b.viscosity = X, V
    w.init()
    w.update_dynamic()
    r = Arb()
    r.w, r.js, r.nu, r.n = w, js, nu, n
    r.M, r.B = X[3:3 + n, 3:3 + n], V[3:3 + n, 3:3 + n]
    r.N = w.nleffects.copy()
    poke(w, 'current_time', C.real('now'))   # any instant, before zero as well
    C.eq('arbitrary mass', w.mass, r.M)
    C.eq('arbitrary viscosity', w.viscosity, r.B)
    C.eq('arbitrary velocity', w.gvel, nu)
    return r


def make_controller(C, g, Z, log):
    core = C.mod('core')

    class AnyController(core.Controller):
        def init(self, world):
            log.append(('init', self, world))

        def update(self, dt):
            log.append(('update', self, dt))
            return (g, Z)
    return AnyController('any')         # a name tells nothing apart


# ------------------------------------------------------------------------ C17
def controllers(n, k):
    def body(C):
        r = arb_world(C, n)
        w = r.w
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        log = []
        g = [C.vec('g%d' % i, n) for i in range(k)]
        Z = [C.mat('Z%d' % i, n, n) for i in range(k)]
        cs = [make_controller(C, g[i], Z[i], log) for i in range(k)]
        for c in cs:
            w.register(c)
        w.init()
        C.true('every controller is initialized with the world',
               log == [('init', c, w) for c in cs])
        w.update_dynamic()
        imp = r.M / dt + r.B + r.N - sum(Z, C.zeros((n, n)))
        C.assume_ne(C.det(imp), 0, 'the impedance is invertible')
        D = C.eye(n) * C.real('more', .5, 2)
        s = C.frame('given arrays', *(g + Z))
        for step in (0, 1):
            del log[:]
            if step:        # with another state, the result is the one of that state
                r.M, imp = r.M + D, imp + D / dt
                C.assume_ne(C.det(imp), 0, 'the impedance is invertible')
                poke(w, 'mass', r.M.copy())
            w.update_controllers(dt)
            C.true('every controller is updated once',
                   sorted(id(x[1]) for x in log) == sorted(id(c) for c in cs) and
                   all(x[0] == 'update' for x in log))
            for x in log:
                C.eq('step', x[2], dt)
            C.eq('generalized force', w.gforce, sum(g, C.zeros(n)))
            C.eq('admittance', imp @ w.admittance, C.eye(n), tol=1e-6)
        C.unchanged('given arrays', s)
        C.eq('mass kept', w.mass, r.M)
        C.eq('viscosity kept', w.viscosity, r.B)
        C.eq('nonlinear effects kept', w.nleffects, r.N)
        C.eq('velocity kept', w.gvel, r.nu)
    return body


for _n, _k in ((1, 0), (1, 3), (2, 1), (2, 2)):
    contract('C17', 'controllers_%d_%d' % (_n, _k))(controllers(_n, _k))


@contract('C17')
def forces_start_again(C):
    """The force of the controllers replaces what the last step left, even when there is
    no controller."""
    r = arb_world(C, 1)
    w = r.w
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    C.assume_ne(C.det(r.M / dt + r.B + r.N), 0, 'the impedance is invertible')
    f = C.vec('f', 1)
    c = make_constraint(C, w, C.arr([[C.one]]), C.zeros(1), True, [], [f])
    c.peers = [c]
    w.register(c)
    w.init()
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt, maxiters=1)
    C.eq('force of the constraint', w.gforce, f)
    w.update_controllers(dt)
    C.eq('no controller, no force', w.gforce, C.zeros(1))


@contract('C17')
def nonpositive_step(C):
    r = arb_world(C, 1)
    dt = C.real('dt', -1, 0)
    C.raises('refused', AssertionError, lambda: r.w.update_controllers(dt))
    C.raises('refused (constraints)', AssertionError, lambda: r.w.update_constraints(dt))
    C.raises('refused (integration)', AssertionError, lambda: r.w.integrate(dt))


# ------------------------------------------------------------------------ C20
def integration(joints):
    def body(C):
        n = sum(joints)
        rec = []
        r = arb_world(C, n, joints, rec)
        w = r.w
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        g, Z = C.vec('g', n), C.mat('Z', n, n)
        log = []
        w.register(make_controller(C, g, Z, log))
        w.init()
        w.update_dynamic()
        imp = r.M / dt + r.B + r.N - Z
        C.assume_ne(C.det(imp), 0, 'the impedance is invertible')
        w.update_controllers(dt)
        w.update_constraints(dt)
        t0 = C.real('t0')
        poke(w, 'current_time', t0)
        w.integrate(dt)
        nu = w.gvel
        C.eq('implicit equation', imp @ nu, r.M @ r.nu / dt + g, tol=1e-6)
        C.eq('clock', w.current_time, t0 + dt)
        C.true('each joint once', [x[0] for x in rec] == r.js)
        k = 0
        for j, v, d in rec:
            C.eq('joint velocity', v, nu[k:k + j.ndof])
            C.eq('joint step', d, dt)
            k += j.ndof
        C.eq('mass kept', w.mass, r.M)
        C.eq('force kept', w.gforce, g)
    return body


for _j in ((1,), (2,), (1, 1), (0, 1)):
    contract('C20', 'integration_' + '_'.join(map(str, _j)))(integration(list(_j)))


@contract('C20')
def joints_follow(C):
    """Real joints: positions move with the new velocities, which the world and the
    joints keep sharing."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    q, v = C.vec('q', 2), C.vec('v', 2)
    k = C.choice('joints', [0, 1])
    cls = [(J.TxJoint, J.RzJoint), (J.RyJoint, J.TzJoint)][k]
    a, b = core.Body(), core.Body()
    m = C.real('m', 0, 9, strict=True, lo_sample=.3)
    I = [C.real('I%d' % i, 0, 9, strict=True, lo_sample=.3) for i in range(3)]
    a.mass = b.mass = C.diag(I + [m, m, m])
    C.assume_lt(C.const(1) / 10 ** 9, m)
    j1, j2 = cls[0](gpos=[q[0]], gvel=[v[0]]), cls[1](gpos=[q[1]], gvel=[v[1]])
    w.add_link(w.ground, j1, a)
    w.add_link(a, j2, b)
    w.init()
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    x = list(q)
    for step in (0, 1):
        w.update_dynamic()
        C.assume_ne(C.det(w.mass / dt + w.nleffects), 0, 'the impedance is invertible')
        w.update_controllers(dt)
        w.update_constraints(dt)
        M, N, old = w.mass.copy(), w.nleffects.copy(), w.gvel
        w.integrate(dt)
        nu = w.gvel
        C.eq('implicit equation', (M / dt + N) @ nu, M @ old / dt, tol=1e-6)
        x = [x[0] + dt * nu[0], x[1] + dt * nu[1]]
        C.eq('positions', [j1.gpos[0], j2.gpos[0]], x)
        C.eq('velocities', [j1.gvel[0], j2.gvel[0]], [nu[0], nu[1]])
        C.eq('clock', w.current_time, (step + 1) * dt)
        if not C.concrete():
            break


# ------------------------------------------------------------------------ C21
def make_constraint(C, world, J, f0, act, log, dforces):
    core = C.mod('core')

    class AnyConstraint(core.Constraint):
        def __init__(self):
            core.Constraint.__init__(self, 'any')   # a name tells nothing apart
            self._force = f0.copy()
            self.k = 0
            self.world = None

        ndol = property(lambda s: J.shape[0])
        jacobian = property(lambda s: J.copy())

        def init(self, world):
            self.world = world

        def update(self, dt):
            log.append(('update', self, dt))

        def is_active(self):
            return act

        def solve(self, vel, admittance, dt):
            log.append(('solve', self, vel.copy(), admittance.copy(), dt,
                        [c._force.copy() for c in self.peers]))
            d = dforces[self.k]
            self.k += 1
            self._force = self._force + d
            return d.copy()
    return AnyConstraint()


def constraints(n, dims, modes, sweeps):
    """modes: on, off (disabled), idle (not active)"""
    def body(C):
        r = arb_world(C, n)
        w = r.w
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        log = []
        g = C.vec('g', n)
        w.register(make_controller(C, g, C.zeros((n, n)), []))
        cs, Js = [], []
        for i, (d, m) in enumerate(zip(dims, modes)):
            J = C.mat('J%d' % i, d, n)
            c = make_constraint(C, w, J, C.vec('f%d' % i, d), m != 'idle', log,
                                [C.vec('d%d%d' % (i, s), d) for s in range(sweeps)])
            if m == 'off':
                c.disable()
            w.register(c)
            cs.append(c)
            Js.append(J)
        for c in cs:
            c.peers = cs
        on = [i for i, m in enumerate(modes) if m == 'on']
        w.init()
        C.true('initialized', all([c.world is w for c in cs]))
        w.update_dynamic()
        C.assume_ne(C.det(r.M / dt + r.B + r.N), 0, 'the impedance is invertible')
        w.update_controllers(dt)
        Y = w.admittance
        w.update_constraints(dt, maxiters=sweeps, tol=0)
        C.true('updates', sorted(id(x[1]) for x in log if x[0] == 'update') ==
               sorted(id(c) for c, m in zip(cs, modes) if m != 'off'))
        for x in log:
            if x[0] == 'update':
                C.eq('step', x[2], dt)
        solved = [x for x in log if x[0] == 'solve']
        C.true('active constraints are solved in each sweep',
               [cs.index(x[1]) for x in solved] == on * sweeps)
        for _, c, vel, adm, d, forces in solved:
            J = Js[cs.index(c)]
            f = g + sum([Js[i].T @ forces[i] for i in on], C.zeros(n))
            C.eq('velocity given the current forces', vel, J @ (Y @ (r.M @ r.nu / dt + f)))
            C.eq('admittance of the constraint', adm, J @ Y @ J.T)
            C.eq('step', d, dt)
        C.eq('total force', w.gforce,
             g + sum([Js[i].T @ cs[i]._force for i in on], C.zeros(n)))
        C.eq('velocity kept', w.gvel, r.nu)
        C.eq('admittance kept', w.admittance, Y)
    return body


for _a in ((1, (), (), 1), (2, (2,), ('on',), 1), (1, (1, 2), ('on', 'on'), 2),
           (1, (1, 1, 2), ('off', 'on', 'idle'), 1), (1, (2, 1, 1), ('idle', 'on', 'on'), 1),
           (2, (1, 1), ('on', 'off'), 1)):
    contract('C21', 'constraints_%d_%s_%d' % (
        _a[0], '_'.join('%d%s' % x for x in zip(_a[1], _a[2])) or 'none', _a[3]),
        bounded='%d constraints, %d sweep(s), %d degrees of freedom; all values symbolic' % (
            len(_a[1]), _a[3], _a[0]))(constraints(*_a))


@contract('C21', bounded='5 to 14 constraints of one to four dimensions, 1 to 3 degrees of freedom, '
          'up to three sweeps; run-time evaluation', sym=False, samples=60)
def many_constraints(C):
    dims, modes = [], []
    for i in range(C.choice('constraints', tuple(range(5, 15)))):
        dims.append(C.choice('dim%d' % i, (1, 2, 3, 4)))
        modes.append(C.choice('mode%d' % i, ('on', 'on', 'on', 'on', 'off', 'idle')))
    constraints(C.choice('n', (1, 2, 3)), dims, modes, C.choice('sweeps', (1, 2, 3)))(C)


@contract('C21')
def sweeps_until_settled(C):
    """Sweeps go on until one changes the velocities by less than the tolerance, at
    least twice, at most the allowed number of times."""
    r = arb_world(C, 1)
    w = r.w
    log = []
    J = C.arr([[C.one]])
    d = [C.vec('d%d' % i, 1, -1, 1) for i in range(4)]
    c = make_constraint(C, w, J, C.zeros(1), True, log, d)
    c.peers = [c]
    w.register(c)
    w.init()
    w.update_dynamic()
    dt = C.one
    imp = r.M / dt + r.B + r.N
    C.assume_lt(0, imp[0, 0])
    w.update_controllers(dt)
    tol = C.real('tol', 0, 1, strict=True, lo_sample=.05)
    w.update_constraints(dt, maxiters=4, tol=tol)
    Y = 1 / imp[0, 0]
    n = 4
    for k in (1, 2):
        if abs(Y * d[k][0]) < tol:
            n = k + 1
            break
    C.eq('number of sweeps', len([x for x in log if x[0] == 'solve']), n)
