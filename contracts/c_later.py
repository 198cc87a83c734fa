"""What users change between the steps: targets and gains, enabled and active constraints,
near and far contacts.  Defaults, refusals, and contact frames with any orientation."""
import numpy as np
from pvc.run import contract
from c_constraints import contact_world
from c_control import pd_world
from c_world import arb_world, make_constraint, make_controller, nonpositive_step

contract('C20', 'nonpositive_step')(nonpositive_step)


# ------------------------------------------------------------------------ C19
@contract('C19')
def retargeted(C):
    """Gains and targets changed after the initialization, in place or not."""
    w, js, q = pd_world(C, (1, 2))
    ct = C.mod('controllers')
    n = 2
    val = dict(kp=C.mat('kp', n, n), kd=C.mat('kd', n, n), gpos_des=C.vec('qd', n),
               gvel_des=C.vec('vd', n))
    c = ct.ProportionalDerivativeController([js[1]], **dict((k, v.copy()) for k, v in val.items()))
    w.register(c)
    w.init()
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    c.update(dt)
    what = C.choice('what', sorted(val))
    val[what] = C.mat('new', n, n) if what[0] == 'k' else C.vec('new', n)
    if C.choice('in place', (0, 1)):
        getattr(c, what)[...] = val[what]
    else:
        setattr(c, what, val[what].copy())
    f, Z = c.update(dt)
    C.eq('force', f[1:], val['kp'] @ (val['gpos_des'] - q[1]) + val['kd'] @ val['gvel_des'])
    C.eq('impedance', Z[1:, 1:], -(dt * val['kp'] + val['kd']))
    C.eq('other joints', f[0], 0)


@contract('C19')
def joints_given(C):
    """Any iterable of joints, which is the caller's own: nothing he does with it afterwards counts."""
    w, js, q = pd_world(C, (1, 2))
    ct, core = C.mod('controllers'), C.mod('core')
    how = C.choice('given as', ('list', 'tuple', 'named', 'iterator', 'generator', 'world'))
    mine = [js[1], js[0]]
    if how == 'world':
        mine = [js[0], js[1]]
    given = {'list': lambda: mine, 'tuple': lambda: tuple(mine),
             'named': lambda: core.JointsList(mine), 'iterator': lambda: iter(mine),
             'generator': lambda: (j for j in mine), 'world': lambda: w.iterjoints()}[how]()
    kp, kd = C.mat('kp', 3, 3), C.mat('kd', 3, 3)
    qd, vd = C.vec('qd', 3), C.vec('vd', 3)
    c = ct.ProportionalDerivativeController(given, kp, kd, qd, vd)
    w.register(c)
    order = [j for j in mine]
    if how == 'list':
        given.pop()
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    for again in (0, 1):
        w.init()
        f, Z = c.update(dt)
        d, p = [], []
        for j in order:
            d.extend(range(j.dof.start, j.dof.stop))
            p.extend(list(j.gpos))
        want = kp @ (qd - C.arr(p)) + kd @ vd
        imp = -(dt * kp + kd)
        for i, a in enumerate(d):
            C.eq('force', f[a], want[i])
            for k, b in enumerate(d):
                C.eq('impedance', Z[a, b], imp[i, k])


# ------------------------------------------------------------------------ C21
@contract('C21', sym=False, samples=40, bounded='up to four constraints, five steps; run-time '
          'evaluation')
def toggled(C):
    """Constraints enabled and disabled, active and not, from one step to the next."""
    n = 2
    r = arb_world(C, n)
    w = r.w
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    log = []
    g = C.vec('g', n)
    w.register(make_controller(C, g, C.zeros((n, n)), []))
    num = C.choice('constraints', (1, 2, 3, 4))
    Js = [C.mat('J%d' % i, 1 + i % 3, n) for i in range(num)]
    cs = [make_constraint(C, w, J, C.zeros(len(J)), True, log,
                          [C.vec('d%d%d' % (i, s), len(J)) for s in range(20)])
          for i, J in enumerate(Js)]
    active = {}
    for c in cs:
        c.peers = cs
        c.is_active = (lambda c: lambda: active[id(c)])(c)
        w.register(c)
    steps = [[C.choice('%d%d' % (s, i), ('on', 'on', 'off', 'idle')) for i in range(num)]
             for s in range(5)]
    for s, modes in enumerate(steps):
        for c, m in zip(cs, modes):
            (c.disable if m == 'off' else c.enable)()
            active[id(c)] = m == 'on'
            c._force = C.zeros(c.ndol)
        if s == 0:
            w.init()
            w.update_dynamic()
        del log[:]
        w.update_controllers(dt)
        w.update_constraints(dt, maxiters=2, tol=0)
        on = [i for i, m in enumerate(modes) if m == 'on']
        C.true('updated', sorted(cs.index(x[1]) for x in log if x[0] == 'update') ==
               [i for i, m in enumerate(modes) if m != 'off'])
        C.true('solved', sorted(cs.index(x[1]) for x in log if x[0] == 'solve') ==
               sorted(on * 2))
        C.eq('force', w.gforce, g + sum([Js[i].T @ cs[i]._force for i in on], C.zeros(n)))


@contract('C21', sym=False, samples=6, bounded='one constraint, 30 to 400 sweeps; run-time '
          'evaluation')
def default_tolerance(C):
    """With the default settings the sweeps go on until the last one changes the velocity by
    less than the documented tolerance."""
    core = C.mod('core')
    r = arb_world(C, 1)
    w = r.w
    need = C.choice('sweeps', (30, 60, 120, 400))
    log = []
    k = float((r.M + r.B + r.N)[0, 0])
    C.assume(abs(k) > 1e-3)
    Y = 1. / k
    d = [C.arr([2e-4 / abs(Y)]) for i in range(need)] + [C.arr([1e-6 / abs(Y)])] * 2000
    c = make_constraint(C, w, C.arr([[C.one]]), C.zeros(1), True, log, d)
    c.peers = [c]
    w.register(c)
    w.init()
    w.update_dynamic()
    w.update_controllers(1.)
    w.update_constraints(1.)
    C.true('sweeps', need < len([x for x in log if x[0] == 'solve']) <= need + 2)


# ------------------------------------------------------------------------ C24
def any_frames(ground):
    def body(C):
        """The solver of the user gives contact frames of any orientation."""
        cs, sh = C.mod('constraints'), C.mod('shapes')
        w, nu, b, H, T, items = contact_world(C, 1, ground)
        gap, prox = C.real('gap', -1, 1), C.real('prox', 0, 1)
        A = C.mkhom(C.rot('RA'), C.vec('a', 3))
        B = C.mkhom(C.rot('RB'), C.vec('b', 3))
        c = cs.SoftFingerContact((sh.Sphere(b[0], 1.), sh.Sphere(b[1], 1.)), C.one,
                                 collision_solver=lambda s: (gap, A.copy(), B.copy()),
                                 proximity=prox)
        w.register(c)
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        c.update(dt)
        fr = [x for x in w.getframes() if x.body in b and x not in b]
        for x in fr:
            C.eq('contact frame', x.pose, A if x.body is b[0] else B)

        def at(k):
            R = H[k][0:3, 0:3]
            r = R.T @ (A[0:3, 3] - H[k][0:3, 3])
            return R @ (T[k][3:6] + C.skew(T[k][0:3]) @ r), R @ T[k][0:3]
        (v0, w0), (v1, w1) = at(0), at(1)
        rv = A[0:3, 0:3].T @ (v1 - v0)
        rw = A[0:3, 0:3].T @ (w1 - w0)
        C.eq('jacobian', c.jacobian @ nu, [rw[2], rv[0], rv[1], rv[2]])
        C.assume_ne(gap + dt * rv[2], prox)
        C.true('active when the gap closes', bool(c.is_active()) ==
               bool(gap + dt * rv[2] < prox))
    return body


contract('C24', 'any_frames', sym=False, samples=40, bounded='run-time evaluation')(
    any_frames(False))
contract('C24', 'any_frames_ground', sym=False, samples=40, bounded='run-time evaluation')(
    any_frames(True))


@contract('C24')
def distance_kept(C):
    """The distance is the one of the last update, active or not."""
    core, cs, sh = C.mod('core'), C.mod('constraints'), C.mod('shapes')
    w = core.World()
    b = core.Body()
    Z = C.zeros((6, 1))
    for x in (w.ground, b):
        x.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    gaps = []
    c = cs.SoftFingerContact((sh.Sphere(w.ground, 1.), sh.Sphere(b, 1.)), C.one, proximity=0.,
                             collision_solver=lambda s: (gaps[-1], C.eye(4), C.eye(4)))
    w.register(c)
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    for i, (lo, hi) in enumerate(C.choice('gaps', (((-1, 0), (0, 1)), ((0, 1), (0, 1)),
                                                   ((0, 1), (-1, 0))))):
        g = C.real('gap%d' % i, lo, hi)
        C.assume_ne(g, 0)
        gaps.append(g)
        c.update(dt)
        C.true('active', bool(c.is_active()) == (lo < 0))
        # straight through the gap
        v = C.pos('v%d' % i, 3)
        d = c.solve(C.arr([0, 0, 0, -g / dt - v]), C.eye(4), dt)
        C.eq('the gap is closed, not more', d, [0, 0, 0, v])


# ------------------------------------------------------------------------ C25
def several(C, gap, dt, vel, Y, mu):
    """The ratios of sliding velocity to friction force of the solutions."""
    a = vel.copy()
    a[3] += gap / dt
    yn, Yc, Yt = Y[3, 3], Y[0:3, 3], Y[0:3, 0:3]
    beta, b, k = a[0:3] - a[3] / yn * Yc, mu / yn * Yc, mu / yn * a[3]
    Yh = Yt - np.outer(Yc, Yc) / yn
    B = np.zeros((6, 6))
    B[0:3, 0:3] = Yh - 2 / k * np.outer(beta, b)
    B[0:3, 3:6] = -np.outer(beta, beta) / k ** 2
    B[3:6, 0:3] = np.outer(b, b) - np.eye(3)
    B[3:6, 3:6] = Yh
    s = np.linalg.eigvals(B)
    return sorted(s.real[(s.imag == 0) & (s.real <= 0)])


@contract('C25', sym=False, samples=60, bounded='run-time evaluation')
def least_friction(C):
    """When a sliding contact has several solutions, the one with the least friction for its
    sliding velocity is taken, as documented."""
    from c_constraints import finger
    rng = np.random.RandomState(C.choice('seed', tuple(range(1, 400))))
    for k in range(400):
        n = rng.randn(4, 4) * np.exp(rng.randn() * 1.5)
        Y = n @ n.T + 1e-2 * np.eye(4)
        mu, dt = float(np.exp(rng.randn())), .1
        vel = rng.randn(4)
        vel[3] = -abs(vel[3])
        f = -np.linalg.solve(Y, vel)
        if np.linalg.norm(f[0:3]) < 1.01 * mu * abs(f[3]):
            continue
        s = several(C, 0., dt, vel, Y, mu)
        if len(s) > 1 and s[0] < 1.05 * s[1] < -1e-3 and s[0] > -1e5:
            break
    else:
        return
    c = finger(C, 0., mu)
    d = c.solve(vel.copy(), Y.copy(), dt)
    v = vel + Y @ d
    C.eq('sliding velocity', v[0:3], s[0] * d[0:3], tol=1e-4)


# ------------------------------------------------------------------------ C29
@contract('C29', sym=False, samples=1, bounded='two shapes; run-time evaluation')
def refused_contact(C):
    """A contact that its class refuses is not left out in silence."""
    core, cs, sh, J = (C.mod(x) for x in ('core', 'constraints', 'shapes', 'joints'))
    w = core.World()
    b = core.Body()
    w.add_link(w.ground, J.FreeJoint(), b)
    for s in (sh.Sphere(w.ground, 1.), sh.Sphere(b, 1.)):
        w.register(s)
    for error in (ValueError, AssertionError, TypeError, KeyError, ZeroDivisionError):
        class Picky(cs.SoftFingerContact):
            def __init__(self, shapes, **args):
                raise error('no such contact')
        C.raises('the error is passed on', error, lambda: cs.get_all_contacts(w, Picky))


# ------------------------------------------------------------------------ C31
@contract('C31', sym=False, samples=1, bounded='260 objects of each kind; run-time evaluation')
def hoard(C):
    """Each of hundreds of objects is kept once, whenever it is registered again."""
    core, sh, ct = C.mod('core'), C.mod('shapes'), C.mod('controllers')
    w = core.World()
    kinds = [lambda: core.SubFrame(w.ground), lambda: core.MovingSubFrame(w.ground),
             lambda: sh.Point(w.ground), ct.WeightController,
             lambda: make_constraint(C, w, C.zeros((1, 1)), C.zeros(1), True, [], [])]
    obs = [[k() for i in range(260)] for k in kinds]
    for again in (0, 1, 2):
        for l in obs:
            for o in (l, l[::-1], l[::7])[again]:
                w.register(o)
    got = list(w.iterframes()), list(w.itershapes()), list(w.getcontrollers()), \
        list(w.iterconstraints())
    for l, want in zip(got, (obs[0] + obs[1], obs[2], obs[3], obs[4])):
        l = [x for x in l if not isinstance(x, core.Body)]
        C.true('each once', sorted(map(id, l)) == sorted(map(id, want)))
