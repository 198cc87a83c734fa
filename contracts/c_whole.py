"""Contracts on whole robots, bounded: random trees of up to six bodies with every kind of
joint, attached through any frames, with changes between the steps. They are evaluated on
the untouched code against an independent oracle (gen.py)."""
import numpy as np
from pvc.run import contract
import gen

BOUND = 'random trees of at most %d bodies, every kind of joint and frame; run-time evaluation'
KW = dict(sym=False, samples=600, budget=60, rt=1e-7)


def check_poses(C, R, when):
    for i, b in enumerate(R.bodies):
        H = R.kinematics(b)[0]
        C.eq(when + ': pose of a body', b.pose, H)
    C.eq(when + ': ground', R.w.ground.pose, np.eye(4))
    for l in R.links:
        C.eq(when + ': frame of a joint', l.f0.pose, R.kinematics(l.parent, l.H0)[0])
        C.eq(when + ': moved frame of a joint', l.f1.pose, R.kinematics(l.body, l.H1)[0])
        C.eq(when + ': pose on the body', l.f1.bpose, l.H1)
        C.eq(when + ': the joint links its frames', gen.hinv(l.f0.pose) @ l.f1.pose, l.joint.pose)


def check_twists(C, R, when):
    for b in R.bodies:
        C.eq(when + ': twist of a body', b.twist, R.kinematics(b)[3])
    C.eq(when + ': twist of the ground', R.w.ground.twist, np.zeros(6))
    for l in R.links:
        C.eq(when + ': twist of a frame', l.f0.twist, R.kinematics(l.parent, l.H0)[3])
        C.eq(when + ': twist of a moved frame', l.f1.twist, R.kinematics(l.body, l.H1)[3])


@contract('C13', bounded=BOUND % 7, **KW)
def whole_poses(C):
    R = gen.robot(C, 1, 6, dyn=False)
    R.w.init()
    for k in (0, 1, 2):
        order = C.choice('order%d' % k, ('geometric', 'dynamic', 'both'))
        if order != 'dynamic':
            R.w.update_geometric()
            check_poses(C, R, 'geometric update')
        if order != 'geometric':
            R.w.update_dynamic()
            check_poses(C, R, 'dynamic update')
            check_twists(C, R, 'dynamic update')
        gen.edit(C, R, 'e%d' % k)


@contract('C14', bounded=BOUND % 6, **KW)
def whole_jacobians(C):
    R = gen.robot(C, 1, 5, dyn=False)
    R.w.init()
    for k in (0, 1):
        R.w.update_dynamic()
        nu = R.gvel()
        C.eq('generalized velocity', R.w.gvel, nu)
        frames = [(b, b, None) for b in R.bodies]
        for l in R.links:
            frames += [(l.f0, l.parent, l.H0), (l.f1, l.body, l.H1)]
        for x, b, H in frames:
            P, J, dJ, V = R.kinematics(b, H)
            C.eq('jacobian', x.jacobian, J)
            C.eq('jacobian derivative', x.djacobian, dJ)
            C.eq('twist', x.twist, J @ nu)
        n = R.ndof()
        C.eq('ground', R.w.ground.jacobian, np.zeros((6, n)))
        C.eq('ground, derivative', R.w.ground.djacobian, np.zeros((6, n)))
        gen.edit(C, R, 'e%d' % k)


@contract('C15', bounded=BOUND % 5, **KW)
def whole_bodies(C):
    R = gen.robot(C, 1, 4)
    R.w.init()
    for k in (0, 1):
        R.w.update_dynamic()
        for b in R.bodies:
            M = R.mass[id(b)]
            V = R.kinematics(b)[3]
            C.eq('mass of the body', b.mass, M)
            f = -gen.ad(V).T @ M @ V if M[5, 5] > 1e-9 else np.zeros(6)
            C.eq('velocity dependent wrench', b.nleffects @ b.twist, f)
        C.eq('ground', R.w.ground.nleffects @ R.w.ground.twist, np.zeros(6))
        gen.edit(C, R, 'e%d' % k)


@contract('C16', bounded=BOUND % 6, **KW)
def whole_matrices(C):
    R = gen.robot(C, 1, 5)
    R.w.init()
    for k in (0, 1, 2):
        R.w.update_dynamic()
        M, B, h = R.dynamics()
        C.eq('mass', R.w.mass, M)
        C.eq('viscosity', R.w.viscosity, B)
        C.eq('nonlinear effects', R.w.nleffects @ R.gvel(), h)
        C.eq('nonlinear effects, matrix', R.w.nleffects, R.nonlinear())
        if C.choice('again%d' % k, (0, 1)):
            R.w.update_dynamic()
            C.eq('mass again', R.w.mass, M)
        gen.edit(C, R, 'e%d' % k)


# ------------------------------------------------------------------ simulation
LINEAR = tuple(k for k in gen.CLASSES if k not in ('Free', 'Fixed'))


class Controls(object):
    """The controllers of a robot, and what each should give."""

    def __init__(self, C, R):
        self.C, self.R, self.items = C, R, []

    def weight(self, tag):
        C = self.C
        ct = C.mod('controllers')
        if C.choice(tag + 'default', (0, 1)):
            c, g = ct.WeightController(), -9.81
        else:
            g = C.real(tag + 'g', -20, 20)
            c = ct.WeightController(gravity=g)
        self.items.append((c, 'weight', g))
        self.R.w.register(c)

    def pd(self, tag):
        C, R = self.C, self.R
        links = [l for l in R.order() if l.kind in LINEAR]
        if not links:
            return
        k = C.choice(tag + 'count', (1, 1, 2, 3))
        sel = []
        for i in range(k):
            l = links[C.choice('%ssel%d' % (tag, i), tuple(range(len(links))))]
            if not [x for x in sel if x is l]:
                sel.append(l)
        n = sum(gen.size(l.kind) for l in sel)
        kw = {}
        for name in ('kp', 'kd', 'gpos_des', 'gvel_des'):
            if C.choice(tag + name, (1, 1, 0)):
                kw[name] = C.mat(tag + name, n, n, -3, 3) if name[0] == 'k' else \
                    C.vec(tag + name, n, -3, 3)
        c = C.mod('controllers').ProportionalDerivativeController(
            [l.joint for l in sel], **dict((a, x.copy()) for a, x in kw.items()))
        kw.setdefault('kp', np.zeros((n, n)))
        kw.setdefault('kd', np.zeros((n, n)))
        kw.setdefault('gpos_des', np.zeros(n))
        kw.setdefault('gvel_des', np.zeros(n))
        self.items.append((c, 'pd', sel, kw))
        R.w.register(c)

    def custom(self, tag):
        C, R = self.C, self.R
        core = C.mod('core')
        me = self

        class Custom(core.Controller):
            calls = 0

            def init(self, world):
                self.n = world.ndof

            def update(self, dt):
                self.calls += 1
                n = self.n
                return me.table(tag, n)
        c = Custom()
        self.items.append((c, 'custom', tag))
        R.w.register(c)

    def table(self, tag, n):
        f = self.C.vec(tag + 'f', 8, -5, 5)
        return np.resize(f, n), np.resize(f, (n, n)) * .1 - np.eye(n)

    def add(self, k):
        old = len(self.items)
        self._add(k)
        gen.namesakes(self.C, 'ctrl', [it[0] for it in self.items[old:]])

    def _add(self, k):
        for i in range(k):
            getattr(self, self.C.choice('ctrl%d' % i, ('weight', 'pd', 'custom')))('c%d' % i)

    def total(self, dt):
        """Force at rest and impedance of all the controllers, from their definition."""
        R = self.R
        n = R.ndof()
        f, Z = np.zeros(n), np.zeros((n, n))
        dofs = R.dofs()
        for it in self.items:
            if it[1] == 'weight':
                g = weight(R, it[2])
                f += g
            elif it[1] == 'pd':
                _, _, sel, kw = it
                d = [k for l in sel for k in dofs[id(l)]]
                q = np.concatenate([np.ravel(l.joint.gpos) for l in sel])
                f[d] += kw['kp'] @ (kw['gpos_des'] - q) + kw['kd'] @ kw['gvel_des']
                Z[np.ix_(d, d)] -= kw['kp'] * dt + kw['kd']
            else:
                a, b = self.table(it[2], n)
                f += a
                Z += b
        return f, Z


def weight(R, g):
    f = np.zeros(R.ndof())
    up = R.w.up
    for b in R.bodies:
        M = R.mass[id(b)]
        m = M[5, 5]
        if m == 0:
            continue
        com = np.array([M[2, 4], M[0, 5], M[1, 3]]) / m      # m * skew(com) is the upper block
        H, J, dJ, V = R.kinematics(b)
        Jc = H[0:3, 0:3] @ (J[3:6] - gen.skew(com) @ J[0:3])
        f += m * g * (up @ Jc)
    return f


def check_weight_sign():
    S = gen.skew(np.array([1., 2., 3.]))
    assert (S[2, 1], S[0, 2], S[1, 0]) == (1., 2., 3.)


@contract('C18', bounded=BOUND % 6, **KW)
def whole_weight(C):
    """The weight follows the changes of the world and of its bodies."""
    R = gen.robot(C, 1, 5)
    K = Controls(C, R)
    K.weight('a')
    if C.choice('two', (0, 1)):
        K.weight('b')
    R.w.init()
    for k in (0, 1, 2):
        R.w.update_dynamic()
        for it in K.items:
            f, Z = it[0].update(.1)
            C.eq('weight', f, weight(R, it[2]))
            C.eq('no impedance', Z, np.zeros((R.ndof(), R.ndof())))
            C.eq('size', len(f), R.ndof())
        gen.edit(C, R, 'e%d' % k)
        for i, it in enumerate(K.items):
            if C.choice('gravity%d%d' % (k, i), (0, 1)):
                it[0].gravity = C.real('g%d%d' % (k, i), -20, 20)
                K.items[i] = it[:2] + (it[0].gravity,)
        R.w.init()


@contract('C19', bounded=BOUND % 6, **KW)
def whole_pd(C):
    R = gen.robot(C, 1, 5, dyn=False)
    R.w.init()
    K = Controls(C, R)
    for k in range(C.choice('count', (1, 2))):
        K.pd('p%d' % k)
    R.w.init()
    for k in (0, 1, 2):
        dt = C.real('dt%d' % k, 0, .5, strict=True, lo_sample=.01)
        nxt = C.vec('nxt%d' % k, 240 if gen.BIG else 36, -3, 3)[:R.ndof()]
        R.w.update_dynamic()
        dofs = R.dofs()
        for c, _, sel, kw in K.items:
            f, Z = c.update(dt)
            want = np.zeros(R.ndof())
            d = [i for l in sel for i in dofs[id(l)]]
            q = np.concatenate([np.ravel(l.joint.gpos) for l in sel])
            want[d] = kw['kp'] @ (kw['gpos_des'] - q - dt * nxt[d]) + \
                kw['kd'] @ (kw['gvel_des'] - nxt[d])
            C.eq('implicit law', f + Z @ nxt, want)
        kinds = tuple(k for k in gen.CLASSES)
        keep = [l.joint for it in K.items for l in it[2]]
        if gen_edit_keeping(C, R, 'e%d' % k, keep) is not None:
            R.w.init()


def gen_edit_keeping(C, R, tag, joints):
    """A change that keeps the given joints in the world."""
    old = [(l, l.joint) for l in R.links if [j for j in joints if j is l.joint]]
    how = C.choice(tag + 'how', ('free', 'free', 'replace', 'shift'))
    if how == 'shift':
        gen.shift(C, R, tag, joints)
        return how
    if how == 'replace':
        ls = [l for l in R.links if not [j for j in joints if j is l.joint]]
        if not ls:
            return None
        l = ls[C.choice(tag + 'w', tuple(range(len(ls))))]
        kind = C.choice(tag + 'by', gen.CLASSES)
        j = gen.new_joint(C, kind, tag + 'j')
        R.w.replace_joint(l.joint, j)
        l.joint, l.kind = j, kind
        return how
    how = C.choice(tag + 'op2', ('link', 'vel', 'pos', 'none'))
    if how == 'link':
        gen.add_link(C, R, tag + 'n', dyn=False)
    elif how != 'none':
        for i, l in enumerate(R.links):
            if gen.size(l.kind) and how == 'vel':
                l.joint.gvel[:] = C.vec('%sv%d' % (tag, i), gen.size(l.kind), -2, 2)
            elif l.kind in LINEAR:
                l.joint.gpos[:] = C.vec('%sq%d' % (tag, i), gen.size(l.kind), -3, 3)
    return how


def well(C, A):
    if A.size and np.linalg.cond(A) > 1e7:
        C.assume(False)


def one_step(C, R, K, dt, when, constraints=False):
    """One step of the simulation, against the equations."""
    w = R.w
    w.update_dynamic()
    M, B, h = R.dynamics()
    nu = R.gvel()
    N = R.nonlinear()
    f, Z = K.total(dt)
    imp = M / dt + B + N - Z
    well(C, imp)
    w.update_controllers(dt)
    C.eq(when + ': force of the controllers', w.gforce, f)
    C.eq(when + ': admittance', imp @ w.admittance, np.eye(len(nu)), tol=1e-6)
    if constraints:
        w.update_constraints(dt)
        f = f + constraint_forces(C, R)
        C.eq(when + ': force with the constraints', w.gforce, f)
    nxt = np.linalg.solve(imp, M @ nu / dt + f) if len(nu) else nu
    dofs = R.dofs()
    want = []
    for l in R.order():
        v = nxt[dofs[id(l)]]
        if l.kind == 'Fixed':
            q = None
        elif l.kind == 'Free':
            q = l.joint.gpos @ gen.screw(v, dt)
        else:
            q = np.ravel(l.joint.gpos) + dt * v
        want.append((l, v, q))
    t = w.current_time
    w.integrate(dt)
    C.eq(when + ': time', w.current_time, t + dt)
    C.true(when + ': clock', abs(w.current_time - (t + dt)) < 1e-12 * max(1., abs(t)))
    C.eq(when + ': implicit equation', imp @ w.gvel, M @ nu / dt + f, tol=1e-6)
    for l, v, q in want:
        C.eq(when + ': velocity of a joint', l.joint.gvel, v, tol=1e-6)
        if q is not None:
            C.eq(when + ': position of a joint', l.joint.gpos, q, tol=1e-6)
    C.eq(when + ': velocity of the world', w.gvel, nxt, tol=1e-6)
    # the joints and the world still share their velocities
    for i, l in enumerate(R.links):
        if gen.size(l.kind):
            v = C.vec('%s shared%d' % (when, i), gen.size(l.kind), -2, 2)
            l.joint.gvel[:] = v
            C.eq(when + ': velocity given to a joint, seen by the world', w.gvel[l.joint.dof], v)


def constraint_forces(C, R):
    f = np.zeros(R.ndof())
    for c in R.w.iterconstraints():
        if c.is_enabled() and c.is_active():
            f = f + c.jacobian.T @ c._force
    return f


@contract('C17', bounded=BOUND % 6, **KW)
def whole_controllers(C):
    R = gen.robot(C, 1, 5)
    gen.regular(C, R)
    R.w.init()
    K = Controls(C, R)
    K.add(C.choice('controllers', gen.up_to((0, 3), (4, 9))))
    R.w.init()
    for k in (0, 1, 2):
        if k == 0 or C.choice('other%d' % k, (0, 1)):
            dt = C.real('dt%d' % k, 0, .5, strict=True, lo_sample=.01)
        R.w.update_dynamic()
        f, Z = K.total(dt)
        M, B, h = R.dynamics()
        imp = M / dt + B + R.nonlinear() - Z
        well(C, imp)
        for again in range(C.choice('again%d' % k, (1, 2))):
            R.w.update_controllers(dt)
            C.eq('force', R.w.gforce, f)
            C.eq('admittance', imp @ R.w.admittance, np.eye(len(f)), tol=1e-6)
        C.eq('mass kept', R.w.mass, M)
        C.eq('viscosity kept', R.w.viscosity, B)
        C.eq('velocity kept', R.w.gvel, R.gvel())
        gen_edit_keeping(C, R, 'e%d' % k, [l.joint for it in K.items if it[1] == 'pd'
                                           for l in it[2]])
        gen.regular(C, R)
        R.w.init()


@contract('C20', bounded=BOUND % 6, **KW)
def whole_steps(C):
    R = gen.robot(C, 1, 5)
    gen.regular(C, R)
    R.w.init()
    K = Controls(C, R)
    K.add(C.choice('controllers', (0, 1, 2)))
    R.w.init()
    for k in range(4):
        dt = C.real('dt%d' % k, 0, .2, strict=True, lo_sample=.005)
        one_step(C, R, K, dt, 'step %d' % k)
        if C.choice('init%d' % k, (0, 0, 1)):
            R.w.init()
            C.eq('velocity after another initialization', R.w.gvel, R.gvel())
