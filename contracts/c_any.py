"""Worlds of any size: contracts discharged by the loop rule (pvc/loops.py).

The bodies, controllers, joints and constraints are abstract sequences: a first element and a
generic one, each in an arbitrary state.  The number of degrees of freedom is enumerated.
"""
from pvc.poke import poke, peek
from pvc.run import contract
from c_dyn import make_joint, simple_hom, subframe
from c_world import arb_world


def any_bodies(C, w, n, solids=None):
    """Any number of bodies in any state, seen from the world w."""
    core = C.mod('core')

    def make(tag):
        b = core.Body(tag)
        t = tag + '_'
        b.mass = C.mat(t + 'M', 6, 6)
        b.viscosity = C.mat(t + 'B', 6, 6)
        T = C.vec(t + 'T', 6)
        b.update_dynamic(C.hom(t + 'H'), C.mat(t + 'J', 6, n), C.mat(t + 'dJ', 6, n), T)
        return b
    base = C.any_number('bodies', make)
    w.ground.iter_descendant_bodies = base.seq
    return base


def matrices(n):
    def body(C):
        w = arb_world(C, n).w
        bodies = any_bodies(C, w, n)
        w.update_dynamic()
        C.eq('mass', w.mass, bodies.total(lambda b: b.jacobian.T @ b.mass @ b.jacobian))
        C.eq('viscosity', w.viscosity,
             bodies.total(lambda b: b.jacobian.T @ b.viscosity @ b.jacobian))
        C.eq('nonlinear effects', w.nleffects, bodies.total(
            lambda b: b.jacobian.T @ (b.mass @ b.djacobian + b.nleffects @ b.jacobian)))
    return body


for _n in (1, 2):
    contract('C16', 'any_bodies_%d' % _n, loops=True)(matrices(_n))


def replace_list(w, item, seq):
    """The list of the world that holds the item becomes an abstract sequence."""
    ks = [k for k, v in vars(w).items()
          if isinstance(v, list) and any([x is item for x in v])]
    for k in ks:
        vars(w)[k] = seq


# ------------------------------------------------------------------------ C17
def controllers(n):
    def body(C):
        core = C.mod('core')
        r = arb_world(C, n)
        w = r.w
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        log = []

        def make(tag):
            g, Z = C.vec('g_' + tag, n), C.mat('Z_' + tag, n, n)

            class AnyController(core.Controller):
                def init(self, world):
                    pass

                def update(self, dt):
                    log.append((self, dt))
                    return (g, Z)
            c = AnyController()
            c.given = (g, Z)
            return c

        def end(tag):
            C.true('each controller is updated once', [x[0] for x in log] == [
                cs.first if tag == 'first' else cs.x])
            for x in log:
                C.eq('step', x[1], dt)
            del log[:]
        cs = C.any_number('controllers', make, end)
        w.register(cs.first)
        w.init()
        replace_list(w, cs.first, cs.seq())
        w.update_dynamic()
        for step in (0, 1):
            Z = cs.total(lambda c: c.given[1])
            imp = r.M / dt + r.B + r.N - Z
            C.assume_ne(C.det(imp), 0, 'the impedance is invertible')
            w.update_controllers(dt)
            C.eq('generalized force', w.gforce, cs.total(lambda c: c.given[0]))
            C.eq('admittance', imp @ w.admittance, C.eye(n))
        C.eq('mass kept', w.mass, r.M)
        C.eq('velocity kept', w.gvel, r.nu)
    return body


for _n in (1, 2):
    contract('C17', 'any_controllers_%d' % _n, loops=True)(controllers(_n))


# ------------------------------------------------------------------------ C18, C35
def solids(C, w, n, signs=False):
    """Any number of solids (or massless bodies) in any state."""
    core = C.mod('core')
    data = {}

    def make(tag):
        b = core.Body(tag)
        t = tag + '_'
        if C.choice(t + 'massless', [False, True]):
            m, com = C.const(0), C.zeros(3)
        else:
            m = C.real(t + 'm', 0, 100, strict=True, lo_sample=.3)
            C.assume_lt(C.const(1) / 10 ** 9, m)
            com = C.vec(t + 'com', 3, *((-3, 3) if not signs else (0, 3) if tag == 'x' else (-3, 0)))
            b.mass = C.inertia(t + 'M', m, com, C.diag(
                [C.real(t + 'I%d' % k, 0, 9, strict=True, lo_sample=.3) for k in range(3)]))
        H = C.hom(t + 'H')
        b.update_dynamic(H, C.mat(t + 'J', 6, n), C.mat(t + 'dJ', 6, n), C.vec(t + 'T', 6))
        data[b] = (m, com, H)
        return b
    base = C.any_number('bodies', make)
    w.ground.iter_descendant_bodies = base.seq
    base.data = data
    return base


def weight(n):
    def body(C):
        r = arb_world(C, n)
        w = r.w
        up = C.unit('up')
        peek(w, 'up')[:] = up
        bodies = solids(C, w, n, True)
        g = C.real('gravity', -20, 20)
        c = C.mod('controllers').WeightController(gravity=g)
        c.init(w)

        def force(b):
            m, com, H = bodies.data[b]
            R, J = H[0:3, 0:3], b.jacobian
            # velocity of the center of mass, in the ground frame, per unit velocity
            vc = R @ (J[3:6] - C.skew(com) @ J[0:3])
            return m * g * (up @ vc)
        for step in (0, 1):
            f, Z = c.update(C.pos('dt', 1))
            C.eq('no impedance', Z, C.zeros((n, n)))
            C.eq('generalized force', f, bodies.total(force))
    return body


contract('C18', 'any_bodies', loops=True)(weight(1))


def principal(C, data):
    """The contract of massmatrix.principalframe, verified by C12."""
    def principalframe(M):
        for i, (b, (m, com, H)) in enumerate(data.items()):
            if m is not None and all([C.const(M[k] - b.mass[k]).iszero() for k in
                                      [(i, j) for i in range(6) for j in range(6)]]):
                return C.mkhom(C.rot('principal%d' % i), com)
        C.true('principalframe is called on the mass matrix of a solid', False)
    C.use_contract('massmatrix', 'principalframe', principalframe, 'C12')


@contract('C35', 'any_bodies', loops=True)
def energy(C):
    data = {}
    principal(C, data)
    r = arb_world(C, 1)
    w = r.w
    up = C.unit('up')
    peek(w, 'up')[:] = up
    bodies = solids(C, w, 1)
    data.update(bodies.data)
    obs = C.mod('observers').EnergyMonitor()
    t = C.real('t')
    poke(w, 'current_time', t)
    obs.init(w, [t, t + 1])
    for k in (0, 1):
        obs.update(C.one)

    def height(b):
        m, com, H = data[b]
        return m * (up @ (H[0:3, 3] + H[0:3, 0:3] @ com))
    Ec = r.nu @ (w.mass @ r.nu) / 2
    Ep = C.const(981) / 100 * bodies.total(height)
    C.true('one entry per step', len(obs.time) == len(obs.kinetic_energy) ==
           len(obs.potential_energy) == len(obs.mechanichal_energy) == 2)
    for k in (0, 1):
        C.eq('time', obs.time[k], t)
        C.eq('kinetic energy', obs.kinetic_energy[k], Ec)
        C.eq('potential energy', obs.potential_energy[k], Ep)
        C.eq('mechanical energy', obs.mechanichal_energy[k], Ec + Ep)


# ------------------------------------------------------------------------ C36
def com_any(n, jacobians):
    def body(C):
        data = {}
        principal(C, data)
        w = arb_world(C, n).w
        bodies = solids(C, w, n)
        data.update(bodies.data)
        obs = C.mod('observers').CoMObserver(bodies.seq(), jacobians)
        obs.init(w, [0, 1])
        mt = bodies.total(lambda b: data[b][0])
        C.assume_lt(0, mt, 'the total mass is positive')
        for k in (0, 1):
            obs.update(C.one)
        C.eq('position', mt * obs.get_CoMPosition(), bodies.total(
            lambda b: data[b][0] * (data[b][2][0:3, 3] + data[b][2][0:3, 0:3] @ data[b][1])))
        if jacobians:
            C.eq('jacobian', mt * obs.get_CoMJacobian(), bodies.total(
                lambda b: data[b][0] * (data[b][2][0:3, 0:3] @ (
                    b.jacobian[3:6] - C.skew(data[b][1]) @ b.jacobian[0:3]))))

            def rate(b):
                m, com, H = data[b]
                c, R = C.skew(com), H[0:3, 0:3]
                J, dJ = b.jacobian, b.djacobian
                return m * (R @ (C.skew(b.twist[0:3]) @ (J[3:6] - c @ J[0:3]) +
                                 dJ[3:6] - c @ dJ[0:3]))
            C.eq('jacobian derivative', mt * obs.get_CoMdJacobian(), bodies.total(rate))
    return body


contract('C36', 'any_bodies_position', loops=True)(com_any(1, False))
contract('C36', 'any_bodies', loops=True)(com_any(1, True))


# ------------------------------------------------------------------------ C20
@contract('C20', 'any_joints', loops=True)
def joints(C):
    """Each joint of a world of any number of joints is integrated once, with its own slice
    of the new velocities."""
    n = 2
    r = arb_world(C, n, None, [])
    w = r.w
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    g = C.vec('g', n)
    imp = r.M / dt + r.B + r.N
    C.assume_ne(C.det(imp), 0, 'the impedance is invertible')
    w.update_controllers(dt)
    peek(w, 'gforce')[:] = g
    t0 = C.real('t0')
    poke(w, 'current_time', t0)
    log = []
    slices = [slice(0, 1), slice(1, 2), slice(0, 2), slice(1, 1)]

    class AnyJoint(object):
        def __init__(self, tag):
            self.dof = C.choice(tag, slices)
            self.ndof = self.dof.stop - self.dof.start

        def integrate(self, gvel, dt):
            log.append((self, gvel.copy(), dt))

    def end(tag):
        j = js.first if tag == 'first' else js.x
        C.true('each joint is integrated once', [x[0] for x in log] == [j])
        nu = w.gvel
        for x in log:
            C.eq('joint velocity', x[1], nu[j.dof])
            C.eq('joint step', x[2], dt)
        C.eq('implicit equation', imp @ nu, r.M @ r.nu / dt + g)
        del log[:]
    js = C.any_number('joints', AnyJoint, end)
    w.iterjoints = js.seq
    w.ground.iter_descendant_joints = js.seq
    w.integrate(dt)
    C.true('joints integrated', js.ended >= 2)
    C.eq('implicit equation', imp @ w.gvel, r.M @ r.nu / dt + g)
    C.eq('clock', w.current_time, t0 + dt)


# ------------------------------------------------------------------------ C13, C14
def children(dynamic, kinds):
    """Structural induction over the tree: a body with any number of children. Each child
    gets, once, what the contract of the same function on its own subtree asks for."""
    def body(C):
        core = C.mod('core')
        w = core.World()
        parent = w.ground
        ndof = 3
        nu = C.vec('nu', ndof)
        log = []

        def make(tag):
            ks = kinds if tag == 'x' else 'iii'
            c = core.Body(tag)
            H_pr, H_cn = simple_hom(C, tag + '_Hpr', ks[0]), simple_hom(C, tag + '_Hcn', ks[2])
            q, p = C.rotstate(tag + '_Hrn'), C.vec(tag + '_p', 3)
            S, dS = C.mat(tag + '_S', 6, 1), C.mat(tag + '_dS', 6, 1)
            k = len(data)
            j = make_joint(C, C.mkhom(C.rot_of(q.q), p), S, dS, nu[k:k + 1], 1)
            w.add_link(subframe(C, parent, H_pr), j, subframe(C, c, H_cn))

            def geometric(pose):
                log.append((c, pose))

            def dynam(pose, jac, djac, twist):
                log.append((c, pose, jac, djac, twist))
            c.update_geometric, c.update_dynamic = geometric, dynam
            data[tag] = (c, H_pr, H_cn, q, p, S, dS, slice(k, k + 1), j)
            return j
        data = {}
        js = C.any_number('children', make, lambda tag: end(tag))
        # the last degree of freedom belongs to another part of the tree
        other = core.Body()
        w.add_link(other, make_joint(C, C.eye(4), C.zeros((6, 1)), C.zeros((6, 1)),
                                     nu[2:3], 1), core.Body())
        w.add_link(data['x'][0], make_joint(C, C.eye(4), C.zeros((6, 0)), C.zeros((6, 0)),
                                            nu[3:3], 0), other)
        w.init()
        replace_list(parent, js.first, js.seq())
        pose = simple_hom(C, 'Hgp', kinds[1])
        J, dJ = C.mat('J', 6, ndof), C.mat('dJ', 6, ndof)
        T = J @ nu

        def end(tag):
            c, H_pr, H_cn, q, p, S, dS, dof, j = data['first' if tag == 'first' else 'x']
            C.true('the child is updated once', [x[0] for x in log] == [c])
            H_rn = C.mkhom(C.rot_of(q.q), p)
            H_pc = H_pr @ H_rn @ C.hinv(H_cn)
            C.eq('child pose', log[0][1], pose @ H_pc)
            if dynamic and tag != 'dry':
                A = C.Ad(C.hinv(H_pc))
                E, dE = C.zeros((6, ndof)), C.zeros((6, ndof))
                E[:, dof] = C.Ad(H_cn) @ S
                dE[:, dof] = C.Ad(H_cn) @ dS
                Tn = S @ nu[dof]
                v = C.rot_of(q.q) @ Tn[3:6]
                dA = C.deriv(lambda Q, x, y, z: C.Ad(C.hinv(
                    H_pr @ C.mkhom(Q, C.arr([x, y, z])) @ C.hinv(H_cn))),
                    [q, p[0], p[1], p[2]], [Tn[0:3], v[0], v[1], v[2]])
                C.eq('child jacobian', log[0][2], A @ J + E)
                C.eq('child jacobian derivative', log[0][3], dA @ J + A @ dJ + dE)
                C.eq('child twist', log[0][4], (A @ J + E) @ nu)
            del log[:]
        if dynamic:
            parent.update_dynamic(pose, J, dJ, T)
            C.eq('jacobian', parent.jacobian, J)
            C.eq('jacobian derivative', parent.djacobian, dJ)
            C.eq('twist', parent.twist, T)
        else:
            parent.update_geometric(pose)
        C.eq('pose', parent.pose, pose)
        C.true('every child is reached', js.ended >= 3)
    return body


contract('C13', 'any_children_geometric', loops=True)(children(False, 'ggg'))
contract('C13', 'any_children_dynamic', loops=True)(children(True, 'tit'))
contract('C14', 'any_children', loops=True)(children(True, 'gig'))
