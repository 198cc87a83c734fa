"""Weight and proportional-derivative controllers."""
from pvc.poke import peek
from pvc.run import contract
from c_dyn import make_joint, subframe


def weight_world(C, cfg):
    """Two bodies in any state (and a massless one)."""
    core = C.mod('core')
    w = core.World()
    up = C.unit('up')
    peek(w, 'up')[:] = up
    n = 2
    nu = C.vec('nu', n)
    q = [C.rotstate('Q0'), C.rotstate('Q1')]
    p = [C.vec('p0', 3), C.vec('p1', 3)]
    H = [C.mkhom(C.rot_of(q[i].q), p[i]) for i in (0, 1)]
    S = [C.mat('S%d' % i, 6, 1) for i in (0, 1)]
    Z = C.zeros((6, 1))
    b = [core.Body('a'), core.Body('b'), core.Body('massless')]
    # two branches, so that each body has its own general pose
    for i in (0, 1):
        w.add_link(w.ground, make_joint(C, H[i], S[i], Z, nu[i:i + 1], 1), b[i])
    w.add_link(b[0], make_joint(C, C.eye(4), C.zeros((6, 0)), C.zeros((6, 0)), nu[2:2], 0), b[2])
    m, com = [], []
    for i in (0, 1):
        m.append(C.real('m%d' % i, 0, 100, strict=True, lo_sample=.3))
        com.append(C.vec('com%d' % i, 3, *cfg[i]))
        I = C.diag([C.real('I%d%d' % (i, k), 0, 9, strict=True, lo_sample=.3)
                    for k in range(3)])
        A = C.skew(com[i])
        M = C.inertia('M', m[i], com[i], I)
        b[i].mass = M
    return w, b, q, p, H, S, m, com, nu, up


def weight(default):
    def body(C):
        w, b, q, p, H, S, m, com, nu, up = weight_world(C, [(0, 3), (-3, 0)])
        ct = C.mod('controllers')
        if default:
            c, g = ct.WeightController(), -C.const(981) / 100
        else:
            g = C.real('gravity', -20, 20)
            c = ct.WeightController(gravity=g)
        w.register(c)
        w.init()
        w.update_dynamic()
        f, Z = c.update(C.pos('dt', 1))
        C.eq('no impedance', Z, C.zeros((2, 2)))
        for i in (0, 1):
            R = H[i][0:3, 0:3]
            J = b[i].jacobian
            # velocity of the center of mass, in the ground frame, per unit velocity
            vc = R @ (J[3:6, i] + C.skew(J[0:3, i]) @ com[i])
            C.eq('generalized force', f[i], m[i] * g * (up @ vc))
        # minus the derivative of the potential energy
        ang = [S[i][0:3, 0] * nu[i] for i in (0, 1)]
        lin = [H[i][0:3, 0:3] @ (S[i][3:6, 0] * nu[i]) for i in (0, 1)]

        def energy(Q0, x0, y0, z0, Q1, x1, y1, z1):
            e = 0
            for i, (Q, o) in enumerate(((Q0, (x0, y0, z0)), (Q1, (x1, y1, z1)))):
                e = e - m[i] * g * (up @ (C.arr(list(o)) + Q @ com[i]))
            return e
        d = C.deriv(energy, [q[0]] + list(p[0]) + [q[1]] + list(p[1]),
                    [ang[0]] + list(lin[0]) + [ang[1]] + list(lin[1]))
        C.eq('power of the weight', f @ nu, -d, tol=1e-5)
    return body


contract('C18', 'weight')(weight(False))
contract('C18', 'weight_default')(weight(True))


@contract('C18')
def weight_in_world(C):
    """Through the world's own update, twice, alone and then with a second one."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    b = core.Body()
    m = C.real('m', 0, 9, strict=True, lo_sample=.3)
    I = C.real('I', 0, 9, strict=True, lo_sample=.3)
    b.mass = C.diag([I, I, I, m, m, m])
    C.assume_lt(C.const(1) / 10 ** 9, m)
    w.add_link(w.ground, J.TxTyTzJoint(), b)
    ct = C.mod('controllers')
    g, h = C.real('g', -20, 20), C.real('h', -20, 20)
    w.register(ct.WeightController(g))
    two = C.choice('two', [0, 1])
    if two:
        w.register(ct.WeightController(gravity=h))
    w.init()
    dt = C.pos('dt', 1)
    for i in (0, 1):
        w.update_dynamic()
        w.update_controllers(dt)
        C.eq('weight along the up axis', w.gforce,
             C.arr([0 * m, m * (g + h if two else g), 0 * m]))


# ------------------------------------------------------------------------ C19
def pd_world(C, dofs):
    """Joints of 1 and 2 dof, in any state."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    cls = {1: J.RzJoint, 2: J.RyRxJoint, 3: J.TxTyTzJoint}
    parent = w.ground
    js, q = [], []
    for i, n in enumerate(dofs):
        gp = C.vec('q%d' % i, n)
        j = cls[n](gpos=list(gp), gvel=list(C.vec('v%d' % i, n)))
        b = core.Body()
        w.add_link(parent, j, b)
        parent = b
        js.append(j)
        q.append(gp)
    w.init()
    return w, js, q


def pd(dofs, chosen, given=True):
    def body(C):
        w, js, q = pd_world(C, dofs)
        ct = C.mod('controllers')
        sel = [js[i] for i in chosen]
        n = sum(dofs[i] for i in chosen)
        start = [sum(dofs[:i]) for i in range(len(dofs))]
        idx = [start[i] + k for i in chosen for k in range(dofs[i])]
        kp, kd = C.mat('kp', n, n), C.mat('kd', n, n)
        qd, vd = C.vec('qd', n), C.vec('vd', n)
        kw = dict(kp=kp, kd=kd, gpos_des=qd, gvel_des=vd)
        zero = dict(kp=C.zeros((n, n)), kd=C.zeros((n, n)), gpos_des=C.zeros(n),
                    gvel_des=C.zeros(n))
        if given is not True:
            kw = {k: v for k, v in kw.items() if k in given}
        val = dict(zero, **kw)
        s = C.frame('given', *[kw[k] for k in sorted(kw)])
        c = ct.ProportionalDerivativeController(sel, **kw)
        w.register(c)
        w.init()
        w.update_dynamic()
        dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
        N = w.ndof
        nxt = C.vec('nxt', N)          # next velocity
        for step in (0, 1):
            f, Z = c.update(dt)
            total = f + Z @ nxt
            cur = [q[i][k] for i in chosen for k in range(dofs[i])]
            e = C.arr([val['gpos_des'][k] - (cur[k] + dt * nxt[idx[k]]) for k in range(n)])
            de = C.arr([val['gvel_des'][k] - nxt[idx[k]] for k in range(n)])
            u = val['kp'] @ e + val['kd'] @ de
            for i in range(N):
                C.eq('implicit law', total[i], u[idx.index(i)] if i in idx else 0)
            # only the present state is used
            for i in chosen:
                js[i].gpos[0] = js[i].gpos[0] + 1
                q[i] = q[i].copy()
                q[i][0] = q[i][0] + 1
        C.unchanged('given', s)
    return body


for _d, _c in (((1, 2, 1), (0,)), ((1, 2, 1), (1, 2)), ((1, 2, 1), (2, 0)), ((2, 1, 3), (2, 0)),
               ((1, 1, 1), (0, 1, 2)), ((1, 2), (1, 0))):
    contract('C19', 'pd_%s_of_%s' % (''.join(map(str, _c)), ''.join(map(str, _d))))(pd(_d, _c))
for _g in ((), ('kp',), ('kd',), ('kp', 'gpos_des'), ('kd', 'gvel_des')):
    contract('C19', 'pd_given_%s' % ('_'.join(_g) or 'nothing'))(pd((1, 2), (1,), _g))


@contract('C19')
def pd_in_world(C):
    """The step obtained with the controller satisfies the spring-damper equation."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    b = core.Body()
    m, I = C.pos('m', 9), C.pos('I', 9)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    b.mass = C.diag([I, I, I, m, m, m])
    q, v = C.real('q'), C.real('v')
    j = J.TxJoint(gpos=[q], gvel=[v])
    w.add_link(w.ground, j, b)
    w.init()
    kp, kd = C.real('kp', 0), C.real('kd', 0)
    qd, vd = C.real('qd'), C.real('vd')
    ct = C.mod('controllers')
    w.register(ct.ProportionalDerivativeController(w.getjoints(), kp, kd, [qd], [vd]))
    w.init()
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    V, Q = j.gvel[0], j.gpos[0]
    C.eq('acceleration', m * (V - v) / dt, kp * (qd - Q) + kd * (vd - V), tol=1e-6)
    C.eq('position', Q, q + dt * V)


@contract('C19')
def pd_rejects(C):
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    a, b = core.Body(), core.Body()
    k = C.choice('joint', [0, 1])
    j = [J.FreeJoint(), J.FixedJoint()][k]
    l = J.RzJoint()
    w.add_link(w.ground, j, a)
    w.add_link(a, l, b)
    w.init()
    ct = C.mod('controllers')
    for js in ([j], [l, j], [j, l]):
        C.raises('not a linear joint', ValueError,
                 lambda: ct.ProportionalDerivativeController(js))
