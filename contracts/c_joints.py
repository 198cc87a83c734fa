"""Joints: kinematics and integration."""
from pvc.run import contract
from c_hom import Rx, Ry, Rz, exp_spec, proper


def _h(C, R=None, p=None):
    return C.mkhom(C.eye(3) if R is None else R, C.zeros(3) if p is None else C.arr(p))


# pose of each joint as a function of its generalized position
POSES = {
    'RzRyRxJoint': (3, lambda C, q: _h(C, Rz(C, q[0]) @ Ry(C, q[1]) @ Rx(C, q[2]))),
    'RzRyJoint': (2, lambda C, q: _h(C, Rz(C, q[0]) @ Ry(C, q[1]))),
    'RzRxJoint': (2, lambda C, q: _h(C, Rz(C, q[0]) @ Rx(C, q[1]))),
    'RyRxJoint': (2, lambda C, q: _h(C, Ry(C, q[0]) @ Rx(C, q[1]))),
    'RzJoint': (1, lambda C, q: _h(C, Rz(C, q[0]))),
    'RyJoint': (1, lambda C, q: _h(C, Ry(C, q[0]))),
    'RxJoint': (1, lambda C, q: _h(C, Rx(C, q[0]))),
    'TxTyTzJoint': (3, lambda C, q: _h(C, None, [q[0], q[1], q[2]])),
    'TzJoint': (1, lambda C, q: _h(C, None, [0 * q[0], 0 * q[0], q[0]])),
    'TyJoint': (1, lambda C, q: _h(C, None, [0 * q[0], q[0], 0 * q[0]])),
    'TxJoint': (1, lambda C, q: _h(C, None, [q[0], 0 * q[0], 0 * q[0]])),
}
NAMES = sorted(POSES)


def linear_joint(name):
    def body(C):
        J = C.mod('joints')
        n, pose = POSES[name]
        cls = getattr(J, name)
        q = C.vec('q', n)
        v = C.vec('v', n)
        j = cls(gpos=list(q), gvel=list(v))
        C.eq('ndof', j.ndof, n)
        H = j.pose
        C.eq('pose', H, pose(C, q))
        proper(C, 'orientation', H[0:3, 0:3])
        C.eq('ipose', j.ipose, C.hinv(H))
        S = j.jacobian
        C.eq('jacobian shape', list(S.shape), [6, n])
        z = [0] * n
        for i in range(n):
            d = C.deriv(lambda *a: cls(gpos=list(a)).pose, list(q), z[:i] + [1] + z[i + 1:])
            C.eq('jacobian column', C.hat(S[:, i]), C.hinv(H) @ d, tol=1e-5)
        C.eq('twist', j.twist, S @ v)
        d = C.deriv(lambda *a: cls(gpos=list(a)).pose, list(q), list(v))
        C.eq('twist is the velocity of the pose', C.hat(j.twist), C.hinv(H) @ d, tol=1e-5)
        d = C.deriv(lambda *a: cls(gpos=list(a)).jacobian, list(q), list(v))
        C.eq('djacobian', j.djacobian, d, tol=1e-5)
        C.eq('iadjoint', j.iadjoint, C.Ad(C.hinv(H)))
        d = C.deriv(lambda *a: C.Ad(C.hinv(cls(gpos=list(a)).pose)), list(q), list(v))
        C.eq('idadjoint', j.idadjoint, d, tol=1e-5)
        C.eq('state kept', list(j.gpos) + list(j.gvel), list(q) + list(v))
        C.true('frames', j.frames == (None, None))
        C.raises('dof before the world init', ValueError, lambda: j.dof)
    return body


for _n in NAMES:
    contract('C08', _n)(linear_joint(_n))


def joint_again(name):
    """What a joint tells follows its state, however it changes."""
    def body(C):
        J = C.mod('joints')
        n, pose = POSES[name]
        cls = getattr(J, name)
        q, v = C.vec('q', n), C.vec('v', n)
        j = cls(gpos=list(q), gvel=list(v))

        def check(when, q, v):
            new = cls(gpos=list(q), gvel=list(v))
            C.eq(when + ': state', list(j.gpos) + list(j.gvel), list(q) + list(v))
            C.eq(when + ': pose', j.pose, pose(C, q))
            C.eq(when + ': ipose', j.ipose, C.hinv(pose(C, q)))
            for k in ('jacobian', 'djacobian', 'twist', 'iadjoint', 'idadjoint', 'adjoint',
                      'dadjoint', 'itwist', 'adjacency', 'iadjacency'):
                C.eq('%s: %s' % (when, k), getattr(j, k), getattr(new, k))
        check('first', q, v)
        w, dt = C.vec('w', n), C.pos('dt', 1)
        how = C.choice('how', ('integrate', 'set', 'in place', 'velocity', 'position'))
        if how == 'integrate':
            j.integrate(w, dt)
            check('integrated', q + dt * w, w)
            j.integrate(v, dt)
            check('integrated again', q + dt * w + dt * v, v)
        elif how == 'set':
            j.gpos, j.gvel = C.arr(list(w)), C.arr(list(q))
            check('set', w, q)
            j.gpos, j.gvel = C.arr(list(q)), C.arr(list(v))
            check('set back', q, v)
        elif how == 'in place':
            u = C.arr(list(q))
            j.gpos[:] = w
            j.gvel[:] = u
            check('changed in place', w, u)
        elif how == 'velocity':
            j.gvel[:] = w
            check('velocity changed', q, w)
            j.gvel = C.zeros(n)
            check('stopped', q, C.zeros(n))
        else:
            u = C.arr(list(q))
            u[n - 1] = w[n - 1]
            j.gpos[n - 1] = w[n - 1]
            check('position changed', u, v)
    return body


for _n in NAMES:
    contract('C08', _n + '_again', samples=12)(joint_again(_n))


@contract('C08')
def free_joint_again(C):
    J = C.mod('joints')
    H, v, K, w = C.hom('H'), C.vec('v', 6), C.hom('K'), C.vec('w', 6)
    j = J.FreeJoint(gpos=H, gvel=v)

    def check(when, H, v):
        C.eq(when + ': pose', j.pose, H)
        C.eq(when + ': ipose', j.ipose, C.hinv(H))
        C.eq(when + ': twist', j.twist, v)
        C.eq(when + ': jacobian', j.jacobian, C.eye(6))
        C.eq(when + ': iadjoint', j.iadjoint, C.Ad(C.hinv(H)))
        C.eq(when + ': idadjoint', j.idadjoint, C.ad(-v) @ C.Ad(C.hinv(H)))
    check('first', H, v)
    how = C.choice('how', ('moved', 'shifted', 'in place', 'velocity'))
    if how == 'moved':
        j.gpos, j.gvel = K.copy(), w.copy()
        check('moved', K, w)
        j.gpos = H.copy()
        check('moved back', H, w)
    elif how == 'shifted':
        S = C.mkhom(H[0:3, 0:3], w[0:3])
        j.gpos[0:3, 3] = w[0:3]
        check('shifted', S, v)
    elif how == 'in place':
        j.gpos[:] = K
        j.gvel[:] = w
        check('changed in place', K, w)
    else:
        j.gvel = w
        check('velocity changed', H, w)


@contract('C08')
def free_joint(C):
    J = C.mod('joints')
    H = C.hom('H')
    v = C.vec('v', 6)
    j = J.FreeJoint(gpos=H, gvel=v)
    C.eq('ndof', j.ndof, 6)
    C.eq('pose', j.pose, H)
    C.eq('ipose', j.ipose, C.hinv(H))
    C.eq('jacobian', j.jacobian, C.eye(6))
    C.eq('djacobian', j.djacobian, C.zeros((6, 6)))
    C.eq('twist', j.twist, v)
    C.eq('iadjoint', j.iadjoint, C.Ad(C.hinv(H)))
    C.eq('idadjoint', j.idadjoint, C.ad(-(C.Ad(C.eye(4)) @ v)) @ C.Ad(C.hinv(H)))
    P = j.pose
    P[0, 3] = P[0, 3] + 1
    t = j.twist
    t[0] = t[0] + 1
    C.eq('the pose is a copy', j.gpos, H)
    C.eq('the twist is a copy', j.gvel, v)
    k = J.FreeJoint()
    C.eq('default pose', k.pose, C.eye(4))
    C.eq('default twist', k.twist, C.zeros(6))


@contract('C08')
def fixed_joint(C):
    J = C.mod('joints')
    j = J.FixedJoint()
    C.eq('ndof', j.ndof, 0)
    C.eq('pose', j.pose, C.eye(4))
    C.eq('ipose', j.ipose, C.eye(4))
    C.eq('twist', j.twist, C.zeros(6))
    C.eq('jacobian', list(j.jacobian.shape), [6, 0])
    C.eq('djacobian', list(j.djacobian.shape), [6, 0])
    C.eq('idadjoint', j.idadjoint, C.zeros((6, 6)))
    C.eq('gvel', list(j.gvel.shape), [0])


@contract('C08')
def construction(C):
    """Default state, whole numbers, private copies."""
    J = C.mod('joints')
    name = C.choice('joint', NAMES)
    n = POSES[name][0]
    cls = getattr(J, name)
    j = cls()
    C.eq('default gpos', j.gpos, C.zeros(n))
    C.eq('default gvel', j.gvel, C.zeros(n))
    j = cls(gpos=[1] * n, gvel=[2] * n)
    dq = C.vec('dq', n)
    j.integrate(dq, C.const(1) / 2)
    C.eq('whole numbers', j.gpos, C.arr([1 + x / 2 for x in dq]))
    q, v = C.vec('q', n), C.vec('v', n)
    s = C.frame('args', q, v)
    j = cls(gpos=q, gvel=v, name='joint')
    j.integrate(dq, C.const(1) / 2)
    C.unchanged('arguments are copied', s)
    C.eq('name', j.name, 'joint')


# ------------------------------------------------------------------------ C09
def integrate_linear(name):
    def body(C):
        J = C.mod('joints')
        n, pose = POSES[name]
        q, v, w = C.vec('q', n), C.vec('v', n), C.vec('w', n)
        dt = C.pos('dt', 1)
        j = getattr(J, name)(gpos=list(q), gvel=list(v))
        s = C.frame('gvel', w)
        j.integrate(w, dt)
        C.eq('gpos', j.gpos, q + dt * w)
        C.eq('gvel', j.gvel, w)
        C.unchanged('new gvel not modified', s)
        C.eq('pose', j.pose, pose(C, q + dt * w))
        j.integrate(v, dt)
        C.eq('second step', j.gpos, q + dt * w + dt * v)
    return body


for _n in NAMES:
    contract('C09', 'integrate_' + _n)(integrate_linear(_n))


@contract('C09')
def integrate_free(C):
    """The body moves with the twist during dt; the orientation stays a rotation."""
    J = C.mod('joints')
    H = C.hom('H')
    v, w = C.vec('v', 6), C.vec('w', 6)
    dt = C.pos('dt', 1)
    j = J.FreeJoint(gpos=H, gvel=v)
    t = C.norm(dt * w[0:3])
    C.assume_le(C.const(1) / 1000, t)
    s = C.frame('gvel', w)
    j.integrate(w, dt)
    E = exp_spec(C, dt * w, C.sin(t) / t, (1 - C.cos(t)) / t ** 2, (t - C.sin(t)) / t ** 3)
    C.eq('gpos', j.gpos, H @ E)
    C.eq('gvel', j.gvel, w)
    C.unchanged('new gvel not modified', s)
    R = E[0:3, 0:3]
    proper(C, 'increment', R)
    C.eq('last row', j.gpos[3], C.arr([0, 0, 0, 1]))


@contract('C09')
def integrate_free_slow(C):
    """Same with a rotation below a thousandth of a radian: through the callee's contract."""
    J = C.mod('joints')
    T = C.mod('twistvector')
    H = C.hom('H')
    w = C.vec('w', 6, -.0005, .0005)
    dt = C.pos('dt', 1)
    j = J.FreeJoint(gpos=H)
    C.assume_lt((dt * w[0:3]) @ (dt * w[0:3]), C.const(1) / 10 ** 6)
    j.integrate(w, dt)
    C.eq('gpos', j.gpos, H @ T.exp(dt * w))
    C.eq('gvel', j.gvel, w)
    C.eq('last row', j.gpos[3], C.arr([0, 0, 0, 1]))


@contract('C09')
def integrate_free_translation(C):
    J = C.mod('joints')
    H = C.hom('H')
    v = C.vec('v', 3)
    dt = C.pos('dt', 1)
    j = J.FreeJoint(gpos=H)
    j.integrate(C.arr([0, 0, 0] + list(v)), dt)
    C.eq('orientation', j.gpos[0:3, 0:3], H[0:3, 0:3])
    C.eq('position', j.gpos[0:3, 3], H[0:3, 3] + dt * (H[0:3, 0:3] @ v))


@contract('C09')
def integrate_fixed(C):
    J = C.mod('joints')
    j = J.FixedJoint()
    j.integrate(C.zeros(0), C.pos('dt', 1))
    C.eq('pose', j.pose, C.eye(4))
