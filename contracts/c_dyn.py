"""Kinematics and dynamics of the bodies and of the world."""
from pvc.run import contract


def make_joint(C, H, S, dS, nu, n):
    """Any joint: arbitrary relative pose, jacobian, and jacobian derivative."""
    core = C.mod('core')

    class AnyJoint(core.Joint):
        ndof = n
        pose = property(lambda s: H.copy())
        jacobian = property(lambda s: S.copy())
        djacobian = property(lambda s: dS.copy())

        def integrate(self, gvel, dt):
            raise AssertionError('not to be integrated')
    j = AnyJoint()
    j.gvel = nu
    return j


def subframe(C, body, H):
    return C.mod('core').SubFrame(body, H)


def simple_hom(C, name, kind):
    """general / translation / identity, to bound the size of the terms."""
    if kind == 'g':
        return C.hom(name)
    if kind == 't':
        return C.mkhom(C.eye(3), C.vec(name + '_p', 3))
    return C.eye(4)


def one_link(C, kinds, ndof=2, n=1, start=1):
    """A parent body in any state, a child body behind any joint and any frames.

    The parent also has children before and after, so that the joint's degrees
    of freedom are start..start+n of the world's ndof."""
    core = C.mod('core')
    w = core.World()
    parent = w.ground
    child = core.Body('child')
    H_pr, H_cn = simple_hom(C, 'Hpr', kinds[0]), simple_hom(C, 'Hcn', kinds[2])
    q = C.rotstate('Hrn')
    p = C.vec('p', 3)
    H_rn = C.mkhom(C.rot_of(q.q), p)
    S, dS = C.mat('S', 6, n), C.mat('dS', 6, n)
    nu = C.vec('nu', ndof)

    def other(k, lo):
        if k:
            w.add_link(parent, make_joint(C, C.eye(4), C.zeros((6, k)), C.zeros((6, k)),
                                          nu[lo:lo + k], k), core.Body())
    other(start, 0)
    j = make_joint(C, H_rn, S, dS, nu[start:start + n], n)
    w.add_link(subframe(C, parent, H_pr), j, subframe(C, child, H_cn))
    other(ndof - start - n, start + n)
    w.init()
    return dict(w=w, parent=parent, child=child, H_pr=H_pr, H_cn=H_cn, q=q, p=p, H_rn=H_rn,
                S=S, dS=dS, nu=nu, j=j, n=n, ndof=ndof, start=start)


def pose_link(kinds, **kw):
    def body(C):
        d = one_link(C, kinds, **kw)
        pose = simple_hom(C, 'Hgp', kinds[1])
        ref = pose @ d['H_pr'] @ d['H_rn'] @ C.hinv(d['H_cn'])
        d['parent'].update_geometric(pose)
        C.eq('parent pose', d['parent'].pose, pose)
        C.eq('child pose', d['child'].pose, ref)
        # the frame carried by the child coincides with the end of the joint
        C.eq('new frame', d['j'].frame1.pose, pose @ d['H_pr'] @ d['H_rn'])
        C.eq('reference frame', d['j'].frame0.pose, pose @ d['H_pr'])
        J = C.zeros((6, d['ndof']))
        d['parent'].update_dynamic(pose, J, J.copy(), C.zeros(6))
        C.eq('parent pose (dynamic)', d['parent'].pose, pose)
        C.eq('child pose (dynamic)', d['child'].pose, ref)
    return body


for _k in ('gig', 'igg', 'ggi', 'ggg'):
    contract('C13', 'child_pose_' + _k)(pose_link(_k))
for _n in (0, 2, 3, 6):
    contract('C13', 'child_pose_%d_dof' % _n)(pose_link('tgt', ndof=_n + 1, n=_n))


def real_link(name):
    """The link lemma behind each joint of the library, through any frames."""
    def body(C):
        from c_joints import POSES
        core, J = C.mod('core'), C.mod('joints')
        w = core.World()
        parent, child = w.ground, core.Body('child')
        cls = getattr(J, name)
        H_pr, H_cn = C.hom('Hpr'), C.hom('Hcn')
        if name == 'FreeJoint':
            H_rn = C.hom('Hrn')
            j = cls(gpos=H_rn)
        elif name == 'FixedJoint':
            H_rn, j = C.eye(4), cls()
        else:
            n, pose = POSES[name]
            q = C.vec('q', n)
            H_rn, j = pose(C, q), cls(gpos=q)
        w.add_link(subframe(C, parent, H_pr), j, subframe(C, child, H_cn))
        # a second child, on the body itself
        other = core.Body('other')
        w.add_link(parent, J.FixedJoint(), other)
        w.init()
        pose = C.mkhom(C.eye(3), C.vec('p', 3))
        for i in (0, 1):
            ref = pose @ H_pr @ H_rn @ C.hinv(H_cn)
            parent.update_geometric(pose)
            C.eq('child pose', child.pose, ref)
            C.eq('other pose', other.pose, pose)
            parent.update_dynamic(pose, C.zeros((6, w.ndof)), C.zeros((6, w.ndof)), C.zeros(6))
            C.eq('child pose (dynamic)', child.pose, ref)
            C.eq('other pose (dynamic)', other.pose, pose)
            if name in ('FixedJoint', 'FreeJoint') or i:
                break
            q = C.vec('r', n)       # the joint moves
            j.gpos[:] = q
            H_rn = POSES[name][1](C, q)
    return body


for _k in ('RzRyRx', 'RzRy', 'RzRx', 'RyRx', 'Rz', 'Ry', 'Rx', 'TxTyTz', 'Tx', 'Ty', 'Tz', 'Free',
           'Fixed'):
    contract('C13', 'child_pose_' + _k)(real_link(_k + 'Joint'))


def twist_link(kinds, **kw):
    def body(C):
        """The child moves with the twist it is given: dH/dt = H hat(T)."""
        d = one_link(C, kinds, **kw)
        ndof, n, st = d['ndof'], d['n'], d['start']
        pose = simple_hom(C, 'Hgp', kinds[1])
        J, dJ = C.mat('J', 6, ndof), C.mat('dJ', 6, ndof)
        T = J @ d['nu']
        d['parent'].update_dynamic(pose, J, dJ, T)
        ch = d['child']
        H_pc = d['H_pr'] @ d['H_rn'] @ C.hinv(d['H_cn'])
        Tn = d['S'] @ d['nu'][st:st + n]
        v = C.rot_of(d['q'].q) @ Tn[3:6]

        def along(f):
            """d/dt of f(H_rn) along the joint motion."""
            return C.deriv(lambda Q, x, y, z: f(C.mkhom(Q, C.arr([x, y, z]))),
                           [d['q'], d['p'][0], d['p'][1], d['p'][2]], [Tn[0:3], v[0], v[1], v[2]])
        C.eq('parent twist', d['parent'].twist, T)
        C.eq('parent jacobian', d['parent'].jacobian, J)
        C.eq('parent djacobian', d['parent'].djacobian, dJ)
        # twist of the child relative to the parent, from the definition
        rel = C.hinv(H_pc) @ along(lambda K: d['H_pr'] @ K @ C.hinv(d['H_cn']))
        moved = C.hinv(H_pc) @ C.hat(T) @ H_pc
        C.eq('child twist', C.hat(ch.twist), rel + moved, tol=1e-5)
        C.eq('twist = jacobian . gvel', ch.twist, ch.jacobian @ d['nu'])
        A = C.Ad(C.hinv(H_pc))
        E = C.zeros((6, ndof))
        E[:, st:st + n] = C.Ad(d['H_cn']) @ d['S']
        C.eq('child jacobian', ch.jacobian, A @ J + E)
        dA = along(lambda K: C.Ad(C.hinv(d['H_pr'] @ K @ C.hinv(d['H_cn']))))
        dE = C.zeros((6, ndof))
        dE[:, st:st + n] = C.Ad(d['H_cn']) @ d['dS']
        C.eq('child djacobian', ch.djacobian, dA @ J + A @ dJ + dE, tol=1e-5)
    return body


contract('C14', 'child_any_frames')(twist_link('gig'))
contract('C14', 'child_first_dof')(twist_link('tit', ndof=3, n=1, start=0))
contract('C14', 'child_several_dof')(twist_link('tit', ndof=4, n=2, start=1))
contract('C14', 'child_no_dof')(twist_link('tit', ndof=2, n=0, start=1))


# ----------------------------------------------------- a whole tree, end to end
def tree(C, q, v, frames):
    """ground -Rz- a -Ry- b (and a -Tx- c), with offset frames."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    a, b, c = [core.Body(n) for n in 'abc']
    w.add_link(w.ground, J.RzJoint(gpos=[q[0]], gvel=[v[0]]), subframe(C, a, frames[0]))
    w.add_link(subframe(C, a, frames[1]), J.RyJoint(gpos=[q[1]], gvel=[v[1]]), b)
    w.add_link(a, J.TxJoint(gpos=[q[2]], gvel=[v[2]]), subframe(C, c, frames[2]))
    w.init()
    w.update_dynamic()
    return w, a, b, c


def tree_pose(C, q, F):
    from c_hom import Ry, Rz
    z = C.zeros(3)
    A = C.mkhom(Rz(C, q[0]), z) @ C.hinv(F[0])
    B = A @ F[1] @ C.mkhom(Ry(C, q[1]), z)
    D = A @ C.mkhom(C.eye(3), C.arr([q[2], 0 * q[2], 0 * q[2]])) @ C.hinv(F[2])
    return A, B, D


def _tree_data(C):
    q, v = C.vec('q', 3), C.vec('v', 3)
    from c_hom import Rx
    a = C.real('al')
    F = [C.mkhom(Rx(C, a), C.vec('f0', 3)), C.mkhom(C.eye(3), C.vec('f1', 3)),
         C.mkhom(Rx(C, C.pi / 2), C.vec('f2', 3))]
    return q, v, F


@contract('C13')
def tree_poses(C):
    """Along a tree, geometric and dynamic updates agree with the product of the relative
    poses; a frame's pose is its body's times its own; the ground does not move."""
    q, v, F = _tree_data(C)
    w, a, b, c = tree(C, q, v, F)
    ref = tree_pose(C, q, F)
    for i in (0, 1):
        C.eq('ground', w.ground.pose, C.eye(4))
        for n, x, r in zip('abc', (a, b, c), ref):
            C.eq('pose of ' + n, x.pose, r)
        for f, body, B in zip(w.itersubframes(), (a, a, c), F):
            C.eq('frame', f.pose, body.pose @ B)
        w.update_geometric()


@contract('C13')
def tree_twists(C):
    """Velocities are the time derivatives of the poses."""
    q, v, F = _tree_data(C)
    w, a, b, c = tree(C, q, v, F)
    C.eq('ground', w.ground.twist, C.zeros(6))
    ref = tree_pose(C, q, F)
    for k, x in enumerate((a, b, c)):
        d = C.deriv(lambda *s: tree_pose(C, list(s), F)[k], list(q), list(v))
        C.eq('twist of body %d' % k, C.hat(x.twist), C.hinv(ref[k]) @ d, tol=1e-5)
    for f, body, B in zip(w.itersubframes(), (a, a, c), F):
        C.eq('twist of the frame', C.hat(f.twist), C.hinv(B) @ C.hat(body.twist) @ B)


@contract('C14', budget=200)
def tree_jacobians(C):
    q, v, F = _tree_data(C)
    w, a, b, c = tree(C, q, v, F)
    ref = tree_pose(C, q, F)
    C.eq('ground', w.ground.jacobian, C.zeros((6, 3)))
    C.eq('ground derivative', w.ground.djacobian, C.zeros((6, 3)))
    dof = [j.dof.start for j in w.iterjoints()]
    bodies = [j.frame1.body for j in w.iterjoints()]
    var = {id(a): 0, id(b): 1, id(c): 2}
    for k, x in enumerate((a, b, c)):
        for col, y in zip(dof, bodies):
            r = [0, 0, 0]
            r[var[id(y)]] = 1
            d = C.deriv(lambda *s: tree_pose(C, list(s), F)[k], list(q), r)
            C.eq('jacobian of body %d' % k, C.hat(x.jacobian[:, col]), C.hinv(ref[k]) @ d,
                 tol=1e-5)
        C.eq('twist = jacobian . gvel', x.twist, x.jacobian @ w.gvel)
        d = C.deriv(lambda *s: tree(C, list(s), v, F)[1 + k].jacobian, list(q), list(v))
        C.eq('djacobian of body %d' % k, x.djacobian, d, tol=1e-5)
    for f, body, B in zip(w.itersubframes(), (a, a, c), F):
        C.eq('jacobian of the frame', f.jacobian, C.Ad(C.hinv(B)) @ body.jacobian)
        C.eq('djacobian of the frame', f.djacobian, C.Ad(C.hinv(B)) @ body.djacobian)
