"""Collision geometry."""
import numpy as np
from pvc.run import contract
from c_dyn import subframe


def attached(C, center, tag, body=False):
    """A frame whose origin is there, on a body in any orientation."""
    core = C.mod('core')
    b = core.Body()
    R = C.rot('R' + tag)
    k = C.zeros(3) if body else C.vec('k' + tag, 3, -2, 2)
    H = C.mkhom(R, center - R @ k)
    Z = C.zeros((6, 0))
    b.update_dynamic(H, Z, Z, C.zeros(6))
    return b if body else subframe(C, b, C.mkhom(C.eye(3), k))


def use_zaligned(C):
    """The contract of zaligned: for a unit vector, a rigid displacement without
    translation whose z axis is the vector."""
    made = []

    def zaligned(vec):
        vec = C.arr([vec[i] for i in range(3)])
        # the same vector gives the same displacement
        for R in made:
            if all([bool(R[i, 2] == vec[i]) for i in range(3)]):
                H = C.eye(4)
                H[0:3, 0:3] = R
                return H
        C.eq('zaligned is given a unit vector', vec @ vec, 1)
        H = C.eye(4)
        for i in range(3):
            for j in range(2):
                H[i, j] = C.real('zal%d_%d%d' % (len(made), i, j), -1, 1)
            H[i, 2] = vec[i]
        made.append(H[0:3, 0:3].copy())
        return H
    C.use_contract('homogeneousmatrix', 'zaligned', zaligned, 'C04')
    return made


def rigid(C, name, H, rot):
    """A rotation, either checked or given by the contract of zaligned."""
    C.eq(name + ': last row', H[3, :], [0, 0, 0, 1])
    R = H[0:3, 0:3]
    if any([all(R[i, j] is Q[i, j] or bool(R[i, j] == Q[i, j])
                for i in range(3) for j in range(3)) for Q in rot]):
        C.true(name + ': a rotation', True)
        return
    C.eq(name + ': rigid', R.T @ R, C.eye(3))
    C.eq(name + ': direct', C.det(R), 1)


def contact_frames(C, sdist, H0, H1, n, c0, c1, rot=()):
    """Postconditions common to all the solvers."""
    for name, H, c in (('first', H0, c0), ('second', H1, c1)):
        C.eq(name + ' frame: normal', H[0:3, 2], n)
        rigid(C, name + ' frame', H, rot)
        C.eq(name + ' contact point', H[0:3, 3], c)
    C.eq('same orientation', H0[0:3, 0:3], H1[0:3, 0:3])
    C.eq('gap along the normal', n @ (H1[0:3, 3] - H0[0:3, 3]), sdist)


# ------------------------------------------------------------------------ C26
def spheres(point, body):
    def body_(C):
        sh, co = C.mod('shapes'), C.mod('collisions')
        p0 = C.vec('c', 3, -3, 3)
        L = C.real('L', 0, 5, strict=True, lo_sample=.1)
        n = C.unit('n')
        p1 = p0 + L * n
        r0 = C.real('r0', 0, 3)
        r1 = 0 if point else C.real('r1', 0, 3)
        C.assume_le(0, r0)
        C.assume_le(0, r1)
        s0 = sh.Sphere(attached(C, p0, '0', body), r0)
        f1 = attached(C, p1, '1')
        if point:
            s = (s0, sh.Point(f1))
            d, H0, H1 = co.sphere_point_collision(s)
        else:
            s = (s0, sh.Sphere(f1, r1))
            d, H0, H1 = co.sphere_sphere_collision(s)
        C.eq('distance', d, L - r0 - r1)
        contact_frames(C, d, H0, H1, n, p0 + r0 * n, p1 - r1 * n)
    return body_


contract('C26', 'sphere_sphere')(spheres(False, False))
contract('C26', 'sphere_point')(spheres(True, False))
contract('C26', 'sphere_sphere_body')(spheres(False, True))


@contract('C26')
def swapped(C):
    """The distance does not depend on the order, and the frames exchange their roles."""
    sh, co = C.mod('shapes'), C.mod('collisions')
    p0 = C.vec('c', 3, -3, 3)
    L = C.real('L', 0, 5, strict=True, lo_sample=.1)
    n = C.unit('n')
    r0, r1 = C.real('r0', 0, 3), C.real('r1', 0, 3)
    C.assume_le(0, r0)
    C.assume_le(0, r1)
    a = sh.Sphere(attached(C, p0, '0', True), r0)
    b = sh.Sphere(attached(C, p0 + L * n, '1', True), r1)
    d, H0, H1 = co.sphere_sphere_collision((a, b))
    e, K0, K1 = co.sphere_sphere_collision((b, a))
    C.eq('distance', d, e)
    C.eq('points', H0[0:3, 3], K1[0:3, 3])
    C.eq('points', H1[0:3, 3], K0[0:3, 3])


# ------------------------------------------------------------------------ C27
def box_world(C, point, p=None, body=False):
    rot = use_zaligned(C)
    sh, co, core = C.mod('shapes'), C.mod('collisions'), C.mod('core')
    h = C.vec('h', 3, 0, 2, strict=True)
    if p is None:
        p = C.vec('p', 3, -3, 3)
    r = 0 if point else C.real('r', 0, 2)
    C.assume_le(0, r)
    H = C.hom('H')
    b = core.Body()
    Z = C.zeros((6, 0))
    if body:
        b.update_dynamic(H, Z, Z, C.zeros(6))
        f0 = b
    else:
        k = C.vec('k', 3, -2, 2)
        K = C.mkhom(C.eye(3), k)
        b.update_dynamic(H @ C.hinv(K), Z, Z, C.zeros(6))
        f0 = subframe(C, b, K)
    center = H[0:3, 0:3] @ p + H[0:3, 3]
    f1 = attached(C, center, '1')
    box = sh.Box(f0, h)
    if point:
        d, H0, H1 = co.box_point_collision((box, sh.Point(f1)))
    else:
        d, H0, H1 = co.box_sphere_collision((box, sh.Sphere(f1, r)))
    return h, p, r, H, center, d, H0, H1, rot


def box_outside(point, side):
    """side: for each axis, the side of the box (-1, 1) or 0 within."""
    def body(C):
        sd = C.choice('side', side)
        h = C.vec('h', 3, 0, 2, strict=True)
        p, f = [], []
        for i in range(3):
            if sd[i]:
                p.append(sd[i] * (h[i] + C.real('e%d' % i, 0, 2, strict=True, lo_sample=.01)))
                f.append(sd[i] * h[i])
            else:
                p.append(C.real('p%d' % i, -1, 1))
                C.assume_le(-h[i], p[i])
                C.assume_le(p[i], h[i])
                f.append(p[i])
        p = C.arr(p)
        h, p, r, H, center, d, H0, H1, rot = box_world(C, point, p)
        f = C.arr(f)
        R = H[0:3, 0:3]
        L = C.norm(p - f)
        C.eq('distance', d, L - r)
        # closest point of the box: the clamped coordinates
        C.eq('box point', H0[0:3, 3], R @ f + H[0:3, 3])
        C.eq('normal', H0[0:3, 2] * L, R @ (p - f))
        C.eq('second normal', H1[0:3, 2], H0[0:3, 2])
        C.eq('sphere point', (center - H1[0:3, 3]) * L, r * (R @ (p - f)))
        rigid(C, 'box frame', H0, rot)
        rigid(C, 'sphere frame', H1, rot)
        C.eq('same orientation', H0[0:3, 0:3], H1[0:3, 0:3])
    return body


_faces = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
_edges = [(a, b, 0) for a in (1, -1) for b in (1, -1)] + \
    [(a, 0, b) for a in (1, -1) for b in (1, -1)] + [(0, a, b) for a in (1, -1) for b in (1, -1)]
_corners = [(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1)]
contract('C27', 'faces', budget=300, samples=60)(box_outside(False, _faces))
contract('C27', 'point_faces', budget=300, samples=60)(box_outside(True, _faces))
contract('C27', 'edges', budget=300, samples=60)(box_outside(False, _edges))
contract('C27', 'corners', budget=300, samples=60)(box_outside(False, _corners))


def box_inside(point):
    def body(C):
        p = C.vec('p', 3, -1, 1)
        h = C.vec('h', 3, 0, 2, strict=True)
        for i in range(3):
            C.assume_le(-h[i], p[i])
            C.assume_le(p[i], h[i])
        if not C.sym and sum(bool(h[i] - abs(p[i]) < 1e-9) for i in range(3)) > 1:
            # on an edge of the box: the roundings decide whether the centre is inside
            C.assume(False)
        h, p, r, H, center, d, H0, H1, rot = box_world(C, point, p)
        R = H[0:3, 0:3]
        depth = list(h - p) + list(h + p)
        n = R.T @ H0[0:3, 2]
        f = R.T @ (H0[0:3, 3] - H[0:3, 3])
        k = None
        for i in range(3):
            for s in (1, -1):
                e = C.zeros(3)
                e[i] = C.one * s
                if all([bool(abs(n[j] - e[j]) < C.const(1) / 10 ** 9) for j in range(3)]):
                    k = (i, s)
        C.true('the normal is the one of a face', k is not None)
        if k is None:
            return
        i, s = k
        x = h[i] - s * p[i]
        C.eq('distance', d, -x - r)
        for j in range(6):
            C.le('nearest face', x, depth[j])
        want = p.copy()
        want[i] = s * h[i]
        C.eq('box point', f, want)
        e = C.zeros(3)
        e[i] = C.one * s
        contact_frames(C, d, H0, H1, R @ e, R @ want + H[0:3, 3], center - r * (R @ e),
                       rot)
    return body


contract('C27', 'inside', budget=400, samples=60)(box_inside(False))
contract('C27', 'point_inside', budget=400, samples=60)(box_inside(True))


# ------------------------------------------------------------------------ C28
def plane(point, where):
    def body(C):
        rot = use_zaligned(C)
        sh, co, core = C.mod('shapes'), C.mod('collisions'), C.mod('core')
        n = C.unit('n')
        dd = C.real('d', -3, 3)
        k = C.real('k', 0, 5, strict=True, lo_sample=.1)
        r = 0 if point else C.real('r', 0, 2)
        C.assume_le(0, r)
        Z = C.zeros((6, 0))
        if where == 'ground':
            H = C.eye(4)
            f0 = core.World().ground
            f0.update_dynamic(H, Z, Z, C.zeros(6))
        else:
            H = C.hom('H')
            b = core.Body()
            kk = C.vec('kk', 3, -2, 2)
            K = C.mkhom(C.eye(3), kk)
            b.update_dynamic(H @ C.hinv(K), Z, Z, C.zeros(6))
            f0 = subframe(C, b, K)
        p = C.vec('p', 3, -3, 3)
        R = H[0:3, 0:3]
        center = R @ p + H[0:3, 3]
        f1 = attached(C, center, '1')
        pl = sh.Plane(f0, [k * n[0], k * n[1], k * n[2], k * dd])
        if point:
            d, H0, H1 = co.plane_point_collision((pl, sh.Point(f1)))
        else:
            d, H0, H1 = co.plane_sphere_collision((pl, sh.Sphere(f1, r)))
        height = C.arr(n) @ p - dd
        ng = R @ C.arr(n)
        C.eq('distance', d, height - r)
        contact_frames(C, d, H0, H1, ng, center - height * ng, center - r * ng, rot)
        # the contact point of the plane is on the plane
        C.eq('on the plane', C.arr(n) @ (R.T @ (H0[0:3, 3] - H[0:3, 3])), dd)
    return body


contract('C28', 'plane_sphere')(plane(False, 'frame'))
contract('C28', 'plane_point')(plane(True, 'frame'))
contract('C28', 'ground_sphere')(plane(False, 'ground'))


@contract('C28')
def default_plane(C):
    """The default plane is y = 0."""
    sh, co, core = C.mod('shapes'), C.mod('collisions'), C.mod('core')
    w = core.World()
    Z = C.zeros((6, 0))
    w.ground.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    p = C.vec('p', 3, -3, 3)
    r = C.real('r', 0, 2)
    C.assume_le(0, r)
    d, H0, H1 = co.plane_sphere_collision((sh.Plane(w.ground),
                                           sh.Sphere(attached(C, p, '1'), r)))
    C.eq('distance', d, p[1] - r)
    C.eq('plane point', H0[0:3, 3], [p[0], 0, p[2]])
    C.eq('normal', H0[0:3, 2], [0, 1, 0])


# ------------------------------------------------------------------------ C29
KINDS = ('sphere', 'point', 'plane', 'box', 'cylinder')
SUPPORTED = [('sphere', 'sphere'), ('sphere', 'point'), ('sphere', 'plane'), ('sphere', 'box'),
             ('point', 'plane'), ('point', 'box')]


def make(C, kind, frame, r, up=1):
    sh = C.mod('shapes')
    if kind == 'sphere':
        return sh.Sphere(frame, r)
    if kind == 'point':
        return sh.Point(frame)
    if kind == 'plane':
        return sh.Plane(frame, (0., 0., float(up), 0.))
    if kind == 'box':
        return sh.Box(frame, (1., 1., 1.))
    return sh.Cylinder(frame, 1., 1.)


def supported(a, b):
    return (a, b) in SUPPORTED or (b, a) in SUPPORTED


@contract('C29', bounded='all 25 ordered pairs of shape types, symbolic sizes and distance')
def pairs(C):
    core, co = C.mod('core'), C.mod('collisions')
    ka, kb = C.choice('first', KINDS), C.choice('second', KINDS)
    z = C.real('z', 3, 9)
    C.assume_lt(3, z)
    w = core.World()
    b = core.Body()
    Z = C.zeros((6, 0))
    w.ground.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    b.update_dynamic(C.mkhom(C.eye(3), C.arr([0, 0, z])), Z, Z, C.zeros(6))
    ra, rb = C.real('ra', 0, 1, strict=True), C.real('rb', 0, 1, strict=True)
    A, B = make(C, ka, w.ground, ra, 1), make(C, kb, b, rb, -1)
    if not supported(ka, kb):
        C.raises('unsupported', NotImplementedError, lambda: co.choose_solver(A, B))
        return
    shapes, solver = co.choose_solver(A, B)
    C.true('the same shapes', len(shapes) == 2 and
           (shapes[0] is A and shapes[1] is B or shapes[0] is B and shapes[1] is A))
    d, H0, H1 = solver(shapes)
    size = dict(sphere=(ra, rb), point=(0, 0), plane=(0, 0), box=(1, 1))
    C.eq('distance', d, z - size[ka][0] - size[kb][1])
    top, low = size[ka][0], z - size[kb][1]
    X = dict([(id(shapes[0]), H0), (id(shapes[1]), H1)]) if ka != kb else None
    if X is not None:
        C.eq('contact point of the first', X[id(A)][0:3, 3], [0, 0, top])
        C.eq('contact point of the second', X[id(B)][0:3, 3], [0, 0, low])


@contract('C29')
def refused(C):
    core, co = C.mod('core'), C.mod('collisions')
    b = core.Body()
    s = make(C, 'sphere', b, 1.)
    C.raises('not a shape', AssertionError, lambda: co.choose_solver(s, b))
    C.raises('not a shape', AssertionError, lambda: co.choose_solver(b, s))


def all_contacts(n):
    def body(C):
        core, cs = C.mod('core'), C.mod('constraints')
        J = C.mod('joints')
        w = core.World()
        bodies = [w.ground, core.Body('a'), core.Body('b')]
        tree = C.choice('tree', ('ground', 'chain', 'chain back'))
        kind = {} if n == 3 else dict(zip(('FreeJoint', 'FixedJoint', 'RzJoint'), range(3)))
        joint = [getattr(J, C.choice('joint%d' % i, sorted(kind) or ['RzJoint']))
                 for i in (0, 1)]
        if tree == 'ground':
            w.add_link(w.ground, joint[0](), bodies[1])
            w.add_link(w.ground, joint[1](), bodies[2])
        elif tree == 'chain':
            w.add_link(w.ground, joint[0](), bodies[1])
            w.add_link(bodies[1], joint[1](), bodies[2])
        else:
            w.add_link(w.ground, joint[0](), bodies[2])
            w.add_link(bodies[2], joint[1](), bodies[1])
        shapes, kinds, where = [], [], []
        for i in range(n):
            k = C.choice('kind%d' % i, KINDS)
            p = C.choice('body%d' % i, (0, 1, 2) if n < 3 else (i, (i + 1) % 3))
            f = bodies[p] if i % 2 == 0 else subframe(C, bodies[p], C.eye(4))
            shapes.append(make(C, k, f, C.one))
            kinds.append(k)
            where.append(p)
            w.register(shapes[-1])
        made = []

        class Contact(cs.SoftFingerContact):
            def __init__(self, shapes, **kw):
                cs.SoftFingerContact.__init__(self, shapes, **kw)
                made.append((self, shapes, kw))
        r = cs.get_all_contacts(w, Contact, friction_coeff=C.one, proximity=C.const(2))
        got = sorted(sorted([shapes.index(s[0]), shapes.index(s[1])]) for c, s, kw in made
                     if [x for x in r if x is c])
        want = [[i, j] for i in range(n) for j in range(i + 1, n)
                if where[i] != where[j] and supported(kinds[i], kinds[j])]
        C.true('one contact per pair', got == want, '%s / %s' % (got, want))
        C.true('no other contact', len(r) == len(want))
        for c, s, kw in made:
            C.true('arguments given', kw == dict(friction_coeff=C.one, proximity=C.const(2)))
        C.true('nothing registered', not list(w.iterconstraints()))
    return body


contract('C29', 'contacts_1', bounded='one shape, any type and body')(all_contacts(1))
contract('C29', 'contacts_2', bounded='two shapes, all types and bodies; all trees of three bodies '
         'with free, fixed and hinge joints', paths=12000)(all_contacts(2))
contract('C29', 'contacts_3', bounded='three shapes, all types, two bodies each; all trees of '
         'three bodies with hinges', paths=12000)(all_contacts(3))


@contract('C29')
def default_contact(C):
    core, cs, J = C.mod('core'), C.mod('constraints'), C.mod('joints')
    w = core.World()
    b = core.Body()
    w.add_link(w.ground, J.FreeJoint(), b)
    w.register(make(C, 'plane', w.ground, 1.))
    w.register(make(C, 'sphere', b, 1.))
    r = cs.get_all_contacts(w, friction_coeff=.5)
    C.true('soft finger contacts', len(r) == 1 and type(r[0]) is cs.SoftFingerContact)
    C.raises('not a contact', AssertionError, lambda: cs.get_all_contacts(w, core.Constraint))
