"""Robot models."""
from pvc.poke import peek
from pvc.run import contract
from c_mass import WHY


def solid(C, name, m, com, moments):
    """The mass matrix of a solid (its principal axes along the frame), given as definite:
    it is congruent to a diagonal matrix with a positive diagonal."""
    M = C.inertia(name, m, C.arr(list(com)), C.diag(moments))
    C.certify_pd(M, WHY)
    return M


def box_moments(m, a, b, c):
    """Half extents a, b, c."""
    return [m * (b * b + c * c) / 3, m * (a * a + c * c) / 3, m * (a * a + b * b) / 3]


def sizes(C, name, n, hi=5):
    return [C.real('%s%d' % (name, i), 0, hi, strict=True, lo_sample=.3) for i in range(n)]


def masses(C, n):
    r = sizes(C, 'm', n, 100)
    for m in r:
        C.assume_lt(C.const(1) / 10 ** 9, m)
    return r


def chain(C, w, body):
    """The joints from the ground to a body."""
    return list(body.iter_ancestor_joints())[::-1]


def planar(C, angles, lengths):
    """End of a planar chain along y turning about z."""
    x, y, a = 0, 0, 0
    for q, l in zip(angles, lengths):
        a = a + q
        x, y = x - l * C.sin(a), y + l * C.cos(a)
    return x, y


# ------------------------------------------------------------------------ C38
def simplearm(shapes, name):
    def body(C):
        core, J = C.mod('core'), C.mod('joints')
        w = core.World()
        l, m = sizes(C, 'l', 3), masses(C, 3)
        half = [(x / 20, x / 2, x / 20) for x in l]
        Ms = [solid(C, 'M%d' % i, m[i], [0, l[i] / 2, 0], box_moments(m[i], *half[i]))
              for i in range(3)]
        add = C.mod('robots.simplearm').add_simplearm
        if name is None:
            add(w, lengths=l, masses=m)
        else:
            add(w, name, tuple(l), tuple(m), with_shapes=shapes)
        n = name or ''
        js = w.getjoints()
        C.true('joints', [j.name for j in js] == [n + 'Shoulder', n + 'Elbow', n + 'Wrist'] and
               all([isinstance(j, J.RzJoint) for j in js]))
        bodies = list(w.iterbodies())
        C.true('bodies', [b.name for b in bodies[1:]] == [n + 'Arm', n + 'Forearm', n + 'Hand'])
        C.true('one chain', all([a is b for a, b in zip(chain(C, w, bodies[3]), js)]) and
               [f.frame0.body for f in js] == bodies[0:3] and
               [f.frame1.body for f in js] == bodies[1:4])
        C.eq('degrees of freedom', w.ndof, 3)
        for b, M in zip(bodies[1:], Ms):
            C.eq('mass matrix', b.mass, M)
        for j in js:
            C.eq('at zero', list(j.gpos) + list(j.gvel), [0, 0])
        end = w.getframes()[n + 'EndEffector']
        C.true('end of the hand', end.body is bodies[3])
        w.update_geometric()
        C.eq('stretched', end.pose, C.mkhom(C.eye(3), C.arr([0, sum(l), 0])))
        q = C.vec('q', 3)
        for j, x in zip(js, q):
            j.gpos[:] = x
        w.update_geometric()
        for k, b in enumerate(bodies[1:]):
            x, y = planar(C, q[0:k], l[0:k])
            C.eq('base of a body', b.pose[0:3, 3], [x, y, 0], tol=1e-6)
        x, y = planar(C, q, l)
        C.eq('end effector', end.pose[0:3, 3], [x, y, 0], tol=1e-6)
        a = q[0] + q[1] + q[2]
        C.eq('orientation', end.pose[0:3, 1], [-C.sin(a), C.cos(a), 0], tol=1e-6)
        sh = w.getshapes()
        C.eq('shapes', len(sh), 3 if shapes else 0)
        for s, b, h, x in zip(sh, bodies[1:], half, l):
            C.true('box of a body', s.frame.body is b)
            C.eq('place of the box', s.frame.bpose, C.mkhom(C.eye(3), C.arr([0, x / 2, 0])))
            C.eq('size of the box', list(s.half_extents), list(h))
    return body


contract('C38', 'simplearm')(simplearm(False, None))
contract('C38', 'simplearm_shapes')(simplearm(True, 'left '))


@contract('C38')
def two_arms(C):
    core = C.mod('core')
    w = core.World()
    add = C.mod('robots.simplearm').add_simplearm
    add(w)
    add(w, name='other ')
    C.eq('degrees of freedom', w.ndof, 6)
    names = [x.name for x in list(w.iterjoints()) + list(w.iterframes())]
    C.true('unique names', len(set(names)) == len(names))
    w.update_geometric()
    for n in ('', 'other '):
        C.eq('default reach', w.getframes()[n + 'EndEffector'].pose[0:3, 3],
             [0, C.const(11) / 10, 0])
    C.eq('default masses', [b.mass[5, 5] for b in list(w.iterbodies())[1:]],
         [C.const(x) / 10 for x in (10, 8, 2)] * 2)
    C.raises('not a world', AssertionError, lambda: add(core.Body()))


@contract('C38')
def ready_made(C):
    """core.simplearm: a world of its own holding one default arm."""
    core = C.mod('core')
    a, b = core.simplearm(), core.simplearm()
    w = core.World()
    C.mod('robots.simplearm').add_simplearm(w)
    for x in (a, b):
        C.true('same names', [y.name for y in list(x.iterjoints()) + list(x.iterframes())] ==
               [y.name for y in list(w.iterjoints()) + list(w.iterframes())])
        for y, z in zip(x.iterbodies(), w.iterbodies()):
            C.eq('same masses', y.mass, z.mass)
        x.update_geometric()
        C.eq('default reach', x.getframes()['EndEffector'].pose[0:3, 3],
             [0, C.const(11) / 10, 0])
    C.true('nothing shared', not set(map(id, a.iterframes())) & set(map(id, b.iterframes())))


def snake(n, fixed):
    def body(C):
        core, J = C.mod('core'), C.mod('joints')
        w = core.World()
        l, m = sizes(C, 'l', n), masses(C, n)
        q, v = list(C.vec('q', n)), list(C.vec('v', n))
        Ms = []
        for i in range(n):
            r = l[i] / 5
            a, t = m[i] * r * r / 2, m[i] * (3 * r * r + l[i] * l[i]) / 12
            Ms.append(solid(C, 'M%d' % i, m[i], [0, l[i] / 2, 0], [t, a, t]))
        base = []
        if not fixed:
            h = l[0] / 2
            base = [solid(C, 'B', m[0], [0, 0, 0], box_moments(m[0], h, h, h))]
        C.mod('robots.snake').add_snake(w, n, l, m, q, v, **({} if fixed else dict(is_fixed=False)))
        js, bodies = list(w.iterjoints()), list(w.iterbodies())
        C.eq('degrees of freedom', w.ndof, n + (0 if fixed else 6))
        C.true('number of bodies', len(bodies) == n + 1 + len(base))
        C.true('one chain', [j.frame0.body for j in js] == bodies[:-1] and
               [j.frame1.body for j in js] == bodies[1:])
        if not fixed:
            C.true('free base', isinstance(js[0], J.FreeJoint))
        links = js if fixed else js[1:]
        C.true('joints', all([isinstance(j, J.RzJoint) for j in links]))
        for b, M in zip(bodies[1:], base + Ms):
            C.eq('mass matrix', b.mass, M)
        for j, x, y in zip(links, q, v):
            C.eq('position', j.gpos, [x])
            C.eq('velocity', j.gvel, [y])
        C.eq('velocities of the world', w.gvel, ([] if fixed else [0] * 6) + v)
        end = list(w.itersubframes())[-1]
        C.true('last frame', end.body is bodies[-1])
        w.update_geometric()
        x, y = planar(C, q, l)
        C.eq('end of the snake', end.pose[0:3, 3], [x, y, 0], tol=1e-6)
        for j in links:
            j.gpos[:] = 0
        w.update_geometric()
        C.eq('stretched', end.pose, C.mkhom(C.eye(3), C.arr([0, sum(l), 0])))
    return body


for _n, _f in ((1, True), (2, False), (3, True)):
    contract('C38', 'snake_%d_%s' % (_n, 'fixed' if _f else 'free'),
             bounded='%d links; any lengths, masses, positions and velocities' % _n)(snake(_n, _f))


@contract('C38')
def snake_defaults(C):
    core = C.mod('core')
    add = C.mod('robots.snake').add_snake
    w = core.World()
    add(w, 4)
    bodies = list(w.iterbodies())
    C.true('four links', len(bodies) == 5 and w.ndof == 4)
    C.eq('masses', [b.mass[5, 5] for b in bodies[1:]], [2] * 4)
    C.eq('still', w.gvel, [0] * 4)
    w.update_geometric()
    C.eq('reach', list(w.itersubframes())[-1].pose[0:3, 3], [0, 2, 0])
    for kw in (dict(lengths=[C.one]), dict(masses=[C.one] * 3), dict(gpos=[C.one]),
               dict(gvel=[C.one] * 3)):
        C.raises('wrong number', AssertionError, lambda: add(core.World(), 2, **kw))


def one_shape(kind):
    def body(C):
        core, J, sh, rb = (C.mod('core'), C.mod('joints'), C.mod('shapes'),
                           C.mod('robots.simpleshapes'))
        w = core.World()
        (m,) = masses(C, 1)
        a, b, c = sizes(C, 'a', 3)
        if kind == 'sphere':
            I = [2 * m * a * a / 5] * 3
            M = solid(C, 'M', m, [0, 0, 0], I)
            rb.add_sphere(w, a, m, 'it')
        elif kind == 'box':
            M = solid(C, 'M', m, [0, 0, 0], box_moments(m, a, b, c))
            rb.add_box(w, (a, b, c), m, 'it')
        else:
            t = m * (3 * b * b + a * a) / 12
            M = solid(C, 'M', m, [0, 0, 0], [t, t, m * b * b / 2])
            rb.add_cylinder(w, a, b, m, 'it')
        bodies, js, shapes = list(w.iterbodies()), list(w.iterjoints()), list(w.itershapes())
        C.true('one free body', len(bodies) == 2 and len(js) == 1 and len(shapes) == 1 and
               isinstance(js[0], J.FreeJoint) and w.ndof == 6 and bodies[1].name == 'it')
        C.true('on the ground', js[0].frame0 is w.ground and js[0].frame1 is bodies[1])
        C.eq('mass matrix', bodies[1].mass, M)
        s = shapes[0]
        C.true('shape of the body', s.frame is bodies[1])
        if kind == 'sphere':
            C.true('type', isinstance(s, sh.Sphere))
            C.eq('size', s.radius, a)
        elif kind == 'box':
            C.true('type', isinstance(s, sh.Box))
            C.eq('size', list(s.half_extents), [a, b, c])
        else:
            C.true('type', isinstance(s, sh.Cylinder))
            C.eq('size', [s.length, s.radius], [a, b])
        w.update_geometric()
        C.eq('at the origin', bodies[1].pose, C.eye(4))
    return body


for _k in ('sphere', 'box', 'cylinder'):
    contract('C38', _k)(one_shape(_k))


@contract('C38')
def shape_defaults(C):
    core, rb = C.mod('core'), C.mod('robots.simpleshapes')
    w = core.World()
    up = C.unit('up')
    peek(w, 'up')[:] = up
    rb.add_sphere(w)
    rb.add_box(w)
    rb.add_cylinder(w)
    rb.add_groundplane(w)
    b = list(w.iterbodies())[1:]
    C.true('three bodies', len(b) == 3 and w.ndof == 18 and len(list(w.itershapes())) == 4)
    t, z = C.const(2) / 5, C.const(2) / 3
    C.eq('sphere', b[0].mass, C.diag([t, t, t, 1, 1, 1]))
    C.eq('box', b[1].mass, C.diag([z, z, z, 1, 1, 1]))
    C.eq('cylinder', b[2].mass, C.diag([C.const(1) / 3, C.const(1) / 3, C.one / 2, 1, 1, 1]))
    p = list(w.itershapes())[3]
    C.true('plane of the ground', p.frame is w.ground and isinstance(p, C.mod('shapes').Plane))
    C.eq('horizontal plane', list(p.coeffs), list(up) + [0])
    for f in (rb.add_sphere, rb.add_box, rb.add_cylinder):
        C.raises('not a world', AssertionError, lambda: f(core.Body()))


# ------------------------------------------------------------------------ C39
SEGMENTS = ['LPT', 'UPT', 'Head'] + [x + s for x in (
    'Thigh', 'Shank', 'Foot', 'Scapula', 'Arm', 'Forearm', 'Hand') for s in 'RL']
JOINTS = ['Root', 'Back', 'Neck'] + [x + s for x in (
    'Hip', 'Knee', 'Ankle', 'Torso-Scap', 'Arm-Scap', 'Elbow', 'Wrist') for s in 'RL']
NDOF = dict(Root=6, Back=3, Neck=3, Hip=3, Knee=1, Ankle=2, Elbow=2, Wrist=2)
NDOF['Torso-Scap'], NDOF['Arm-Scap'] = 2, 3


def human(C, w, height, mass, certify=True, **kw):
    """The mass matrices are definite: congruent to mass * diag(radii squared, 1, 1, 1)."""
    mod = C.mod('robots.human36')
    if not C.concrete():
        real_body = mod.Body

        def body(name=None, mass=None, viscosity=None):
            if not C.const(mass[5, 5]).iszero():
                com, I = split(C, mass)
                # recognized as a solid: the inertia about its center is a positive diagonal
                for i in range(3):
                    C.lt('principal moments', 0, I[i, i])
                    for j in range(i):
                        C.eq('principal axes', I[i, j], 0)
                C.lt('mass', 0, mass[5, 5])
                C.certify_pd(mass, WHY)
            return real_body(name, mass, viscosity)

        class Shim(object):
            def __call__(self, *a, **k):
                return body(*a, **k)

            def __instancecheck__(self, x):
                return isinstance(x, real_body)
        mod.Body = _meta(real_body, body)
        try:
            mod.add_human36(w, height, mass, **kw)
        finally:
            mod.Body = real_body
    else:
        mod.add_human36(w, height, mass, **kw)
    w.update_geometric()
    return dict([(b.name, b) for b in w.iterbodies()]), \
        dict([(j.name, j) for j in w.iterjoints()]), \
        dict([(f.name, f) for f in w.itersubframes() if f.name])


def _meta(real, make):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __call__(cls, *a, **k):
            return make(*a, **k)
    return M('Body', (), {})


def split(C, M):
    """Center of mass and inertia about it."""
    m = M[5, 5]
    S = M[0:3, 3:6] / m
    com = C.arr([S[2, 1], S[0, 2], S[1, 0]])
    return com, M[0:3, 0:3] + m * (S @ S)


def human_size(C):
    h = C.real('height', .5, 3)
    m = C.real('mass', 1, 300)
    if not C.concrete():
        C.assume_lt(C.const(1) / 2, h)
        C.assume_lt(1, m)
    return h, m


@contract('C39', budget=200)
def human_masses(C):
    core, mm = C.mod('core'), C.mod('massmatrix')
    h, m = human_size(C)
    w = core.World()
    B, J, F = human(C, w, h, m)
    C.true('segments', sorted(B) == sorted(SEGMENTS + ['ground']))
    C.true('joints', sorted(J) == sorted(JOINTS))
    C.true('degrees of freedom', all([J[k].ndof == NDOF[k if k in NDOF else k[:-1]]
                                      for k in J]) and w.ndof == 42)
    C.true('attached to the ground', J['Root'].frame0.body is w.ground and
           J['Root'].frame1 is B['LPT'])
    C.eq('total mass', sum([B[k].mass[5, 5] for k in SEGMENTS]), m)
    for k in SEGMENTS:
        M = B[k].mass
        if k[:-1] == 'Scapula':
            C.eq('massless', M, C.zeros((6, 6)))
            continue
        com, I = split(C, M)
        C.lt('mass', 0, M[5, 5])
        C.eq('mass matrix of a solid', M, C.inertia('M', M[5, 5], com, I))
        for i in range(3):
            C.lt('moments', 0, I[i, i])
            for j in range(3):
                if i != j:
                    C.eq('principal axes', I[i, j], 0)


@contract('C39', budget=200)
def human_places(C):
    """Standing on its feet, as high as asked for."""
    core = C.mod('core')
    h, m = human_size(C)
    w = core.World()
    B, J, F = human(C, w, h, m)
    C.eq('top of the head', F['Vertex'].pose[1, 3], h)
    for s in ('Right', 'Left'):
        for x in ('toe tip', 'heel', 'phalange 5', 'phalange 1'):
            C.eq('on the ground', F['%s foot %s' % (s, x)].pose[1, 3], 0)
    C.true('contact points', sorted([x.name for x in w.itershapes()]) == sorted(
        ['%s foot %s' % (s, x) for s in ('Right', 'Left')
         for x in ('toe tip', 'heel', 'phalange 5', 'phalange 1')]))
    for x in w.itershapes():
        C.true('on its tag', x.frame is F[x.name])
    hm = C.mod('robots.human36')
    L = hm.anat_lengths_from_height(h)
    C.eq('height from the lengths', hm.height_from_anat_lengths(L), h)
    L2 = dict(L)
    k = C.choice('leg', ('yfootL', 'ytibiaR', 'yfemurL'))
    L2[k] = L2[k] * 2
    C.raises('asymmetric legs', ValueError, lambda: hm.height_from_anat_lengths(L2))


@contract('C39', budget=300)
def human_scaling(C):
    core = C.mod('core')
    h, m = human_size(C)
    s, c = C.real('scale', .5, 2), C.real('ratio', .5, 2)
    if not C.concrete():
        C.assume_lt(C.const(1) / 4, s * h)
        C.assume_lt(0, s)
        C.assume_lt(0, c)
    w1, w2 = core.World(), core.World()
    B, J, F = human(C, w1, h, m)
    G, K, E = human(C, w2, s * h, c * m, prefix="Bob's ")
    pre = "Bob's "
    C.true('names are prefixed', sorted(pre + k for k in list(B) + list(J) + list(F)
                                        if k != 'ground') ==
           sorted(k for k in list(G) + list(K) + list(E) if k != 'ground'))
    C.true('names of the contact points are prefixed', sorted([x.name for x in w2.itershapes()]) ==
           sorted([pre + x.name for x in w1.itershapes()]))
    for k in SEGMENTS:
        M, N = B[k].mass, G[pre + k].mass
        C.eq('masses', N[5, 5], c * M[5, 5])
        if k[:-1] == 'Scapula':
            continue
        x, I = split(C, M)
        y, L = split(C, N)
        C.eq('centers of mass', y, s * x)
        C.eq('moments', L, c * s * s * I)
    half = C.const(127) / 10000     # the sternoclavicular joints are half an inch aside
    for k in J:
        x, y = J[k].frame0.bpose[0:3, 3], K[pre + k].frame0.bpose[0:3, 3]
        C.eq('joints', y[0:2], s * x[0:2])
        z = {'Torso-ScapR': half, 'Torso-ScapL': -half, 'Arm-ScapR': -half,
             'Arm-ScapL': half}.get(k, 0)
        C.eq('joints aside', y[2] - z, s * (x[2] - z))
    for k in B:
        if k[:-1] != 'Scapula' and k != 'ground':
            C.eq('places', G[pre + k].pose[0:3, 3], s * B[k].pose[0:3, 3])
    for k in F:
        if F[k].body.name[:-1] != 'Scapula':
            C.eq('tags', E[pre + k].pose[0:3, 3], s * F[k].pose[0:3, 3])


def mirror(C, x):
    return C.arr([x[0], x[1], -x[2]])


@contract('C39', budget=200)
def human_symmetry(C):
    core = C.mod('core')
    h, m = human_size(C)
    w = core.World()
    B, J, F = human(C, w, h, m)
    for k in SEGMENTS:
        if k.endswith('R'):
            M, N = B[k].mass, B[k[:-1] + 'L'].mass
            C.eq('masses', N[5, 5], M[5, 5])
            if k != 'ScapulaR':
                C.eq('centers of mass', split(C, N)[0], mirror(C, split(C, M)[0]))
                I, L = split(C, M)[1], split(C, N)[1]
                if k == 'HandR':
                    # the reference data of the model (tests/human36.h5) swaps the two
                    # moments across the hands
                    C.eq('inertia along the hand', L[1, 1], I[1, 1])
                    C.eq('inertia of the hands', L[0, 0] + L[2, 2], I[0, 0] + I[2, 2])
                else:
                    S = C.diag([1, 1, -1])
                    C.eq('inertia', L, S @ I @ S)
            C.eq('places', B[k[:-1] + 'L'].pose[0:3, 3], mirror(C, B[k].pose[0:3, 3]))
        elif not k.endswith('L'):
            C.eq('in the middle', B[k].pose[2, 3], 0)
            C.eq('center of mass in the middle', split(C, B[k].mass)[0][2], 0)
    for k in J:
        if k.endswith('R'):
            a, b = J[k], J[k[:-1] + 'L']
            C.true('joints', type(a) is type(b))
            C.eq('joints', b.frame0.bpose[0:3, 3], mirror(C, a.frame0.bpose[0:3, 3]))
            C.eq('frames of the segments', b.frame1.bpose, a.frame1.bpose)
            p, q = a.frame0.body.name, b.frame0.body.name
            C.true('attached to mirrored segments', q == (p[:-1] + 'L' if p.endswith('R') else p))
            p, q = a.frame1.body.name, b.frame1.body.name
            C.true('carrying mirrored segments', q == p[:-1] + 'L' and p.endswith('R'))
    for k in F:
        if k.startswith('Right '):
            C.eq('tags', F['Left ' + k[6:]].pose[0:3, 3], mirror(C, F[k].pose[0:3, 3]))
    C.eq('epicondyle', F['Left femoral lateral epicondyle'].pose[0:3, 3],
         mirror(C, F['Femoral lateral epicondyle'].pose[0:3, 3]))
    for k in ('Vertex', 'Cervicale', 'Substernale (Xyphoid)', 'Suprasternale'):
        C.eq('tags in the middle', F[k].pose[2, 3], 0)


@contract('C39', budget=200)
def human_lengths(C):
    """Lengths given by the user: here a shorter left arm."""
    core = C.mod('core')
    h, m = human_size(C)
    hm = C.mod('robots.human36')
    L = hm.anat_lengths_from_height(h)
    r = C.real('short', .5, 1)
    if not C.concrete():
        C.assume_lt(0, r)
    w1, w2 = core.World(), core.World()
    B, J, F = human(C, w1, h, m)
    names = ('yhumerusL', 'yforearmL', 'yhandL')
    for k in names:
        L[k] = L[k] * r
    given = dict(L)
    G, K, E = human(C, w2, C.one, m, anat_lengths=L)
    C.true('lengths kept', sorted(L) == sorted(given))
    for k in L:
        C.eq('lengths kept', L[k], given[k])
    for k in J:
        s = r if k in ('ElbowL', 'WristL') else 1
        C.eq('joints', K[k].frame0.bpose[0:3, 3], s * J[k].frame0.bpose[0:3, 3])
    C.eq('total mass', sum([G[k].mass[5, 5] for k in SEGMENTS]), m)
    C.eq('end of the hand', E['Left 3rd dactylion'].bpose[1, 3],
         r * F['Left 3rd dactylion'].bpose[1, 3])
    C.eq('arms', E['Right 3rd dactylion'].pose, F['Right 3rd dactylion'].pose)


@contract('C39', budget=300)
def human_swapped(C):
    """Different lengths given for each side, then exchanged: the mirror image of the human."""
    core, hm = C.mod('core'), C.mod('robots.human36')
    h, m = human_size(C)
    r, t = C.real('right', .5, 1.5), C.real('left', .5, 1.5)
    if not C.concrete():
        C.assume_lt(0, r)
        C.assume_lt(0, t)
    made = []
    for x, y in ((r, t), (t, r)):
        L = hm.anat_lengths_from_height(h)
        for k in ('xfoot', 'xheel', 'xshoulder', 'yshoulder', 'zshoulder', 'yhumerus',
                  'yforearm', 'yhand'):
            L[k + 'R'] = x * L[k + 'R']
            L[k + 'L'] = y * L[k + 'L']
        w = core.World()
        made.append(human(C, w, C.one, m, anat_lengths=L))
    (B, J, F), (G, K, E) = made
    S = C.diag([1, 1, -1])
    for k in SEGMENTS:
        o = k if k[-1] not in 'RL' or k in ('LPT', 'UPT') else k[:-1] + 'LR'['RL'.index(k[-1])]
        C.eq('mirrored places', G[o].pose[0:3, 3], mirror(C, B[k].pose[0:3, 3]))
        C.eq('masses', G[o].mass[5, 5], B[k].mass[5, 5])
        if k[:-1] == 'Scapula':
            continue
        (x, I), (y, M) = split(C, B[k].mass), split(C, G[o].mass)
        C.eq('mirrored centers of mass', y, mirror(C, x))
        if k[:-1] != 'Hand':
            C.eq('mirrored inertia', M, S @ I @ S)
        else:
            C.eq('mirrored inertia', M[1, 1], I[1, 1])
    for k in F:
        if k.startswith('Right '):
            for p, q in ((k, 'Left ' + k[6:]), ('Left ' + k[6:], k)):
                C.eq('mirrored tags', E[q].pose[0:3, 3], mirror(C, F[p].pose[0:3, 3]))


# ------------------------------------------------------------------------ C40
TREE = {
    'torso_pitch': ('waist', 'lap_belt_1'), 'torso_roll': ('lap_belt_1', 'lap_belt_2'),
    'torso_yaw': ('lap_belt_2', 'chest'), 'head_pitch': ('chest', 'neck_1'),
    'head_roll': ('neck_1', 'neck_2'), 'head_yaw': ('neck_2', 'head')}
for _s in 'lr':
    for _c in (('chest', [('shoulder_pitch', 'shoulder_1'), ('shoulder_roll', 'shoulder_2'),
                          ('shoulder_yaw', 'arm'), ('elbow_pitch', 'elbow_1'),
                          ('elbow_yaw', 'forearm'), ('wrist_roll', 'wrist_1'),
                          ('wrist_pitch', 'hand')]),
               ('waist', [('hip_pitch', 'hip_1'), ('hip_roll', 'hip_2'), ('hip_yaw', 'thigh'),
                          ('knee', 'shank'), ('ankle_pitch', 'ankle_1'),
                          ('ankle_roll', 'foot')])):
        _p = _c[0]
        for _j, _b in _c[1]:
            TREE['%s_%s' % (_s, _j)] = (_p, '%s_%s' % (_s, _b))
            _p = '%s_%s' % (_s, _b)


def icub(C, w, **kw):
    C.mod('robots.icub').add(w, **kw)
    bodies = dict([(b.name, b) for b in w.iterbodies()])
    if kw.get('is_fixed'):
        bodies['waist'] = w.ground
    return bodies, dict([(j.name, j) for j in w.iterjoints()])


@contract('C40', bounded='the only model; both bases, with and without shapes')
def icub_structure(C):
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    fixed = C.choice('fixed', (False, True))
    kw = C.choice('options', ({}, dict(create_shapes=False), dict(create_contacts=False),
                              dict(create_shapes=False, create_contacts=False)))
    if fixed:
        kw = dict(kw, is_fixed=True)
    B, Js = icub(C, w, **kw)
    C.true('joints', sorted(Js) == sorted(list(TREE) + ([] if fixed else ['root'])))
    C.true('number of elements', len(list(w.iterbodies())) == (33 if fixed else 34) and
           w.ndof == 32 + (0 if fixed else 6))
    if not fixed:
        C.true('free base', isinstance(Js['root'], J.FreeJoint) and
               Js['root'].frame0.body is w.ground and Js['root'].frame1 is B['waist'])
    for k, (p, b) in TREE.items():
        C.true('rotation joints', isinstance(Js[k], J.RzJoint))
        C.true('links', Js[k].frame0.body is B[p] and Js[k].frame1 is B[b])
    C.eq('the ground has no mass', w.ground.mass, C.zeros((6, 6)))
    shapes = list(w.itershapes())
    n = 0 if kw.get('create_shapes') is False else 41
    m = 0 if kw.get('create_contacts') is False else 22
    C.true('shapes', len(shapes) == n + m, '%d' % len(shapes))
    names = [x.name for x in list(w.iterjoints()) + list(w.iterframes()) if x.name is not None]
    C.true('unique names', len(set(names)) == len(names))
    if m:
        c = [s for s in shapes if not s.name.endswith('.body_shape')]
        C.true('contacts', len(set([s.name for s in c])) == m)
        for s in c:
            b = B[s.name[0] + ('_hand' if 'h' in s.name else '_foot')]
            C.true('contacts on hands and feet', s.frame.body is b)


@contract('C40', bounded='the only model')
def icub_masses(C):
    core, mm = C.mod('core'), C.mod('massmatrix')
    w = core.World()
    B, Js = icub(C, w)
    for k in B:
        if k == 'ground':
            continue
        M = B[k].mass
        C.eq('symmetric', M, M.T)
        com, I = split(C, M)
        C.lt('mass', 0, M[5, 5])
        C.eq('mass matrix of a solid', M, C.inertia('M', M[5, 5], com, I), tol=1e-9)
        # principal minors
        for i in (1, 2, 3):
            C.lt('definite', 0, C.det(I[0:i, 0:i]))
        tr = I[0, 0] + I[1, 1] + I[2, 2]
        # triangle inequality of the moments: the second moments are positive too
        P = tr / 2 * C.eye(3) - I
        for i in (1, 2, 3):
            C.le('second moments', -C.const(1) / 10 ** 12, C.det(P[0:i, 0:i]))
    # one solid per shape of the data, about its own center
    data = C.mod('robots.icub').get_bodies_data()
    C.true('bodies', sorted(data) == sorted(k for k in B if k != 'ground'))
    for k in data:
        M = C.zeros((6, 6))
        for dims, m, H in data[k]:
            if len(dims) == 3:
                I = box_moments(m, *dims)
            elif len(dims) == 2:
                l, r = dims
                t = m * (3 * r * r + l * l) / 12
                I = [t, t, m * r * r / 2]
            else:
                I = [2 * m * dims[0] * dims[0] / 5] * 3
            A = C.Ad(C.hinv(H))
            M = M + A.T @ C.diag(I + [m, m, m]) @ A
        C.eq('mass matrix of the data', B[k].mass, M, tol=1e-9)


@contract('C40', bounded='the only model')
def icub_symmetry(C):
    core = C.mod('core')
    w = core.World()
    B, Js = icub(C, w)
    w.update_geometric()

    def dist(j, k):
        p, q = Js[j].frame0.bpose[0:3, 3], Js[k].frame0.bpose[0:3, 3]
        return (p @ p), (q @ q)
    for k in TREE:
        if k.startswith('l_'):
            r = 'r_' + k[2:]
            a, b = dist(k, r)
            C.eq('lengths', b, a, tol=1e-9)
            M, N = B[TREE[k][1]].mass, B[TREE[r][1]].mass
            C.eq('masses', N[5, 5], M[5, 5])
            x, I = split(C, M)
            y, L = split(C, N)
            C.eq('center of mass', y @ y, x @ x, tol=1e-9)
            C.eq('inertia', L[0, 0] + L[1, 1] + L[2, 2], I[0, 0] + I[1, 1] + I[2, 2], tol=1e-9)
    ic = C.mod('robots.icub')
    lims = ic.get_joint_limits()
    deg = ic.get_joint_limits(in_radian=False)
    C.true('limits', sorted(lims) == sorted(TREE) and sorted(ic.get_torque_limits()) ==
           sorted(TREE))
    for k in TREE:
        C.lt('range', lims[k][0], lims[k][1])
        C.eq('degrees', [x * 180 for x in lims[k]], [x * C.pi for x in deg[k]], tol=1e-6)
        if k.startswith('l_'):
            C.eq('symmetric limits', list(lims['r_' + k[2:]]), list(lims[k]))


@contract('C40', bounded='the only model; any joint angles of one leg and of one arm, one at a '
          'time')
def icub_mirror(C):
    """The limbs move as mirror images for the same joint angles."""
    core = C.mod('core')
    w = core.World()
    B, Js = icub(C, w)
    limb = C.choice('limb', ('hip_pitch', 'hip_roll', 'hip_yaw', 'knee', 'ankle_pitch',
                             'ankle_roll', 'shoulder_pitch', 'shoulder_roll', 'shoulder_yaw',
                             'elbow_pitch', 'elbow_yaw', 'wrist_roll'))
    q = C.real('q')
    Js['l_' + limb].gpos[:] = q
    Js['r_' + limb].gpos[:] = q
    w.update_geometric()
    s = mirror_plane(C)
    leg = limb.split('_')[0] in ('hip', 'knee', 'ankle')
    for k in (('hip_1', 'hip_2', 'thigh', 'shank', 'ankle_1', 'foot') if leg else
              ('shoulder_1', 'shoulder_2', 'arm', 'elbow_1', 'forearm', 'wrist_1', 'hand')):
        for kind in ('origin', 'center of mass'):
            P = []
            for side in 'lr':
                b = B['%s_%s' % (side, k)]
                x = C.zeros(3) if kind == 'origin' else split(C, b.mass)[0]
                P.append(b.pose[0:3, 3] + b.pose[0:3, 0:3] @ x)
            C.eq('%s of %s' % (kind, k), P[1], s @ P[0], tol=1e-9)
        I, L = [turned_inertia(C, B['%s_%s' % (side, k)]) for side in 'lr']
        C.eq('inertia of %s' % k, L, s @ I @ s, tol=1e-9)


def turned_inertia(C, b):
    """The inertia of a body about its center of mass, along the axes of the world."""
    m, (x, I) = b.mass[5, 5], split(C, b.mass)
    R = b.pose[0:3, 0:3]
    return R @ I @ R.T


@contract('C40', sym=False, samples=40, bounded='the only model: drawn postures, every joint moved')
def icub_posture(C):
    """For the same joint angles everywhere, the limbs are mirror images in positions, centers
    of mass, inertia, shapes and contact points; so is the momentum of the mirrored motion."""
    core, sh = C.mod('core'), C.mod('shapes')
    w = core.World()
    kw = {}
    if C.choice('fixed', (False, True)):
        kw['is_fixed'] = True
    B, Js = icub(C, w, **kw)
    for k in TREE:
        if k[0:2] != 'r_':
            sagittal = k in ('torso_pitch', 'head_pitch')
            q = C.real('q ' + k, -3, 3)
            Js[k].gpos[:] = q if k[0:2] == 'l_' or sagittal else 0
            if k[0:2] == 'l_':
                Js['r_' + k[2:]].gpos[:] = q
    w.update_geometric()
    s = mirror_plane(C)
    for k in TREE.values():
        k = k[1]
        r = 'r_' + k[2:] if k[0:2] == 'l_' else k
        if k[0:2] == 'r_' or k == 'head' or k == 'neck_1':
            continue
        H, G = B[k].pose, B[r].pose
        C.eq('origin of ' + k, G[0:3, 3], s @ H[0:3, 3], tol=1e-9)
        x, y = split(C, B[k].mass)[0], split(C, B[r].mass)[0]
        C.eq('center of mass of ' + k, G[0:3, 3] + G[0:3, 0:3] @ y,
             s @ (H[0:3, 3] + H[0:3, 0:3] @ x), tol=1e-9)
        C.eq('mass of ' + k, B[r].mass[5, 5], B[k].mass[5, 5])
        C.eq('inertia of ' + k, turned_inertia(C, B[r]), s @ turned_inertia(C, B[k]) @ s,
             tol=1e-9)
    # shapes and contact points: each has a twin of the same kind and size, mirrored
    import numpy as np

    def key(x, S):
        dims = (type(x).__name__,) + tuple(
            [float(y) for a in ('half_extents', 'radius', 'length') if hasattr(x, a)
             for y in np.ravel(getattr(x, a))])
        H = x.frame.pose
        return dims, S @ H[0:3, 3], S @ H[0:3, 2]
    s = np.diag([1., -1, 1])
    for x in w.itershapes():
        side = x.name[0]
        if side not in 'lr' or x.frame.body.name in ('lap_belt_1', 'lap_belt_2'):
            continue
        d, p, a = key(x, s)
        # the numbers of the contact points of a hand or foot are not mirrored: any of them
        name = (('r' if side == 'l' else 'l') + x.name[1:]).rstrip('1234')
        ok = False
        for y in w.itershapes():
            if y.name.rstrip('1234') == name:
                e, q, b = key(y, np.eye(3))
                ok = ok or (d == e and abs(p - q).max() < 1e-9 and
                            (d[0] != 'Cylinder' or abs(abs(a @ b) - 1) < 1e-9))
        C.true('mirrored shape ' + x.name, ok)


def mirror_plane(C):
    return C.diag([1, -1, 1])


@contract('C40', sym=False, samples=2, bounded='the only model')
def icub_shapes(C):
    """The shapes of a body are the solids its mass is made of (and the eyes); contact points
    have frames of their names."""
    core, ic = C.mod('core'), C.mod('robots.icub')
    w = core.World()
    B, Js = icub(C, w)
    w.update_geometric()
    solids = ic.get_bodies_data()

    def dims(x):
        k = type(x).__name__
        if k == 'Box':
            return tuple(x.half_extents)
        return dict(Sphere=lambda: (x.radius,), Point=lambda: (),
                    Cylinder=lambda: (x.length, x.radius))[k]()

    def same(x, d, H):
        return len(d) == len(dims(x)) and \
            all([abs(float(p) - float(q)) < 1e-9 for p, q in zip(dims(x), d)]) and \
            all([abs(float(p) - float(q)) < 1e-9
                 for r, t in zip(x.frame.bpose, H) for p, q in zip(r, t)])
    for k in solids:
        mine = [x for x in w.itershapes() if x.name == k + '.body_shape']
        C.true('shapes on their body', all([x.frame.body is B[k] for x in mine]))
        C.true('as many shapes', len(mine) == len(solids[k]) + (2 if k == 'head' else 0))
        for d, m, H in solids[k]:
            C.true('shape of the solid', any([same(x, d, H) for x in mine]), k)
    eyes = [x for x in w.itershapes() if x.frame.body is B['head'] and
            not same(x, solids['head'][0][0], solids['head'][0][2])]
    C.true('eyes', len(eyes) == 2 and dims(eyes[0]) == dims(eyes[1]))
    S = C.diag([-1, 1, 1])
    C.eq('mirrored eyes', eyes[1].frame.bpose[0:3, 3], S @ eyes[0].frame.bpose[0:3, 3], tol=1e-9)
    frames = w.getframes()
    for k, (b, d, H) in ic.get_contact_data().items():
        mine = [x for x in w.itershapes() if x.name == k]
        C.true('contact', len(mine) == 1 and same(mine[0], d, H) and
               mine[0].frame.body is B[b])
        C.true('frame of the contact', k in [f.name for f in frames] and
               frames[k] is mine[0].frame)
    T = ic.get_torque_limits()
    for k in T:
        C.lt('torque', 0, T[k])
        if k[0:2] == 'l_':
            C.eq('symmetric torques', T['r_' + k[2:]], T[k])
