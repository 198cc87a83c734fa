"""Building, naming, initializing, simulating and walking a world."""
from pvc.poke import poke, peek
from pvc.run import contract
from c_dyn import make_joint, subframe

SIZES = (0, 1, 2, 3, 6)


def free_joint(C, n, gvel):
    """A joint with n degrees of freedom and the given velocity."""
    return make_joint(C, C.eye(4), C.zeros((6, n)), C.zeros((6, n)), gvel, n)


class Tree(object):
    """The ordered tree that a history of constructions must give."""

    def __init__(self, root):
        self.root = root
        self.kids = {}         # id of a body -> list of (joint, frame0, frame1)
        self.up = {}           # id of a body -> (joint, parent body)
        self.objs = [root]

    def ancestors(self, b):
        r = []
        while id(b) in self.up:
            b = self.up[id(b)][1]
            r.append(b)
        return r

    def allowed(self, f0, f1):
        b = f1.body
        return id(b) not in self.up and b is not f0.body and \
            not [x for x in self.ancestors(f0.body) if x is b]

    def add(self, f0, j, f1):
        self.kids.setdefault(id(f0.body), []).append((j, f0, f1))
        self.up[id(f1.body)] = (j, f0.body)

    def replace(self, old, links):
        for k in list(self.kids):
            for i, (j, f0, f1) in enumerate(self.kids[k]):
                if j is old:
                    del self.up[id(f1.body)]
                    del self.kids[k][i]
                    for f, jj, g in links:
                        self.add(f, jj, g)
                    self.kids[k].insert(i, self.kids[k].pop())
                    return

    def walk(self, b):
        for j, f0, f1 in self.kids.get(id(b), []):
            yield j, f0, f1
            for x in self.walk(f1.body):
                yield x


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def check_tree(C, w, t, bodies, when):
    links = list(t.walk(w.ground))
    C.true(when + ': joints, depth first', same(w.iterjoints(), [l[0] for l in links]))
    C.true(when + ': bodies, depth first',
           same(w.iterbodies(), [w.ground] + [l[2].body for l in links]))
    C.true(when + ': list of the bodies',
           same(w.getbodies(), [w.ground] + [l[2].body for l in links]))
    for j, f0, f1 in links:
        C.true(when + ': frames of the joint', j.frame0 is f0 and j.frame1 is f1 and
               same(j.frames, [f0, f1]))
    for b in bodies:
        j, p = t.up.get(id(b), (None, None))
        C.true(when + ': parent joint', b.parentjoint is j)
        C.true(when + ': children joints',
               same(b.childrenjoints, [l[0] for l in t.kids.get(id(b), [])]))
        C.true(when + ': ancestors', same(b.iter_ancestor_bodies(), t.ancestors(b)))
        C.true(when + ': ancestor joints', same(
            b.iter_ancestor_joints(),
            [t.up[id(x)][0] for x in [b] + t.ancestors(b) if id(x) in t.up]))
        C.true(when + ': descendants',
               same(b.iter_descendant_bodies(), [l[2].body for l in t.walk(b)]))


# ------------------------------------------------------------------------ C30
def new_tree(C, n, sizes=SIZES):
    """A tree of n bodies: any shape, joints with any number of degrees of freedom."""
    core = C.mod('core')
    w = core.World()
    bodies = [w.ground]
    t = Tree(w.ground)
    for i in range(n):
        k = C.choice('ndof%d' % i, sizes)
        p = bodies[C.choice('parent%d' % i, tuple(range(i + 1)))]
        j = free_joint(C, k, C.vec('v%d_' % i, k) if k else C.zeros(0))
        b = core.Body('b%d' % i)
        w.add_link(p, j, b)
        t.add(p, j, b)
        bodies.append(b)
    return w, bodies, t


def check_dofs(C, w, t, vel, when):
    js = [l[0] for l in t.walk(w.ground)]
    n = sum([j.ndof for j in js])
    C.eq(when + ': total', w.ndof, n)
    C.true(when + ': shapes', w.gvel.shape == (n,) and w.gforce.shape == (n,) and
           w.mass.shape == w.viscosity.shape == w.nleffects.shape == (n, n))
    k = 0
    for i, j in enumerate(js):
        C.true(when + ': range of the joint',
               list(range(n))[j.dof] == list(range(k, k + j.ndof)))
        k += j.ndof
        C.eq(when + ': velocity of the joint', j.gvel, vel[id(j)])
        C.eq(when + ': velocity of the world', w.gvel[j.dof], vel[id(j)])


def dofs(n, sizes):
    def body(C):
        w, bodies, t = new_tree(C, n, sizes)
        js = [l[0] for l in t.walk(w.ground)]
        vel = dict([(id(j), j.gvel.copy()) for j in js])
        for j in js:
            C.raises('no range before the initialization', ValueError, lambda: j.dof)
        w.init()
        check_dofs(C, w, t, vel, 'after the initialization')
        # the joints and the world share the velocity
        for i, j in enumerate(js):
            if j.ndof:
                vel[id(j)] = C.vec('n%d_' % i, j.ndof)
                j.gvel[:] = vel[id(j)]
        check_dofs(C, w, t, vel, 'after writing')
        w.init()
        check_dofs(C, w, t, vel, 'after another initialization')
        g = w.gvel
        g[:] = C.one
        check_dofs(C, w, t, vel, 'after writing to the returned velocity')
        # the tree changes: a new branch at the first body, a joint replaced
        core = C.mod('core')
        b = core.Body('new')
        j = free_joint(C, 2, C.vec('w', 2))
        vel[id(j)] = j.gvel.copy()
        w.add_link(bodies[1], j, b)
        t.add(bodies[1], j, b)
        w.init()
        check_dofs(C, w, t, vel, 'after a new link')
        old = js[0]
        j = free_joint(C, 3, C.vec('x', 3))
        vel[id(j)] = j.gvel.copy()
        f0, f1 = old.frames
        w.replace_joint(old, j)
        t.replace(old, [(f0, j, f1)])
        check_dofs(C, w, t, vel, 'after a replacement')
    return body


contract('C30', 'dofs_1', bounded='one joint, 0 to 6 degrees of freedom; any velocities')(
    dofs(1, SIZES))
contract('C30', 'dofs_2', bounded='trees of two joints with 0 to 6 degrees of freedom; any '
         'velocities')(dofs(2, SIZES))
contract('C30', 'dofs_3', bounded='trees of three joints with 0 to 2 degrees of freedom; any '
         'velocities', paths=2000)(dofs(3, (0, 1, 2)))


@contract('C30')
def real_joints(C):
    """Library joints, whose velocities are given at construction or set later."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    v = C.vec('v', 9)
    q = C.vec('q', 2)
    a, b, c, d = [core.Body() for i in range(4)]
    j1 = J.RzJoint(gpos=[q[0]], gvel=[v[0]])
    j2 = J.FreeJoint(gvel=v[1:7])
    j3 = J.FixedJoint()
    j4 = J.RzRyJoint(gpos=q, gvel=v[7:9])
    w.add_link(w.ground, j1, a)
    w.add_link(a, j2, b)
    w.add_link(w.ground, j3, c)
    w.add_link(c, j4, d)
    w.init()
    C.eq('velocity', w.gvel, v)
    for j, lo, hi in ((j1, 0, 1), (j2, 1, 7), (j3, 7, 7), (j4, 7, 9)):
        C.true('range', list(range(9))[j.dof] == list(range(lo, hi)))
        C.eq('velocity of the joint', j.gvel, v[lo:hi])
    C.eq('position kept', j1.gpos, [q[0]])
    C.eq('positions kept', j4.gpos, q)
    C.true('degrees of freedom of the list', list(range(9))[w.getjoints().dof] ==
           list(range(9)))
    # whole vectors may also be given again
    u = C.vec('u', 2)
    j4.gvel[:] = u
    C.eq('shared', w.gvel, list(v[0:7]) + list(u))
    w.update_dynamic()
    C.eq('kept by the update', w.gvel, list(v[0:7]) + list(u))


# ------------------------------------------------------------------------ C31
def some_frame(C, b, label):
    """The body itself or a frame attached to it."""
    return b if C.choice(label, ('body', 'frame')) == 'body' else \
        C.mod('core').SubFrame(b, C.mkhom(C.eye(3), C.arr([1, 2, 3])))


def history(n, ops):
    def body(C):
        core = C.mod('core')
        w = core.World()
        t = Tree(w.ground)
        bodies = [w.ground] + [core.Body('b%d' % i) for i in range(n)]
        frames = []
        for k in range(ops):
            a = bodies[C.choice('on%d' % k, tuple(range(n + 1)))]
            b = bodies[C.choice('new%d' % k, tuple(range(1, n + 1)))]
            f0, f1 = a, b
            if k % 2:
                f0 = subframe(C, a, C.eye(4))
            else:
                f1 = subframe(C, b, C.eye(4))
            j = free_joint(C, 1, C.zeros(1))
            if t.allowed(f0, f1):
                w.add_link(f0, j, f1)
                t.add(f0, j, f1)
                frames += [f for f in (f0, f1) if f is not a and f is not b]
            else:
                C.raises('refused', ValueError, lambda: w.add_link(f0, j, f1))
                C.true('refused joint is unused', j.frame0 is None and j.frame1 is None)
            check_tree(C, w, t, bodies, 'after step')
        C.true('the frames are registered', same(w.itersubframes(), frames))
        C.true('all frames', same(w.iterframes(), list(w.iterbodies()) + frames))
    return body


contract('C31', 'history_3', bounded='three links over three bodies and the ground', paths=4000)(
    history(3, 3))
contract('C31', 'history_2_4', bounded='four links over two bodies and the ground', paths=4000)(
    history(2, 4))


@contract('C31', bounded='two links given at once')
def several_links(C):
    core = C.mod('core')
    w = core.World()
    a, b = core.Body(), core.Body()
    f, g = some_frame(C, a, 'f'), some_frame(C, a, 'g')
    h = some_frame(C, b, 'h')
    j, k = free_joint(C, 1, C.zeros(1)), free_joint(C, 2, C.zeros(2))
    t = Tree(w.ground)
    w.add_link(w.ground, j, f, g, k, h)
    t.add(w.ground, j, f)
    t.add(g, k, h)
    check_tree(C, w, t, [w.ground, a, b], 'after two links')
    C.true('frames', same(w.itersubframes(), [x for x in (f, g, h) if x is not a and x is not b]))


@contract('C31', bounded='all trees of three links, each joint replaced by a joint or a chain of '
          'two', paths=4000)
def replacement(C):
    core = C.mod('core')
    w, bodies, t = new_tree(C, 3, (1,))
    links = list(t.walk(w.ground))
    old, f0, f1 = links[C.choice('which', (0, 1, 2))]
    how = C.choice('how', ('joint', 'frames', 'chain'))
    j = free_joint(C, 2, C.zeros(2))
    if how == 'joint':
        w.replace_joint(old, j)
        new = [(f0, j, f1)]
    elif how == 'frames':
        g0, g1 = subframe(C, f0.body, C.eye(4)), subframe(C, f1.body, C.eye(4))
        w.replace_joint(old, g0, j, g1)
        new = [(g0, j, g1)]
    else:
        m = core.Body('middle')
        bodies = bodies + [m]
        k = free_joint(C, 0, C.zeros(0))
        g = subframe(C, m, C.eye(4))
        w.replace_joint(old, f0, j, m, g, k, f1)
        new = [(f0, j, m), (g, k, f1)]
    t.replace(old, new)
    check_tree(C, w, t, bodies, 'after the replacement')
    C.true('the old joint is free', same(old.frames, [None, None]))
    C.eq('the world is initialized', w.ndof, sum([l[0].ndof for l in t.walk(w.ground)]))
    # it can be used again, elsewhere
    b = core.Body('again')
    w.add_link(bodies[1], old, b)
    t.add(bodies[1], old, b)
    check_tree(C, w, t, bodies + [b], 'after using it again')


@contract('C31', bounded='all trees of three links')
def bad_replacement(C):
    w, bodies, t = new_tree(C, 3, (1,))
    links = list(t.walk(w.ground))
    old, f0, f1 = links[C.choice('which', (0, 1, 2))]
    j = free_joint(C, 2, C.zeros(2))
    C.raises('no joint', RuntimeError, lambda: w.replace_joint(old))
    C.raises('incomplete', RuntimeError, lambda: w.replace_joint(old, f0, j))
    C.raises('a joint out of the world', Exception, lambda: w.replace_joint(j, old))
    C.raises('other bodies', AssertionError, lambda: w.replace_joint(
        old, f1, j, f0))
    for k, x in enumerate([w.ground] + bodies):
        if x is not f0.body and x is not f1.body:
            C.raises('another start', Exception, lambda: w.replace_joint(old, x, j, f1))
            check_tree(C, w, t, bodies, 'unchanged')
            C.raises('another end', Exception, lambda: w.replace_joint(old, f0, j, x))
            check_tree(C, w, t, bodies, 'unchanged')
    check_tree(C, w, t, bodies, 'unchanged')


@contract('C31', bounded='one object of each kind')
def registration(C):
    core, sh, cs = C.mod('core'), C.mod('shapes'), C.mod('constraints')
    w = core.World()
    J = C.mod('joints')
    b = core.Body()
    j = J.FreeJoint()
    w.add_link(w.ground, j, b)
    f, g, h = subframe(C, b, C.eye(4)), core.MovingSubFrame(b), subframe(C, b, C.eye(4))
    s, u = sh.Sphere(h, C.one), sh.Point(b)
    more = [sh.Point(core.SubFrame(x, C.hom('X%d' % i))) for i, x in
            enumerate((b, w.ground, w.ground, b))] + [sh.Point(h)]

    class Ctrl(core.Controller):
        def init(self, world):
            pass

        def update(self, dt):
            return 0, 0
    c, e = Ctrl(), Ctrl()
    k = cs.BallAndSocketConstraint(frames=(f, subframe(C, w.ground, C.eye(4))))
    p = cs.SoftFingerContact((sh.Sphere(b, C.one), sh.Point(w.ground)), friction_coeff=C.one)
    if C.choice('names', ('none', 'all the same')) != 'none':
        for o in [b, f, g, h, s, u, c, e, k, p] + more + [x.frame for x in more]:
            o.name = 'x'
    for i in (0, 1):
        for o in [b, f, g, s, u, c, e, k, p] + more:
            old = list(w.itersubframes())
            w.register(o)
            if o is p and i == 0:       # the frames that come with the contact
                fs = [x for x in w.itersubframes() if not [y for y in old if y is x]]
        sub = list(w.itersubframes())
        C.true('frames once', all([len([x for x in sub if x is o]) == 1
                                    for o in [f, g, h] + [x.frame for x in more]]))
        C.true('moving frames', same(w.itermovingsubframes(),
                                     [x for x in sub if isinstance(x, core.MovingSubFrame)]))
        C.true('shapes once', same(w.itershapes(), [s, u] + more) and
               same(w.getshapes(), [s, u] + more))
        C.true('controllers once', same(w.getcontrollers(), [c, e]))
        C.true('constraints once', same(w.iterconstraints(), [k, p]) and
               same(w.getconstraints(), [k, p]))
        C.true('frames of the contact', all([len([x for x in sub if x is o]) == 1
                                             for o in fs]) and len(fs) == 2)
        C.true('all frames', same(w.getframes(), [w.ground, b] + sub))
    C.raises('a joint is not registered', ValueError, lambda: w.register(j))
    C.raises('an unknown object', ValueError, lambda: w.register(3))


@contract('C31')
def walk_of_any_depth(C):
    """Induction on the tree: the walks from a body are its children, each followed by
    its own walk (which is any sequence), and symmetrically towards the ground."""
    core = C.mod('core')
    below, above, used = {}, [], set()

    class AnyBody(core.Body):
        def iter_descendant_bodies(self):
            used.add('b')
            return iter([x[0] for x in below[id(self)]])

        def iter_descendant_joints(self):
            used.add('b')
            return iter([x[1] for x in below[id(self)]])

        def iter_ancestor_bodies(self):
            used.add('a')
            return iter([x[0] for x in above])

        def iter_ancestor_joints(self):
            used.add('a')
            return iter([x[1] for x in above])

    def link(f0, f1):
        # (the contract of add_link is another contract of this property)
        j = free_joint(C, 1, C.zeros(1))
        w.add_link(f0, j, f1)
        return j
    w = core.World()
    b = core.Body()
    up = AnyBody()
    # the sequences are those of a tree, for the walks that do not rely on each other
    top = [core.Body() for i in range(2)]
    above[:] = [(x, None) for x in top] + [(w.ground, None)]
    chain = [link(w.ground, top[1]), link(top[1], top[0]), link(top[0], up)]
    above[:] = list(zip(top + [w.ground], chain[::-1]))
    j = link(subframe(C, up, C.eye(4)), b)
    want = []
    n = C.choice('children', (0, 1, 2, 3))
    for i in range(n):
        c = AnyBody()
        jc = link(b, c if i % 2 else subframe(C, c, C.eye(4)))
        below[id(c)] = []
        for k in range(C.choice('size%d' % i, (0, 1, 2))):
            d = core.Body()
            below[id(c)].append((d, link(c, d)))
        want += [(c, jc)] + below[id(c)]
    used.clear()
    C.true('descendants', same(b.iter_descendant_bodies(), [x[0] for x in want]))
    C.true('descendant joints', same(b.iter_descendant_joints(), [x[1] for x in want]))
    C.true('ancestors', same(b.iter_ancestor_bodies(), [up] + [x[0] for x in above]))
    C.true('ancestor joints', same(b.iter_ancestor_joints(), [j] + [x[1] for x in above]))
    if 'a' not in used or n and 'b' not in used:
        C.note('a walk does not rely on the one of the next bodies: bounded trees only')


# ------------------------------------------------------------------------ C32
def frame_world(C, moving):
    core = C.mod('core')
    b = core.Body()
    n = 2
    q = C.rotstate('H')
    p = C.vec('p', 3)
    H = C.mkhom(C.rot_of(q.q), p)
    J, dJ, T = C.mat('J', 6, n), C.mat('dJ', 6, n), C.vec('T', 6)
    b.update_dynamic(H, J, dJ, T)
    K = C.hom('K')
    cls = core.MovingSubFrame if moving else core.SubFrame
    return core, b, q, p, H, J, dJ, T, K, cls


def check_frame(C, f, b, K, H, J, dJ, T, when):
    A = C.Ad(C.hinv(K))
    C.eq(when + ': offset', f.bpose, K)
    C.eq(when + ': pose', f.pose, H @ K)
    C.eq(when + ': twist', f.twist, A @ T)
    C.eq(when + ': jacobian', f.jacobian, A @ J)
    C.eq(when + ': jacobian derivative', f.djacobian, A @ dJ)
    C.true(when + ': body', f.body is b)


def offset_frame(moving):
    def body(C):
        core, b, q, p, H, J, dJ, T, K, cls = frame_world(C, moving)
        K0 = K.copy()
        f = C.call(cls, b, K, 'here')
        check_frame(C, f, b, K0, H, J, dJ, T, 'built')
        C.eq('body not moved', b.pose, H)
        C.true('name', f.name == 'here')
        K[:] = C.eye(4)
        f.bpose[0, 3] = C.one
        f.bpose[:] = 0
        f.pose[:] = 0
        f.jacobian[:] = 0
        check_frame(C, f, b, K0, H, J, dJ, T, 'after writing to the arrays')
    return body


contract('C32', 'subframe')(offset_frame(False))
contract('C32', 'movingsubframe')(offset_frame(True))


@contract('C32')
def frame_motion(C):
    """The twist of the frame is the one given by the derivative of its pose."""
    core, b, q, p, H, J, dJ, T, K, cls = frame_world(C, C.choice('moving', (False, True)))
    f = cls(b, K)

    def pose(Q, x, y, z):
        return C.mkhom(Q, C.arr([x, y, z])) @ K
    v = C.rot_of(q.q) @ T[3:6]
    d = C.deriv(pose, [q] + list(p), [T[0:3]] + list(v))
    C.eq('derivative of the pose', d[0:3], (f.pose @ C.hat(f.twist))[0:3], tol=1e-5)


@contract('C32')
def moved_frame(C):
    core, b, q, p, H, J, dJ, T, K, cls = frame_world(C, True)
    f = cls(b)
    g = core.SubFrame(b)
    check_frame(C, f, b, C.eye(4), H, J, dJ, T, 'default')
    check_frame(C, g, b, C.eye(4), H, J, dJ, T, 'default, fixed')
    K0 = K.copy()
    f.bpose = K
    check_frame(C, f, b, K0, H, J, dJ, T, 'moved')
    C.eq('frame', K, K0)
    K[:] = C.eye(4)
    check_frame(C, f, b, K0, H, J, dJ, T, 'independent')

    def assign():
        g.bpose = K0
    C.raises('fixed frames cannot be moved', AttributeError, assign)
    check_frame(C, g, b, C.eye(4), H, J, dJ, T, 'other frame')
    # frames do not share their offset
    h = cls(b)
    check_frame(C, h, b, C.eye(4), H, J, dJ, T, 'new frame')


@contract('C32')
def exact_offset(C):
    """An offset given as integers can be moved to any displacement."""
    core, b, q, p, H, J, dJ, T, K, cls = frame_world(C, True)
    import numpy
    I = [[0, -1, 0, 2], [1, 0, 0, 3], [0, 0, 1, -1], [0, 0, 0, 1]]
    f = cls(b, numpy.array(I))
    check_frame(C, f, b, C.arr(I), H, J, dJ, T, 'integers')
    f.bpose = K
    check_frame(C, f, b, K, H, J, dJ, T, 'moved')


def bad_offsets(C):
    K = C.hom('K')
    s = C.real('s', 2, 9)
    C.assume_lt(C.const(3) / 2, s)
    a = K.copy()
    a[0:3, 0:3] = s * K[0:3, 0:3]
    b = K.copy()
    b[3, C.choice('where', (0, 1, 2))] = s
    c = K.copy()
    c[0:3, 0] = -c[0:3, 0]
    return [('scaled', a), ('last row', b), ('reflection', c), ('shape', K[0:3, :])]


@contract('C32')
def refused_offsets(C):
    core = C.mod('core')
    b = core.Body()
    f = core.MovingSubFrame(b)

    def assign(X):
        f.bpose = X
    for name, X in bad_offsets(C):
        C.raises(name, AssertionError, lambda: core.SubFrame(b, X))
        C.raises(name, AssertionError, lambda: core.MovingSubFrame(b, X))
        C.raises(name, AssertionError, lambda: assign(X))
    C.eq('still at its place', f.bpose, C.eye(4))
    for o in (None, 3, core.SubFrame(b)):
        C.raises('parent', ValueError, lambda: core.SubFrame(o, C.eye(4)))
        C.raises('parent', ValueError, lambda: core.MovingSubFrame(o))


@contract('C32')
def body_frame(C):
    """A body is the frame without offset."""
    core, b, q, p, H, J, dJ, T, K, cls = frame_world(C, False)
    check_frame(C, b, b, C.eye(4), H, J, dJ, T, 'body')


@contract('C32', sym=False)
def not_up_to_date(C):
    core = C.mod('core')
    f = core.SubFrame(core.Body(), C.hom('K'))
    for x in ('pose', 'twist', 'jacobian', 'djacobian'):
        C.raises('not up to date', TypeError, lambda: getattr(f, x))


# ------------------------------------------------------------------------ C33
NAMES = ('a', 'b', '', None, 'foreign')


def named_list(C, n, names=NAMES):
    core = C.mod('core')
    objs = []
    for i in range(n):
        k = C.choice('name%d' % i, names + (('again',) if i else ()))
        objs.append(4.5 if k == 'foreign' else objs[0] if k == 'again' else core.NamedObject(k))
    return core, objs, core.NamedObjectsList(objs)


def is_named(core, o):
    return isinstance(o, core.NamedObject)


def lookup(n, names):
    def body(C):
        core, objs, L = named_list(C, n, names)
        C.true('elements', same(L, objs) and len(L) == n)
        for name in ('a', 'b', '', 'c'):
            want = [o for o in objs if is_named(core, o) and o.name == name]
            C.true('all of a name', same(L.find(name), want))
            if want:
                C.true('first of a name', L[name] is want[0])
            else:
                C.raises('missing name', KeyError, lambda: L[name])
        for i in range(-n, n):
            C.true('index', L[i] is objs[i])
        C.raises('index out of range', IndexError, lambda: L[n])
        for s in (slice(0, 2), slice(1, None), slice(None, None, -1), slice(-1, None), slice(0, 0)):
            C.true('slice', same(L[s], objs[s]))
        names_ = [o.name for o in objs if is_named(core, o) and o.name is not None]
        if len(set(names_)) == len(names_):
            d = L.as_dict()
            C.true('dictionary', sorted(d) == sorted(names_) and
                   all([d[o.name] is o for o in objs if is_named(core, o) and
                        o.name is not None]))
        else:
            C.raises('duplicates', core.DuplicateNameError, L.as_dict)
        C.true('unchanged', same(L, objs))
        o = core.NamedObject('c')
        L.append(o)
        C.true('appended', L['c'] is o and L[n] is o and same(L.find('c'), [o]))
        C.true('the given list is unchanged', len(objs) == n)
    return body


contract('C33', 'lookup_2', bounded='lists of two: named, unnamed and foreign objects')(
    lookup(2, NAMES))
contract('C33', 'lookup_3', bounded='lists of three: named, unnamed and foreign objects, or the '
         'first one again')(lookup(3, NAMES))
contract('C33', 'lookup_4', bounded='lists of four: named, unnamed and foreign objects, or the '
         'first one again', paths=1000)(lookup(4, ('a', 'b', None, 'foreign')))


@contract('C33')
def empty_list(C):
    core = C.mod('core')
    for L in (core.NamedObjectsList(), core.NamedObjectsList([]), core.NamedObjectsList(iter(()))):
        C.true('empty', len(L) == 0 and L.find('a') == [] and L.as_dict() == {})
        C.raises('missing', KeyError, lambda: L['a'])
    a, b = core.NamedObjectsList(), core.NamedObjectsList()
    a.append(core.NamedObject('x'))
    C.true('not shared', len(b) == 0)
    C.true('from an iterator', core.NamedObjectsList(iter([4, 5])) == [4, 5])


def naming(n, names):
    def body(C):
        core = C.mod('core')
        objs = [core.NamedObject(C.choice('name%d' % i, names)) for i in range(n)]
        old = [o.name for o in objs]
        given = iter(objs) if C.choice('given as', ('list', 'iterator')) == 'iterator' else objs
        known = [x for x in old if x is not None]
        dup = len(set(known)) != len(known)
        check = C.choice('check', (False, True))
        if check and dup:
            C.raises('duplicates', core.DuplicateNameError,
                     lambda: core.name_all_elements(given, True))
            return
        if check:
            core.name_all_elements(given, check_unicity=True)
        else:
            core.name_all_elements(given)
        new = [o.name for o in objs]
        C.true('names are kept', all([x is None or x == y for x, y in zip(old, new)]))
        C.true('everything is named', all([isinstance(x, str) for x in new]))
        made = [y for x, y in zip(old, new) if x is None]
        C.true('unique names', len(set(made)) == len(made) and not set(made) & set(known))
        core.name_all_elements(objs, not dup)
        C.true('stable', [o.name for o in objs] == new)
    return body


contract('C33', 'naming_3', bounded='three objects, named or not')(naming(3, ('a', 'b', '', None)))
contract('C33', 'naming_0', bounded='no object')(naming(0, ()))


@contract('C33', sym=False, samples=1, bounded='thirty thousand unnamed objects; run-time evaluation')
def naming_many(C):
    core = C.mod('core')
    n = 30000
    objs = [core.NamedObject('n%d' % i if i % 10 == 0 else None) for i in range(n)]
    core.name_all_elements(objs, True)
    C.true('unique names', len(set([o.name for o in objs])) == n)
    C.true('names are kept', all([objs[i].name == 'n%d' % i for i in range(0, n, 10)]))
    L = core.NamedObjectsList(objs)
    C.true('found', all([L[objs[i].name] is objs[i] for i in range(0, n, 5000)]))


@contract('C33', bounded='three joints with 0 to 2 degrees of freedom')
def world_naming(C):
    """Every joint, frame, shape, constraint and controller of a world gets a name."""
    core, sh, cs, ct = C.mod('core'), C.mod('shapes'), C.mod('constraints'), C.mod('controllers')
    J = C.mod('joints')
    w = core.World()
    b = core.Body(C.choice('body', (None, 'B')))
    j = J.FreeJoint(name=C.choice('joint', (None, 'J')))
    w.add_link(w.ground, j, b)
    f = core.SubFrame(b, name=C.choice('frame', (None, 'F')))
    s = sh.Sphere(f, C.one, name=C.choice('shape', (None, 'S')))
    k = cs.BallAndSocketConstraint(frames=(f, core.SubFrame(w.ground)))
    c = ct.WeightController()
    for o in (s, k, c):
        w.register(o)
    w.init()
    old = [o.name for o in (j, b, f, s, k, c)]
    w.name_all_elements(C.choice('check', (False, True)))
    for o, n in zip((j, b, f, s, k, c), old):
        C.true('named', isinstance(o.name, str) and (n is None or o.name == n))
    C.true('the ground keeps its name', w.ground.name == 'ground')
    C.true('found', w.getjoints()[j.name] is j and w.getframes()[f.name] is f and
           w.getbodies()[b.name] is b and w.getshapes()[s.name] is s)
    b.name = 'ground'
    C.raises('duplicates', core.DuplicateNameError, lambda: w.name_all_elements(True))


@contract('C30', bounded='all ordered sublists of three joints with 0 to 2 degrees of freedom',
          paths=2000)
@contract('C33', bounded='all ordered sublists of three joints with 0 to 2 degrees of freedom',
          paths=2000)
def joints_list(C):
    core = C.mod('core')
    w = core.World()
    js = []
    n = 0
    want = {}
    for i in range(3):
        k = C.choice('ndof%d' % i, (0, 1, 2))
        j = free_joint(C, k, C.zeros(k))
        w.add_link(w.ground, j, core.Body())
        want[i] = list(range(n, n + k))
        n += k
        js.append(j)
    w.init()
    idx = C.choice('sublist', ((), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (2, 1), (1, 0),
                               (0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 1)))
    L = core.JointsList([js[i] for i in idx])
    C.true('elements', same(L, [js[i] for i in idx]))
    dof = L.dof
    got = list(range(n))[dof] if isinstance(dof, slice) else [int(x) for x in dof]
    C.true('degrees of freedom', got == sum([want[i] for i in idx], []),
           '%s / %s' % (dof, [want[i] for i in idx]))
    v = C.vec('v', n) if n else C.zeros(0)
    C.eq('selection', v[dof], [v[k] for i in idx for k in want[i]])
    C.true('the list of the world', same(w.getjoints(), js))


# ------------------------------------------------------------------------ C34
def observed(C, log):
    core = C.mod('core')

    class Obs(core.Observer):
        def init(self, world, timeline):
            log.append(('obs.init', self, world, timeline))

        def update(self, dt):
            log.append(('obs.update', self, dt))

        def finish(self):
            log.append(('obs.finish', self))
    return Obs('any')                  # a name tells nothing apart


def logged_world(C, log, t0):
    core = C.mod('core')

    class LoggedWorld(core.World):
        def init(self):
            log.append(('init', self.current_time))

        def update_dynamic(self):
            log.append(('dynamic', self.current_time))

        def update_controllers(self, dt):
            log.append(('controllers', dt))

        def update_constraints(self, dt):
            log.append(('constraints', dt))

        def integrate(self, dt):
            log.append(('integrate', dt))
            poke(self, 'current_time', self.current_time + dt)
    w = LoggedWorld()
    poke(w, 'current_time', t0)
    return w


def simulation(n, k):
    def body(C):
        core = C.mod('core')
        log = []
        w = logged_world(C, log, C.real('start'))
        t = C.vec('t', n)
        for i in range(n - 1):
            C.assume_lt(t[i], t[i + 1])
        obs = [observed(C, log) for i in range(k)]
        kind = C.choice('given as', ('list', 'dict', 'tuple', 'array'))
        given = dict([('o%d' % (9 - i), o) for i, o in enumerate(obs)]) if kind == 'dict' else \
            tuple(obs) if kind == 'tuple' else obs
        times = t if kind == 'array' else list(t)
        core.simulate(w, times, given)
        want = [('init', t[0])] + [('obs.init', o, w, times) for o in obs]
        for i in range(n - 1):
            dt = t[i + 1] - t[i]
            want += [('dynamic', t[i]), ('controllers', dt), ('constraints', dt)] + \
                [('obs.update', o, dt) for o in obs] + [('integrate', dt)]
        want += [('obs.finish', o) for o in obs]
        C.true('stages', [x[0] for x in log] == [x[0] for x in want],
               '%s' % [x[0] for x in log])
        for x, y in zip(log, want):
            if x[0].startswith('obs'):
                C.true('observer', x[1] is y[1])
            if x[0] == 'obs.init':
                C.true('world given to the observers', x[2] is w)
                C.eq('instants given to the observers', x[3], times)
            elif x[0] == 'obs.update':
                C.eq('step given to the observers', x[2], y[2])
            elif not x[0].startswith('obs'):
                C.eq('%s: time or step' % x[0], x[1], y[1])
        C.eq('clock at the end', w.current_time, t[n - 1])
    return body


for _n, _k in ((1, 1), (2, 0), (3, 1), (4, 2)):
    contract('C34', 'simulation_%d_%d' % (_n, _k), bounded='%d instants, %d observers; any times' % (
        _n, _k))(simulation(_n, _k))


class OtherForm(Exception):
    pass


@contract('C34')
def any_number_of_steps(C):
    """Loop invariant: before each step the clock is at the last instant given. The
    timeline has any length: the loop is cut after one step from an arbitrary state."""
    core = C.mod('core')
    log = []
    w = logged_world(C, log, C.real('start'))
    t0, now, nxt = C.real('t0'), C.real('now'), C.real('next')
    C.assume_lt(t0, now)
    C.assume_lt(now, nxt)
    obs = [observed(C, log) for i in range(2)]
    marks = []

    class Timeline(object):
        """(t0, ..., now, next, ...)"""
        def __getitem__(self, i):
            if not isinstance(i, slice) and i == 0:
                return t0
            if isinstance(i, slice) and (i.start, i.stop, i.step) in ((1, None, None),
                                                                     (1, None, 1)):
                return self.steps()
            raise OtherForm()

        def __len__(self):
            raise OtherForm()

        def __iter__(self):
            # pairs of instants, say: the step would not start at the clock of this state
            yield t0
            raise OtherForm()

        def steps(self):
            # the invariant holds on entry ...
            marks.append((len(log), w.current_time))
            # ... after any number of steps ...
            poke(w, 'current_time', now)
            yield nxt
            if len(log) == marks[0][0]:     # all the instants taken before the first step
                raise OtherForm()
            # ... and is kept by the next one
            marks.append((len(log), w.current_time))
            poke(w, 'current_time', nxt)
    tl = Timeline()
    try:
        core.simulate(w, tl, obs)
    except OtherForm:
        C.note('simulate does not iterate on the timeline: only the bounded contracts apply')
        C.true('another form', True)
        return
    C.true('one loop', len(marks) == 2)
    C.eq('the clock is at the first instant on entry', marks[0][1], t0)
    C.eq('the clock is at the last instant given after a step', marks[1][1], nxt)
    dt = nxt - now
    first, step, end = log[:marks[0][0]], log[marks[0][0]:marks[1][0]], log[marks[1][0]:]
    C.true('initialization', [x[0] for x in first] == ['init', 'obs.init', 'obs.init'] and
           first[1][1] is obs[0] and first[2][1] is obs[1] and first[1][2] is w and
           first[1][3] is tl)
    C.eq('clock at the initialization', first[0][1], t0)
    C.true('stages of a step', [x[0] for x in step] == [
        'dynamic', 'controllers', 'constraints', 'obs.update', 'obs.update', 'integrate'])
    for i, k in enumerate((now, dt, dt, None, None, dt)):
        if k is not None:
            C.eq('time or step', step[i][1], k)
        else:
            C.true('observer', step[i][1] is obs[i - 3])
            C.eq('step of the observer', step[i][2], dt)
    C.true('end', [x[0] for x in end] == ['obs.finish', 'obs.finish'] and
           end[0][1] is obs[0] and end[1][1] is obs[1])


@contract('C34', bounded='three instants, any times')
def moving_world(C):
    """A real world: what the observers see at each step."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    b = core.Body()
    m = C.real('m', 0, 9, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    b.mass = C.diag([m] * 6)
    q, v, g = C.real('q'), C.real('v'), C.real('g')
    j = J.TyJoint(gpos=[q], gvel=[v])
    w.add_link(w.ground, j, b)
    w.register(C.mod('controllers').WeightController(g))
    t = C.vec('t', 3)
    C.assume_lt(t[0], t[1])
    C.assume_lt(t[1], t[2])
    seen = []

    class Obs(core.Observer):
        def init(self, world, timeline):
            seen.append(('init', world.current_time, world.ndof))

        def update(self, dt):
            seen.append((w.current_time, dt, j.gpos.copy(), w.gvel, b.pose.copy(), w.gforce))

        def finish(self):
            seen.append(('finish', w.current_time))
    core.simulate(w, list(t), [Obs()])
    C.true('calls', len(seen) == 4 and seen[0][0] == 'init' and seen[3][0] == 'finish' and
           seen[0][2] == 1)
    C.eq('initialized at the first instant', seen[0][1], t[0])
    C.eq('finished at the last instant', seen[3][1], t[2])
    x, y = q, v
    for i in (0, 1):
        dt = t[i + 1] - t[i]
        now, d, gpos, gvel, pose, force = seen[i + 1]
        C.eq('time', now, t[i])
        C.eq('step', d, dt)
        C.eq('position', gpos, [x])
        C.eq('velocity', gvel, [y])
        C.eq('pose', pose[0:3, 3], [0, x, 0])
        C.eq('weight', force, [m * g])
        y = y + dt * g
        x = x + dt * y
    C.eq('final position', j.gpos, [x])
    C.eq('final velocity', w.gvel, [y])


# ------------------------------------------------------------------------ C41
class Visitor(object):
    def __init__(self):
        self.log = []

    def init_parse(self, ground, up, time):
        self.log.append(('start', ground, up, time))

    def register(self, obj):
        self.log.append(('register', obj))

    def add_link(self, f0, j, f1):
        self.log.append(('link', f0, j, f1))


def visit(n, extra):
    def body(C):
        core, sh, cs, ct = (C.mod('core'), C.mod('shapes'), C.mod('constraints'),
                            C.mod('controllers'))
        w, bodies, t = new_tree(C, n, (1,))
        up, time = C.unit('up'), C.real('time')
        peek(w, 'up')[:] = up
        poke(w, 'current_time', time)
        things = []
        for i in range(extra):
            b = bodies[C.choice('where%d' % i, tuple(range(n + 1)))]
            kind = C.choice('what%d' % i, ('frame', 'moving', 'shape', 'shape on frame',
                                           'two shapes on frame'))
            f = core.MovingSubFrame(b) if kind == 'moving' else core.SubFrame(b)
            if kind == 'shape':
                o = [sh.Point(b)]
            elif kind == 'shape on frame':
                o = [sh.Sphere(f, C.one)]
            elif kind == 'two shapes on frame':
                o = [sh.Sphere(f, C.one), sh.Point(f)]
            else:
                o = [f]
            for x in o:
                w.register(x)
            things += [x for x in [f] + o if x is not f] + ([] if kind == 'shape' else [f])
        k = cs.BallAndSocketConstraint(frames=(core.SubFrame(w.ground), core.SubFrame(bodies[1])))
        c, d = ct.WeightController(), ct.WeightController()
        for x in (k, c, d):
            w.register(x)
            things.append(x)
        if C.choice('enabled', (1, 0)) == 0:
            k.disable()
        if C.choice('names', ('none', 'all the same')) != 'none':
            for x in things + bodies + [l[0] for l in t.walk(w.ground)]:
                x.name = 'x'
        v = Visitor()
        w.parse(v)
        log = v.log
        C.true('start', log[0][0] == 'start' and log[0][1] is w.ground and
               len([x for x in log if x[0] == 'start']) == 1)
        C.eq('up', log[0][2], up)
        C.eq('time', log[0][3], time)
        reg = [x[1] for x in log if x[0] == 'register']
        links = [x[1:] for x in log if x[0] == 'link']
        want = list(t.walk(w.ground))
        C.true('joints, depth first', len(links) == len(want) and
               all([same(x, (y[1], y[0], y[2])) for x, y in zip(links, want)]))
        everything = list(w.iterbodies()) + list(w.itersubframes()) + things
        for o in everything:
            C.true('visited once', len([x for x in reg if x is o]) == 1, repr(o))
        C.true('nothing else', len(reg) == len(set([id(o) for o in everything])))
        C.true('bodies, depth first', same([x for x in reg if isinstance(x, core.Body)],
                                           w.iterbodies()))

        def at(o):
            return [i for i, x in enumerate(log) if x[0] == 'register' and x[1] is o][0]

        def link_at(j):
            return [i for i, x in enumerate(log) if x[0] == 'link' and x[2] is j][0]
        for j, f0, f1 in want:
            C.true('a body after its joint', link_at(j) < at(f1.body))
            C.true('a joint after the body it is attached to', at(f0.body) < link_at(j))
        for f in w.itersubframes():
            C.true('a frame after its body', at(f.body) < at(f))
        C.true('shapes of the world', same(w.itershapes(), [
            x for x in things if isinstance(x, core.Shape)]))
        for s in w.itershapes():
            C.true('a shape after its frame', at(s.frame) < at(s))
        last = max([at(b) for b in w.iterbodies()] + [link_at(l[0]) for l in want])
        C.true('constraints and controllers at the end', min(at(k), at(c), at(d)) > last)
    return body


contract('C41', 'visit_2_2', bounded='trees of two links with two frames or shapes anywhere',
         paths=3000)(visit(2, 2))
contract('C41', 'visit_3_1', bounded='trees of three links with one frame or shape anywhere',
         paths=3000)(visit(3, 1))
