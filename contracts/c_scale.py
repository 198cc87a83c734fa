"""Hundreds of bodies: a deep chain, wide stars at its root and in its middle, many steps,
many observers, many names.  Run-time evaluation against closed forms."""
import os
import shutil
import tempfile
import numpy as np
from pvc.run import contract
from c_build import Tree, Visitor, check_tree, same
import gen

KW = dict(sym=False, samples=1, budget=60, rt=1e-6,
          bounded='one tree of 262 bodies (80 deep, 110 wide); run-time evaluation')
KINDS = ('Rz', 'Tx', 'Ry', 'Rx', 'Ty')


class Big(object):
    def __init__(self, C, chain=80, wide=110, bush=71):
        core, J = C.mod('core'), C.mod('joints')
        self.core, self.C = core, C
        w = self.w = core.World()
        self.t = Tree(w.ground)
        self.bodies, self.up, self.joints, self.kinds = [], [], [], []
        rng = np.random.RandomState(5)

        def add(p):
            i = len(self.bodies)
            k = KINDS[i % len(KINDS)]
            f = w.ground if p is None else self.bodies[p]
            m = rng.uniform(.2, 2, 4)
            b = core.Body('body%d' % i, mass=np.diag([m[0], m[1], m[2], m[3], m[3], m[3]]))
            j = getattr(J, k + 'Joint')(gpos=rng.uniform(-.3, .3), gvel=rng.uniform(-1, 1),
                                        name='joint%d' % i)
            w.add_link(f, j, b)
            self.t.add(f, j, b)
            self.bodies.append(b)
            self.up.append(p)
            self.joints.append(j)
            self.kinds.append(k)
            return i
        top = last = add(None)
        for i in range(wide - 1):
            add(None)
        for i in range(chain):
            last = add(last)
            if i == chain // 2:
                mid = last
        for i in range(bush):
            add(mid)
        self.top, self.mid, self.last = top, mid, last
        w.init()
        order = [j for j, f, g in self.t.walk(w.ground)]
        at = dict((id(j), i) for i, j in enumerate(order))
        self.dof = [at[id(j)] for j in self.joints]

    def compute(self):
        """Poses, jacobians, twists, from the root."""
        n = len(self.bodies)
        self.H, self.J, self.V = [], [], []
        for i in range(n):
            p, d = self.up[i], self.dof[i]
            (H, S), = gen.unit_screws(self.kinds[i], self.joints[i].gpos)
            A = gen.Ad(gen.hinv(H))
            self.H.append(H if p is None else self.H[p] @ H)
            J = np.zeros((6, n)) if p is None else A @ self.J[p]
            J[:, d:d + 1] += S
            self.J.append(J)
            S = S @ self.joints[i].gvel
            self.V.append(S if p is None else A @ self.V[p] + S)


@contract('C13', **KW)
def big_poses(C):
    B = Big(C)
    B.compute()
    for how in ('geometric', 'dynamic'):
        getattr(B.w, 'update_' + how)()
        for i, b in enumerate(B.bodies):
            C.eq(how + ': pose', b.pose, B.H[i])
    for i, b in enumerate(B.bodies):
        C.eq('twist', b.twist, B.V[i])


@contract('C14', **KW)
def big_jacobians(C):
    B = Big(C)
    B.compute()
    B.w.update_dynamic()
    nu = B.w.gvel
    for i, b in enumerate(B.bodies):
        C.eq('jacobian', b.jacobian, B.J[i])
        C.eq('twist', b.jacobian @ nu, b.twist)


@contract('C16', **KW)
def big_matrices(C):
    B = Big(C)
    B.compute()
    B.w.update_dynamic()
    C.eq('mass', B.w.mass, sum(J.T @ b.mass @ J for J, b in zip(B.J, B.bodies)))
    C.eq('viscosity', B.w.viscosity, np.zeros((len(B.bodies),) * 2))
    h = sum(J.T @ (b.mass @ (b.djacobian @ B.w.gvel) - gen.ad(V).T @ b.mass @ V)
            for J, V, b in zip(B.J, B.V, B.bodies))
    C.eq('nonlinear effects', B.w.nleffects @ B.w.gvel, h)


@contract('C18', **KW)
def big_weight(C):
    B = Big(C)
    B.compute()
    c = C.mod('controllers').WeightController()
    B.w.register(c)
    B.w.init()
    B.w.update_dynamic()
    f, Z = c.update(.01)
    C.eq('force', f, sum(
        J[3:6].T @ (H[0:3, 0:3].T @ [0, -9.81 * b.mass[5, 5], 0])
        for H, J, b in zip(B.H, B.J, B.bodies)))


@contract('C30', **KW)
def big_dofs(C):
    B = Big(C)
    for i, j in enumerate(B.joints):
        C.true('degree of freedom', (j.dof.start, j.dof.stop) == (B.dof[i], B.dof[i] + 1))
        C.eq('velocity', B.w.gvel[B.dof[i]], j.gvel[0])
    C.true('number', B.w.ndof == len(B.joints))
    C.true('all of them', list(range(B.w.ndof))[B.w.getjoints().dof] == list(range(B.w.ndof)))


@contract('C31', **KW)
def big_tree(C):
    B = Big(C)
    w = B.w
    check_tree(C, w, B.t, [w.ground] + B.bodies[::7] + [B.bodies[B.last]], 'as built')
    bs = list(B.bodies)
    for f0, f1 in ((bs[B.last], bs[B.top]), (bs[B.last], bs[B.mid]), (bs[B.last], w.ground),
                   (bs[-1], w.ground), (bs[B.mid], bs[B.last])):
        j = C.mod('joints').RzJoint()
        C.raises('loop or second parent', ValueError, lambda: w.add_link(f0, j, f1))
        C.true('the joint stays free', j.frame0 is None and j.frame1 is None)
    check_tree(C, w, B.t, [w.ground, bs[B.last], bs[B.mid], bs[B.top]], 'after refusals')
    old = bs[B.mid].childrenjoints[3]
    new = C.mod('joints').RxJoint()
    B.t.replace(old, [(old.frame0, new, old.frame1)])
    w.replace_joint(old, new)
    check_tree(C, w, B.t, [w.ground, bs[B.last], bs[B.mid], bs[B.top]], 'after a replacement')


@contract('C31', sym=False, samples=1, bounded='chains of 3, 50 and 150 bodies; run-time evaluation')
def long_loop(C):
    """A loop is refused however long it is."""
    core, J = C.mod('core'), C.mod('joints')
    n = C.choice('n', (3, 50, 150))
    w = core.World()
    bs = [core.Body() for i in range(n)]
    for a, b in zip(bs, bs[1:]):
        w.add_link(a, J.RzJoint(), b)
    C.raises('loop', ValueError, lambda: w.add_link(bs[-1], J.RzJoint(), bs[0]))
    C.true('unchanged', bs[0].parentjoint is None and bs[-1].childrenjoints == [])
    w.add_link(w.ground, J.RzJoint(), bs[0])
    C.true('all the bodies', same(w.iterbodies(), [w.ground] + bs))


@contract('C35', **KW)
def big_energy(C):
    B = Big(C)
    B.compute()
    obs = C.mod('observers').EnergyMonitor()
    C.mod('core').simulate(B.w, [0., .001], [obs])
    V, H, bs = B.V, B.H, B.bodies
    C.eq('kinetic', obs.kinetic_energy[0], sum(v @ b.mass @ v for v, b in zip(V, bs)) / 2)
    C.eq('potential', obs.potential_energy[0], sum(9.81 * b.mass[5, 5] * h[1, 3]
                                                   for h, b in zip(H, bs)))


@contract('C36', **KW)
def big_com(C):
    B = Big(C)
    B.compute()
    obs = C.mod('observers').CoMObserver(B.bodies)
    obs.init(B.w)
    B.w.update_dynamic()
    obs.update(.1)
    m = [b.mass[5, 5] for b in B.bodies]
    C.eq('position', obs.get_CoMPosition(), sum(x * h[0:3, 3] for x, h in zip(m, B.H)) / sum(m))
    J = obs.get_CoMJacobian()
    C.eq('jacobian', J, sum(x * h[0:3, 0:3] @ j[3:6] for x, h, j in zip(m, B.H, B.J)) / sum(m))


@contract('C37', **KW)
def big_record(C):
    import pickle
    ob = C.mod('observers')
    B = Big(C, 30, 40, 10)
    B.compute()
    recs = [ob.RecordFramePose(b) for b in B.bodies] + [ob.RecordJointGpos(j) for j in B.joints]
    d = tempfile.mkdtemp(prefix='pvc-log')
    try:
        f = os.path.join(d, 'log')
        C.mod('core').simulate(B.w, [0., 1e-9, 2e-9], recs + [
            ob.PickleLogger(f, save_state=True, save_model=True, flat=True)])
        with open(f, 'rb') as h:
            got = pickle.load(h)
    finally:
        shutil.rmtree(d)
    n = len(B.bodies)
    for i, b in enumerate(B.bodies):
        C.true('one entry per step', len(recs[i].get_record()) == 2)
        C.eq('pose', recs[i].get_record()[0], B.H[i])
        C.eq('written pose', got['transforms'][b.name][0], B.H[i])
        C.eq('written position', got['gpositions'][B.joints[i].name][0],
             recs[n + i].get_record()[0])
    C.true('names', sorted(got['transforms']) == sorted([b.name for b in B.bodies] + ['ground']) and
           sorted(got['gpositions']) == sorted(j.name for j in B.joints))


@contract('C41', **KW)
def big_walk(C):
    B = Big(C)
    v = Visitor()
    B.w.parse(v)
    links = [x[2] for x in v.log if x[0] == 'link']
    C.true('joints, depth first', same(links, [j for j, f, g in B.t.walk(B.w.ground)]))
    seen = [x[1] for x in v.log if x[0] == 'register']
    C.true('bodies', same(seen, [B.w.ground] + [g for j, f, g in B.t.walk(B.w.ground)]))


@contract('C33', sym=False, samples=1, bounded='600 objects; run-time evaluation')
def many_names(C):
    core = C.mod('core')
    objs = [core.NamedObject(None if i % 3 == 0 else 'n%d' % (i % 400)) for i in range(600)]
    L = core.NamedObjectsList(objs)
    for k in range(400):
        want = [o for i, o in enumerate(objs) if i % 3 and i % 400 == k]
        if want:
            C.true('first', L['n%d' % k] is want[0])
        C.true('all', same(L.find('n%d' % k), want))
    C.raises('duplicates', core.DuplicateNameError, lambda: core.name_all_elements(objs, True))
    C.true('unnamed ones are named', len(set(o.name for o in objs[::3])) == 200)
    C.true('kept', all([o.name == 'n%d' % (i % 400) for i, o in enumerate(objs) if i % 3]))
    found, other = L.find('n1'), L.find('n2')
    C.true('the results are independent', found[0].name == 'n1' and other[0].name == 'n2')


@contract('C34', sym=False, samples=1, bounded='400 steps, 60 observers; run-time evaluation')
def many_steps(C):
    core, J = C.mod('core'), C.mod('joints')
    log = []

    class O(core.Observer):
        def init(self, world, timeline):
            log.append(('init', self))

        def update(self, dt):
            log.append(('update', self, w.current_time, dt))

        def finish(self):
            log.append(('finish', self))
    w = core.World()
    w.add_link(w.ground, J.RzJoint(gvel=[.5]), core.Body(mass=np.eye(6)))
    obs = [O() for i in range(60)]
    t = [.01 * i + .003 * (i % 3) for i in range(401)]
    core.simulate(w, t, obs)
    want = [('init', o) for o in obs]
    for a, b in zip(t, t[1:]):
        want += [('update', o, a, b - a) for o in obs]
    want += [('finish', o) for o in obs]
    C.true('as many calls', len(log) == len(want))
    C.true('in order', all([x[0] == y[0] and x[1] is y[1] for x, y in zip(log, want)]))
    C.eq('instants', [x[2] for x in log if x[0] == 'update'],
         [x[2] for x in want if x[0] == 'update'])
    C.eq('steps', [x[3] for x in log if x[0] == 'update'],
         [x[3] for x in want if x[0] == 'update'])
    C.eq('clock', w.current_time, t[-1])


# ------------------------------------------------------------------------ C16, C29
@contract('C16')
def emptied(C):
    """Bodies that lose their mass or their viscosity leave nothing behind."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    bs = []
    for i in (0, 1):
        b = core.Body(mass=C.diag([C.one] * 6), viscosity=C.diag([C.one * 2] * 6))
        w.add_link(w.ground, J.TyJoint(gvel=C.real('v%d' % i)), b)
        bs.append(b)
    w.init()
    w.update_dynamic()
    C.eq('mass', w.mass, C.eye(2))
    C.eq('viscosity', w.viscosity, 2 * C.eye(2))
    what = C.choice('what', ('mass', 'viscosity', 'both'))
    m, v = C.eye(2), 2 * C.eye(2)
    for i in (1, 0):
        if what != 'viscosity':
            bs[i].mass = C.zeros((6, 6))
            m[i, i] = C.const(0)
        if what != 'mass':
            bs[i].viscosity = C.zeros((6, 6))
            v[i, i] = C.const(0)
        w.update_dynamic()
        C.eq('mass', w.mass, m)
        C.eq('viscosity', w.viscosity, v)
        C.eq('nonlinear effects', w.nleffects, C.zeros((2, 2)))


@contract('C29', bounded='all 25 ordered pairs of shape types')
def pairs_on_a_body(C):
    """The choice depends on the types only: shapes of one body, of one frame, of no world."""
    from c_collisions import KINDS as SK, make, supported
    core, co = C.mod('core'), C.mod('collisions')
    a, b = C.choice('first', SK), C.choice('second', SK)
    where = C.choice('where', ('one body', 'one frame', 'two bodies', 'the ground'))
    f0 = core.World().ground if where == 'the ground' else core.Body()
    f1 = f0
    if where == 'one body':
        f1 = core.SubFrame(f0, C.mkhom(C.eye(3), C.arr([0, 0, 9])))
    elif where == 'two bodies':
        f1 = core.Body()
    A, B = make(C, a, f0, C.one), make(C, b, f1, C.one * 2)
    how = C.choice('names', (None, 'x'))
    A.name = B.name = how
    if not supported(a, b):
        C.raises('unsupported', NotImplementedError, lambda: co.choose_solver(A, B))
        return
    shapes, solver = co.choose_solver(A, B)
    C.true('the same shapes', same(shapes, [A, B]) or same(shapes, [B, A]))
    if where in ('one body', 'two bodies'):
        Z = C.zeros((6, 0))
        f0.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
        if where == 'two bodies':
            f1.update_dynamic(C.mkhom(C.eye(3), C.arr([0, 0, 9])), Z, Z, C.zeros(6))
        size = dict(sphere=(1, 2), point=(0, 0), plane=(0, 0), box=(1, 1))
        # (the normal of a plane is upwards: it is the second shape that is above)
        want = 9 - size[a][0] - size[b][1] if b != 'plane' else -9 - size[a][0]
        C.eq('distance', solver(shapes)[0], want)
        shapes, solver = co.choose_solver(B, A)
        C.eq('distance, given the other way round', solver(shapes)[0], want)
