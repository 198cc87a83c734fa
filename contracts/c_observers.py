"""Observers: energy, center of mass, recorders and loggers."""
import os
import shutil
import tempfile
import types
from pvc.poke import poke, peek
from pvc.run import contract
from c_dyn import make_joint, subframe
from c_control import weight_world
from c_world import arb_world


def principal_contract(C, solids):
    """The contract of massmatrix.principalframe, verified by C12: for the mass matrix of
    a solid, a rigid displacement centered on its center of mass (with any orientation)."""
    def principalframe(M):
        for i, (Mi, com) in enumerate(solids):
            if M.shape == (6, 6) and all([C.const(M[k] - Mi[k]).iszero() for k in _ix(6)]):
                return C.mkhom(C.rot('principal%d' % i), com)
        C.true('principalframe is called on the mass matrix of a solid', False)
        return C.eye(4)
    C.use_contract('massmatrix', 'principalframe', principalframe, 'C12')


def _ix(n):
    return [(i, j) for i in range(n) for j in range(n)]


# ------------------------------------------------------------------------ C35
@contract('C35')
def energy(C):
    solids = []
    principal_contract(C, solids)
    w, b, q, p, H, S, m, com, nu, up = weight_world(C, [(-3, 3), (-3, 3)])
    for i in (0, 1):
        C.assume_lt(C.const(1) / 10 ** 9, m[i])
        solids.append((b[i].mass, com[i]))
    w.init()
    obs = C.mod('observers').EnergyMonitor()
    t = C.vec('t', 3)
    poke(w, 'current_time', t[0])
    obs.init(w, t)
    K, P = [], []
    for i in (0, 1):
        M = b[i].mass
        T = S[i][:, 0]
        K.append(T @ M @ T)
        P.append(m[i] * (up @ (H[i][0:3, 3] + H[i][0:3, 0:3] @ com[i])))
    v = [nu, C.vec('mu', 2)]
    for k in (0, 1):
        b_nu = v[k]
        for i in (0, 1):
            b[i].parentjoint.gvel[:] = b_nu[i:i + 1]
        poke(w, 'current_time', t[k])
        w.update_dynamic()
        before = [w.gvel, w.mass.copy()]
        obs.update(t[k + 1] - t[k])
        C.eq('velocity kept', w.gvel, before[0])
        C.eq('mass kept', w.mass, before[1])
    obs.finish()
    C.true('one entry per step', len(obs.time) == len(obs.kinetic_energy) ==
           len(obs.potential_energy) == len(obs.mechanichal_energy) == 2)
    g = C.const(981) / 100
    for k in (0, 1):
        Ec = sum([K[i] * v[k][i] * v[k][i] for i in (0, 1)]) / 2
        Ep = g * (P[0] + P[1])
        C.eq('time', obs.time[k], t[k])
        C.eq('kinetic energy', obs.kinetic_energy[k], Ec)
        C.eq('potential energy', obs.potential_energy[k], Ep)
        C.eq('mechanical energy', obs.mechanichal_energy[k], Ec + Ep)
    # another simulation starts again
    obs.init(w, t)
    poke(w, 'current_time', t[2])
    obs.update(t[1])
    C.true('a new record', len(obs.time) == len(obs.kinetic_energy) ==
           len(obs.potential_energy) == len(obs.mechanichal_energy) == 1)
    C.eq('new time', obs.time[0], t[2])
    C.eq('new mechanical energy', obs.mechanichal_energy[0],
         obs.kinetic_energy[0] + obs.potential_energy[0])


@contract('C35')
def energy_of_falling_body(C):
    """The potential energy moves as minus the work of the weight."""
    solids = []
    principal_contract(C, solids)
    core, J = C.mod('core'), C.mod('joints')
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    com = C.vec('com', 3, -3, 3)
    M = C.inertia('M', m, com, C.diag([C.real('I%d' % k, 0, 9, strict=True, lo_sample=.3)
                                       for k in range(3)]))
    solids.append((M, com))
    v = C.real('v')
    x = C.real('x')
    w = core.World()
    b = core.Body()
    b.mass = M
    j = J.TyJoint(gpos=[x], gvel=[v])
    w.add_link(w.ground, j, b)
    c = C.mod('controllers').WeightController()
    w.register(c)
    w.init()
    obs = C.mod('observers').EnergyMonitor()
    obs.init(w, [0, 1])

    def potential(x):
        j.gpos[:] = x
        w.update_dynamic()
        obs.update(C.one)
        return obs.potential_energy[-1]
    d = C.deriv(potential, [x], [v])
    C.eq('power', d, -c.update(C.one)[0][0] * v, tol=1e-4)
    C.eq('kinetic', obs.kinetic_energy[-1], m * v * v / 2)


# ------------------------------------------------------------------------ C36
def com_setup(C, n, massless):
    solids = []
    principal_contract(C, solids)
    core = C.mod('core')
    w, bodies, state = core.World(), [], []
    nu = C.vec('nu', 2)
    w.add_link(w.ground, make_joint(C, C.eye(4), C.zeros((6, 2)), C.zeros((6, 2)), nu, 2),
               core.Body())
    w.init()
    m, com = [], []
    for i in range(n):
        b = core.Body('b%d' % i)
        m.append(C.real('m%d' % i, 0, 100, strict=True, lo_sample=.3))
        C.assume_lt(C.const(1) / 10 ** 9, m[i])
        com.append(C.vec('com%d' % i, 3, -3, 3))
        b.mass = C.inertia('M', m[i], com[i], C.diag(
            [C.real('I%d%d' % (i, k), 0, 9, strict=True, lo_sample=.3) for k in range(3)]))
        solids.append((b.mass, com[i]))
        bodies.append(b)
        q, p = C.rotstate('Q%d' % i), C.vec('p%d' % i, 3)
        J, dJ = C.mat('J%d_' % i, 6, 2), C.mat('dJ%d_' % i, 6, 2)
        state.append((q, p, J, dJ))
    extra = []
    if massless:
        b = core.Body('massless')
        b.update_dynamic(C.hom('X'), C.mat('JX', 6, 2), C.mat('dJX', 6, 2), C.vec('TX', 6))
        extra = [b]

    def put(*s):
        """s: for each body, rotation, position, jacobian entries"""
        k = 0
        for i, b in enumerate(bodies):
            R, p = s[k], C.arr(list(s[k + 1:k + 4]))
            J = C.arr(list(s[k + 4:k + 16])).reshape(6, 2)
            b.update_dynamic(C.mkhom(R, p), J, state[i][3].copy(), J @ nu)
            k += 16
    items, rates = [], []
    for q, p, J, dJ in state:
        T = J @ nu
        items += [q] + list(p) + list(J.reshape(12))
        rates += [T[0:3]] + list(C.rot_of(q.q) @ T[3:6]) + list(dJ.reshape(12))
    return w, bodies[0:1] + extra + bodies[1:], m, com, state, nu, put, items, rates


def rotation(x):
    return getattr(x, 'R', x)


def com_observer(n, massless):
    def body(C):
        w, bodies, m, com, state, nu, put, items, rates = com_setup(C, n, massless)
        obs = C.mod('observers').CoMObserver(bodies)
        obs.init(w, [0, 1])
        put(*[rotation(x) for x in items])
        snap = [(b.pose.copy(), b.jacobian.copy(), b.djacobian.copy(), b.twist.copy())
                for b in bodies]
        obs.update(C.one)
        for b, s in zip(bodies, snap):
            C.eqs([('body kept', x, y) for x, y in zip(
                (b.pose, b.jacobian, b.djacobian, b.twist), s)])
        mt = sum(m)
        x = C.zeros(3)
        J = C.zeros((3, 2))
        for i in range(n):
            q, p, Ji, dJi = state[i]
            R = C.rot_of(q.q)
            x = x + m[i] * (p + R @ com[i])
            J = J + m[i] * (R @ (Ji[3:6] - C.skew(com[i]) @ Ji[0:3]))
        pos, jac, djac = obs.get_CoMPosition(), obs.get_CoMJacobian(), obs.get_CoMdJacobian()
        C.eq('position', mt * pos, x)
        C.eq('jacobian', mt * jac, J)

        def position(*s):
            put(*s)
            obs.update(C.one)
            return obs.get_CoMPosition()
        C.eq('velocity', jac @ nu, C.deriv(position, items, rates), tol=1e-5)
        # independence of the results, nothing accumulates
        put(*[rotation(y) for y in items])
        obs.update(C.one)
        C.eq('position again', obs.get_CoMPosition(), pos)
        C.eq('jacobian again', obs.get_CoMJacobian(), jac)
        C.eq('jacobian derivative again', obs.get_CoMdJacobian(), djac)
        for f in (obs.get_CoMPosition, obs.get_CoMJacobian, obs.get_CoMdJacobian):
            r = f()
            s = r.copy()
            r[:] = 0
            C.eq('independent', f(), s)
    return body


contract('C36', 'com_1')(com_observer(1, True))
contract('C36', 'com_2')(com_observer(2, True))


def com_derivative(n):
    def body(C):
        w, bodies, m, com, state, nu, put, items, rates = com_setup(C, n, False)
        obs = C.mod('observers').CoMObserver(bodies)
        obs.init(w, [0, 1])
        put(*[rotation(x) for x in items])
        obs.update(C.one)
        djac = obs.get_CoMdJacobian()

        def jacobian(*s):
            put(*s)
            obs.update(C.one)
            return obs.get_CoMJacobian()
        C.eq('jacobian derivative', djac, C.deriv(jacobian, items, rates), tol=1e-5)
    return body


contract('C36', 'com_derivative_1')(com_derivative(1))
contract('C36', 'com_derivative_2', budget=300)(com_derivative(2))


@contract('C36')
def position_only(C):
    w, bodies, m, com, state, nu, put, items, rates = com_setup(C, 2, True)
    ob = C.mod('observers')
    obs = ob.CoMObserver(bodies, compute_Jacobians=False)
    rec = ob.RecordCoMPosition(bodies)
    obs.init(w)
    rec.init(w, [0, 1])
    put(*[rotation(x) for x in items])
    obs.update(C.one)
    rec.update(C.one)
    x = sum([m[i] * (state[i][1] + C.rot_of(state[i][0].q) @ com[i]) for i in (0, 1)])
    C.eq('position', sum(m) * obs.get_CoMPosition(), x)
    C.eq('recorded position', sum(m) * rec.get_record()[0], x)
    C.true('one record', len(rec.get_record()) == 1)


# ------------------------------------------------------------------------ C37
def same_record(C, name, got, want):
    C.true(name + ': one entry per step', len(got) == len(want))
    for x, y in zip(got, want):
        C.eq(name, x, y)


@contract('C37', bounded='runs of three and two steps, any states')
def recorders(C):
    solids = []
    principal_contract(C, solids)
    core, J, sh, ob = C.mod('core'), C.mod('joints'), C.mod('shapes'), C.mod('observers')
    w = core.World()
    a, b = core.Body('a'), core.Body('b')
    m = C.real('m', 0, 9, strict=True, lo_sample=.3)
    C.assume_lt(C.const(1) / 10 ** 9, m)
    com = C.vec('com', 3)
    b.mass = C.inertia('M', m, com, C.diag([C.real('I%d' % k, 0, 9, strict=True, lo_sample=.3)
                                            for k in range(3)]))
    solids.append((b.mass, com))
    j1, j2 = J.TyJoint(), J.RzJoint()
    w.add_link(w.ground, j1, a)
    w.add_link(a, j2, b)
    f = core.MovingSubFrame(b)
    w.register(f)
    s1, s2 = sh.Sphere(b, C.pos('r')), sh.Point(w.ground)

    class Force(core.Constraint):
        pass
    c = Force()
    w.init()
    recs = [ob.RecordJointGpos(j1), ob.RecordJointGpos(j2), ob.RecordJointGvel(j1),
            ob.RecordJointGvel(j2), ob.RecordFramePose(b), ob.RecordFramePose(f),
            ob.RecordFrameTwist(b), ob.RecordFrameTwist(f), ob.RecordConstForce(c),
            ob.RecordDistance(s1, s2), ob.RecordCoMPosition([b])]
    for again in (0, 1):
        want = [[] for r in recs]
        n = 3 - again
        for r in recs:
            r.init(w, list(range(n + 1)))
        c._force = C.zeros(2)
        for k in range(n):
            q, v = C.vec('q%d%d' % (again, k), 2), C.vec('v%d%d' % (again, k), 2)
            K = C.mkhom(C.eye(3), C.vec('K%d%d' % (again, k), 3))
            F = C.vec('F%d%d' % (again, k), 2)
            C.assume_ne(q[0], 0)
            for j, i in ((j1, 0), (j2, 1)):
                j.gpos[:] = q[i]
                j.gvel[:] = v[i]
            f.bpose = K
            c._force[:] = F
            w.update_dynamic()
            for r in recs:
                r.update(C.one)
            P = C.eye(4)
            P[0:2, 0:2] = C.arr([[C.cos(q[1]), -C.sin(q[1])], [C.sin(q[1]), C.cos(q[1])]])
            P[1, 3] = q[0]
            T = C.arr([0, 0, v[1]] + list(P[0:3, 0:3].T @ C.arr([0, v[0], 0])))
            for x, y in zip(want, ([q[0]], [q[1]], [v[0]], [v[1]], P, P @ K, T,
                                   C.Ad(C.hinv(K)) @ T, F, abs(q[0]) - s1.radius,
                                   P[0:3, 3] + P[0:3, 0:3] @ com)):
                x.append(y)
        # what happens afterwards
        for j in (j1, j2):
            j.gpos[:] = 9
            j.gvel[:] = 9
        f.bpose = C.eye(4)
        c._force[:] = 9
        w.update_dynamic()
        for r in recs:
            r.finish()
        for r, x in zip(recs, want):
            same_record(C, type(r).__name__, r.get_record(), x)


# contracts of pickle and h5py: what is written is what is read
class Files(object):
    def __init__(self, C):
        self.C = C
        self.disk = {}

    def copy(self, x):
        if isinstance(x, dict):
            return dict([(k, self.copy(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return type(x)([self.copy(v) for v in x])
        return x.copy() if hasattr(x, 'copy') else x

    def open(self, name, mode='r', **kw):
        return OneFile(self, name, mode)

    def pickle(self):
        m = types.ModuleType('pickle')

        def dump(obj, f, protocol=None, **kw):
            f.write(('pickled', self.copy(obj)))

        def dumps(obj, protocol=None, **kw):
            return ('pickled', self.copy(obj))
        m.dump, m.dumps, m.HIGHEST_PROTOCOL, m.DEFAULT_PROTOCOL = dump, dumps, 5, 4
        return m

    def h5py(self):
        m = types.ModuleType('h5py')
        fs = self

        class Dataset(object):
            def __init__(self, shape):
                self.shape = tuple(shape)
                self.data = fs.C.zeros(self.shape)

            def __setitem__(self, i, v):
                self.data[i] = fs.copy(v)

            def __getitem__(self, i):
                return self.data[i].copy() if hasattr(self.data[i], 'copy') else self.data[i]

            def write_direct(self, v):
                self.data[...] = v

        class Group(object):
            def __init__(self):
                self.kids = {}

            def _down(self, name):
                g = self
                parts = [p for p in name.split('/') if p]
                for p in parts[:-1]:
                    g = g.require_group(p)
                return g, parts[-1]

            def require_group(self, name):
                g = self
                for p in [p for p in name.split('/') if p]:
                    g.kids.setdefault(p, Group())
                    g = g.kids[p]
                    if not isinstance(g, Group):
                        raise TypeError('not a group')
                return g
            create_group = require_group

            def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
                g, n = self._down(name)
                if n in g.kids:
                    raise ValueError('name already exists')
                g.kids[n] = Dataset(shape if data is None else data.shape)
                if data is not None:
                    g.kids[n].data[...] = data
                return g.kids[n]

            def require_dataset(self, name, shape, dtype, **kw):
                g, n = self._down(name)
                if n not in g.kids:
                    return self.create_dataset(name, shape, dtype)
                if g.kids[n].shape != tuple(shape):
                    raise TypeError('shapes do not match')
                return g.kids[n]

            def __setitem__(self, name, v):
                self.create_dataset(name, data=v)

            def __getitem__(self, name):
                g = self
                for p in [p for p in name.split('/') if p]:
                    g = g.kids[p]
                return g

            def __contains__(self, name):
                return name in self.kids

            def keys(self):
                return self.kids.keys()

        class File(Group):
            def __init__(self, name, mode='r', **kw):
                Group.__init__(self)
                self.closed = False
                old = fs.disk.get(name)
                if mode in ('w', 'w-', 'x') or old is None:
                    fs.disk[name] = self
                else:
                    self.kids = old.kids
                    fs.disk[name] = self

            def close(self):
                self.closed = True

            def flush(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        m.File, m.Group, m.Dataset = File, Group, Dataset
        return m


class OneFile(object):
    def __init__(self, fs, name, mode):
        self.fs, self.name = fs, name
        assert 'b' in mode
        if 'w' in mode:
            fs.disk[name] = []

    def write(self, x):
        self.fs.disk[self.name].append(x)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def tree_of_group(g):
    r = {}
    for k in g.keys():
        x = g[k]
        r[k] = tree_of_group(x) if hasattr(x, 'keys') else x[...] if x.shape else x[()]
    return r


def logged(kind, flat, state, model, group='/'):
    def body(C):
        fs = Files(C)
        C.external('pickle', fs.pickle(), 'pickle: an object dumped in a file is read back equal')
        C.external('h5py', fs.h5py(), 'h5py: a dataset written in a file is read back equal')
        C.builtin('open', fs.open)
        d = None if not C.concrete() else tempfile.mkdtemp(prefix='pvc-log')
        try:
            log_and_read(C, fs, d or '/none', kind, flat, state, model, group)
        finally:
            if d:
                shutil.rmtree(d)
    return body


def log_and_read(C, fs, d, kind, flat, state, model, group):
    core, J, ob = C.mod('core'), C.mod('joints'), C.mod('observers')
    n = 2
    w = core.World()
    a, b, e = core.Body('a'), core.Body(), core.Body('e')
    for x in (a, b, e):
        x.mass = C.eye(6)
    j1, j2, j3 = J.TyJoint(name='first'), J.RzJoint(), J.FixedJoint(name='fixed')
    w.add_link(w.ground, j1, a)
    w.add_link(core.SubFrame(a, C.mkhom(C.eye(3), C.arr([1, 0, 0]))), j2,
               core.SubFrame(b, C.mkhom(C.eye(3), C.arr([0, 0, 1])), 'inner'))
    w.add_link(b, j3, e)
    f = core.MovingSubFrame(b, name='moving')
    w.register(f)
    w.register(core.SubFrame(b, name='not moving'))
    w.init()
    name = os.path.join(d, 'log')
    if kind == 'pickle':
        obs = ob.PickleLogger(name, save_state=state, save_model=model, flat=flat)
    else:
        obs = ob.Hdf5Logger(name, group=group, save_state=state, save_model=model, flat=flat)
    t = C.vec('t', n + 1)
    obs.init(w, list(t))
    want = dict(timeline=[], transforms={}, gpositions={}, gvelocities={}, model={})

    def add(g, k, v):
        want[g].setdefault(k, []).append(v.copy())
    C.true('the joints are named', not state or isinstance(j2.name, str))
    for k in range(n):
        q, v = C.vec('q%d' % k, 2), C.vec('v%d' % k, 2)
        K = C.hom('K%d' % k)
        for j, i in ((j1, 0), (j2, 1)):
            j.gpos[:] = q[i]
            j.gvel[:] = v[i]
        f.bpose = K
        poke(w, 'current_time', t[k])
        w.update_dynamic()
        peek(w, 'gforce')[:] = C.vec('g%d' % k, 2)
        poke(w, 'admittance', C.mat('Y%d' % k, 2, 2))
        obs.update(t[k + 1] - t[k])
        want['timeline'].append(t[k])
        for j in (j1, j2, j3):
            add('gpositions', j.name, j.gpos)
            add('gvelocities', j.name, j.gvel)
        if flat:
            for x in w.iterbodies():
                add('transforms', x.name, x.pose)
        else:
            for j in (j1, j2, j3):
                add('transforms', j.frame1.name, j.pose)
        add('transforms', 'moving', f.pose if flat else K)
        for x, y in (('gvel', w.gvel), ('mass', w.mass), ('admittance', w.admittance),
                     ('nleffects', w.nleffects), ('gforce', w.gforce)):
            add('model', x, y)
    # what happens afterwards
    for j in (j1, j2):
        j.gpos[:] = 9
        j.gvel[:] = 9
    f.bpose = C.eye(4)
    w.update_dynamic()
    peek(w, 'gforce')[:] = 0
    peek(w, 'admittance')[:] = 0
    obs.finish()
    if C.concrete():
        if kind == 'pickle':
            import pickle
            with open(name, 'rb') as h:
                got = pickle.load(h)
        else:
            import h5py
            with h5py.File(name, 'r') as h:
                got = tree_of_group(h)
    elif kind == 'pickle':
        C.true('one object in the file', len(fs.disk[name]) == 1)
        got = fs.disk[name][0][1]
    else:
        C.true('the file is closed', fs.disk[name].closed)
        got = tree_of_group(fs.disk[name])
    for g in [x for x in group.split('/') if x]:
        C.true('the chosen group only', sorted(got) == [g])
        got = got[g]
    groups = ['timeline', 'transforms'] + ['gpositions', 'gvelocities'] * state + \
        ['model'] * model
    C.true('groups', sorted(got) == sorted(groups), '%s' % sorted(got))
    C.true('instants, one per step', len(got['timeline']) == n)
    C.eq('instants', got['timeline'], want['timeline'])
    for g in groups[1:]:
        C.true('names in ' + g, sorted(got[g]) == sorted(want[g]),
               '%s / %s' % (sorted(got[g]), sorted(want[g])))
        for k in want[g]:
            C.true('one entry per step', len(got[g][k]) == n)
            for i in range(n):
                C.eq('%s/%s' % (g, k if k in ('first', 'moving', 'inner') or g == 'model'
                                else 'element'), got[g][k][i], want[g][k][i])


for _k in ('pickle', 'hdf5'):
    contract('C37', _k + '_flat', bounded='two steps, any states')(
        logged(_k, True, True, True))
    contract('C37', _k + '_hierarchy', bounded='two steps, any states')(
        logged(_k, False, True, False))
    contract('C37', _k + '_model', bounded='two steps, any states')(
        logged(_k, False, False, True, '/' if _k == 'pickle' else '/a/b'))


# ------------------------------------------------------------------------ C44
class Net(object):
    """Ports of this machine: some taken, one client calling."""

    def __init__(self):
        self.open = []

    def taken(self, n):
        """n ports in a row that nobody can have, and a free one after them."""
        import os
        import socket
        for k in range(400):
            start = 20000 + (os.getpid() * 37 + 29 * k) % 12000
            got = []
            try:
                for k in range(n):
                    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                    got.append(s)
                    s.bind(('127.0.0.1', start + k))
                    s.listen(1)
                s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                try:
                    s.bind(('127.0.0.1', start + n))
                finally:
                    s.close()
                self.open += got
                return start
            except OSError:
                for s in got:
                    s.close()
        return None

    def call(self, port, out):
        import socket
        s = socket.create_connection(('127.0.0.1', port), 20)
        s.settimeout(20)
        try:
            while 1:
                x = s.recv(100)
                if not x:
                    break
                out.append(x)
        except OSError as e:
            out.append(repr(e).encode())
        s.close()

    def close(self):
        for s in self.open:
            s.close()


def socket_observer(client, taken):
    def body(C):
        import socket
        import threading
        import contextlib
        import io
        core, O = C.mod('core'), C.mod('observers')
        net = Net()
        try:
            start = net.taken(taken)
            if start is None:
                return
            w = core.World()
            w.init()
            dts = []

            class Stream(O.SocketCom):
                def update(self, dt):
                    dts.append(dt)
                    if self.conn is not None:
                        self.conn.send(b'step;')
            with contextlib.redirect_stdout(io.StringIO()):
                obs = Stream(port=start, timeout=20 if client else .05, name='stream')
                C.true('the first free port', obs.port == start + taken)
                C.true('its name and host', obs.name == 'stream' and obs.host == '127.0.0.1')
                heard = []
                obs.s.listen(1)
                t = threading.Thread(target=net.call, args=(obs.port, heard))
                t.daemon = True
                if client:
                    t.start()
                core.simulate(w, [0., .5, 1.], [obs])
                conn, obs.conn = obs.conn, None
                if conn is not None:
                    conn.close()
                if client:
                    t.join(30)
            C.true('every step', len(dts) == 2)
            C.true('what the client heard', b''.join(heard) == (
                b'step;step;close_connection' if client else b''), '%r' % heard)
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(('127.0.0.1', obs.port))
                s.listen(1)
                free = True
            except OSError:
                free = False
            s.close()
            C.true('the port is free again', free)
        finally:
            net.close()
    return body


for _c in (True, False):
    for _n in (0, 1, 3):
        contract('C44', '%s_%d' % ('client' if _c else 'nobody', _n), sym=False, samples=2,
                 bounded='a client or none, 0, 1 or 3 ports taken')(socket_observer(_c, _n))


@contract('C44', con=False, bounded='up to 8 ports taken; a client or none, gone or not')
def any_network(C):
    """SocketCom over a network that answers anything: each port may be taken, nobody may call,
    the client may be gone.  (Stand-in for the socket module, which records.)"""
    import types
    import contextlib
    import io
    log = []

    class Conn(object):
        def send(self, x):
            if not isinstance(x, bytes):
                raise TypeError('a bytes-like object is required')
            if C.choice('client still there', [True, False]):
                log.append(('heard', x))
                return len(x)
            log.append(('lost', x))
            raise OSError('broken pipe')
        sendall = send

        def close(self):
            log.append(('hang up', None))

        def shutdown(self, how):
            pass

    class Socket(object):
        def __init__(self, family=None, kind=None, *a):
            self.port = None
            log.append(('new', (family, kind)))

        def setsockopt(self, *a):
            pass

        def settimeout(self, t):
            log.append(('timeout', t))

        def bind(self, where):
            if self.port is not None:
                raise OSError('already bound')
            # ports that are taken first, so that none of the paths is longer than eight ports
            if len([x for x in log if x[0] == 'taken']) < 8 and C.choice(
                    'port', ['free', 'taken']) == 'taken':
                log.append(('taken', where))
                raise OSError('address already in use')
            self.port = where[1]
            log.append(('bound', where))

        def listen(self, n=0):
            log.append(('listen', self.port))

        def accept(self):
            if C.choice('caller', ['somebody', 'nobody']) == 'nobody':
                log.append(('nobody', None))
                raise TimeoutError('timed out')
            log.append(('somebody', None))
            return Conn(), (C.choice('peer', ['127.0.0.1', '192.0.2.7']), 1)

        def close(self):
            log.append(('close', self.port))

    net = types.ModuleType('socket')
    net.socket, net.error, net.timeout = Socket, OSError, TimeoutError
    for k in ('AF_INET', 'SOCK_STREAM', 'SOL_SOCKET', 'SO_REUSEADDR', 'SHUT_RDWR', 'SHUT_WR'):
        setattr(net, k, k)
    C.external('socket', net, 'socket: any port may be taken, nobody may call, a client may leave')
    O = C.mod('observers')
    with contextlib.redirect_stdout(io.StringIO()):
        host, port, wait = C.choice('asked', (('127.0.0.1', 7000, 5), ('localhost', 7008, 0),
                                             ('', 65000, .5), ('192.0.2.1', 5000, None)))
        obs = O.SocketCom(host, port, wait, 'stream')
        ports = [w for k, w in log if k in ('taken', 'bound')]
        C.true('ports tried in order, from the one asked',
               ports == [(host, port + k) for k in range(len(ports))])
        C.true('the port it has', log[-1][0] == 'bound' or ('bound', ports[-1]) in log)
        C.eq('the port it tells', obs.port, ports[-1][1])
        C.true('name', obs.name == 'stream')
        n = len(log)
        obs.init(None, [0, 1])
        C.true('it listens there, for one client', [x for x in log[n:] if x[0] in (
            'listen', 'somebody', 'nobody')] in (
                [('listen', obs.port), ('somebody', None)],
                [('listen', obs.port), ('nobody', None)]))
        C.true('waits for its timeout', [t for k, t in log if k == 'timeout'][-1:] == [wait])
        n = len(log)
        obs.finish()
    told = [x for k, x in log[n:] if k in ('heard', 'lost')]
    C.true('the client is told', told == ([b'close_connection'] if ('somebody', None) in log
                                          else []))
    if ('lost', b'close_connection') not in log:
        C.true('the port is released', ('close', obs.port) in log[n:])
