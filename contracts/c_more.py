"""Crowds, empty worlds, odd names and second runs."""
import os
import shutil
import tempfile
from pvc.run import contract
from c_build import Tree, Visitor, check_tree, free_joint, same, some_frame


# ------------------------------------------------------------------------ C31
def links_at_once(n):
    def body(C):
        core = C.mod('core')
        w = core.World()
        t = Tree(w.ground)
        bodies, args = [w.ground], []
        for i in range(n):
            parent = bodies[0 if i == 0 else C.choice('parent%d' % i, (0, 1)) * (len(bodies) - 1)]
            b = core.Body()
            f0 = core.SubFrame(parent) if i % 3 == 1 else parent
            f1 = core.SubFrame(b) if i % 3 == 2 else b
            j = free_joint(C, i % 3, C.zeros(i % 3))
            args += [f0, j, f1]
            bodies.append(b)
            t.add(f0, j, f1)
        w.add_link(*args)
        check_tree(C, w, t, bodies, 'after %d links' % n)
        C.true('frames', same(w.itersubframes(), [
            x for x in args if isinstance(x, core.SubFrame)]))
    return body


for _n in (4, 7, 12):
    contract('C31', 'links_at_once_%d' % _n, sym=_n == 4, samples=4,
             bounded='4, 7 and 12 links given at once')(links_at_once(_n))


def crowd(C, n=45):
    """Two bodies and the ground, with dozens of frames, shapes, constraints and controllers."""
    core, sh, cs, ct, J = (C.mod('core'), C.mod('shapes'), C.mod('constraints'),
                           C.mod('controllers'), C.mod('joints'))
    w = core.World()
    a, b = core.Body('a'), core.Body('b')
    w.add_link(w.ground, J.FreeJoint(), a)
    w.add_link(a, J.RzJoint(), b)
    frames, shapes, others = [], [], []
    for i in range(n):
        x = (a, b)[i % 2]
        f = (core.SubFrame, core.MovingSubFrame)[i % 3 == 0](x, name='f%d' % i)
        s = sh.Sphere(f if i % 5 else x, 1., 's%d' % i)
        for o in (f, s):
            w.register(o)
            w.register(o)
        frames.append(f)
        shapes.append(s)
    for i in range(n):
        k = cs.BallAndSocketConstraint(frames=(frames[i], w.ground))
        c = ct.WeightController()
        for o in (k, c):
            w.register(o)
            w.register(o)
        others += [k, c]
    return w, frames, shapes, others


KW = dict(sym=False, samples=1, bounded='45 frames, shapes, constraints and controllers on two '
          'bodies; run-time evaluation')


@contract('C31', **KW)
def crowd_registered(C):
    w, frames, shapes, others = crowd(C)
    C.true('frames', same(w.itersubframes(), frames))
    C.true('shapes', same(w.itershapes(), shapes))
    C.true('constraints', same(w.iterconstraints(), others[::2]))
    C.true('controllers', same(w.getcontrollers(), others[1::2]))


@contract('C41', **KW)
def crowd_visited(C):
    core = C.mod('core')
    w, frames, shapes, others = crowd(C)
    v = Visitor()
    w.parse(v)
    seen = [x[1] for x in v.log if x[0] == 'register']
    want = list(w.iterbodies()) + frames + shapes + others
    C.true('everything once', sorted(map(id, seen)) == sorted(map(id, want)))
    at = dict((id(o), i) for i, o in enumerate(seen))
    C.true('frames after their bodies, shapes after their frames',
           all([at[id(f.body)] < at[id(f)] for f in frames]) and
           all([at[id(s.frame)] < at[id(s)] for s in shapes]))
    C.true('all the frames', same(w.iterframes(), list(w.iterbodies()) + frames) and
           same(w.getframes(), list(w.iterbodies()) + frames))
    C.true('the moving ones', same(w.itermovingsubframes(), [
        f for f in frames if isinstance(f, core.MovingSubFrame)]))


@contract('C29', **KW)
def crowd_contacts(C):
    cs = C.mod('constraints')
    w, frames, shapes, others = crowd(C)

    class Known(cs.SoftFingerContact):
        def __init__(self, shapes, *args, **kw):
            self.given = list(shapes)
            cs.SoftFingerContact.__init__(self, shapes, *args, **kw)
    got = cs.get_all_contacts(w, Known, friction_coeff=.5)
    pairs = [frozenset((id(s), id(t))) for i, s in enumerate(shapes) for t in shapes[:i]
             if s.frame.body is not t.frame.body]
    C.true('one for each pair', sorted(map(sorted, pairs)) == sorted(
        sorted(map(id, c.given)) for c in got))


@contract('C42', **KW)
def crowd_drawn(C):
    from c_visu import recorder
    wd, rec = recorder(C)
    w, frames, shapes, others = crowd(C)
    w.init()
    w.update_geometric()
    d = wd.Drawer(rec, C.choice('flat', (False, True)))
    w.parse(d)
    d.finish()
    C.true('a node for each frame', len(set(id(x) for x in d.frame_nodes.values())) ==
           len(frames) + 3)
    drawn = [x for x in rec.all if x.kind == 'ellipsoid']
    C.true('every shape', len(drawn) == len(shapes))
    C.true('names', sorted(str(x.name) for x in drawn) == sorted(str(s.name) for s in shapes))


# ------------------------------------------------------------------------ C33
@contract('C33')
def similar_names(C):
    """Names that look alike are different names."""
    core = C.mod('core')
    names = ('a', 'A', ' a', 'a ', 'aa', '0', '1', '-1', '', ' ', 'None', '\u00e9', 'e\u0301', 'a\n')
    objs = [core.NamedObject(x) for x in names]
    L = core.NamedObjectsList(objs)
    for x, o in zip(names, objs):
        C.true('found', L[x] is o and same(L.find(x), [o]))
    for x in ('b', '2', '  ', 'a  ', 'none', 'E', '*', '.'):
        C.true('not found', L.find(x) == [])
        C.raises('missing', KeyError, lambda: L[x])
    d = L.as_dict()
    C.true('dictionary', len(d) == len(names) and all(d[x] is o for x, o in zip(names, objs)))
    core.name_all_elements(L, True)
    C.true('kept', [o.name for o in objs] == list(names))


@contract('C33')
def named_again(C):
    """Objects named in several calls, in different lists, do not get the same name."""
    core = C.mod('core')
    objs = [core.NamedObject() for i in range(6)]
    order = C.choice('order', ((5, 4, 3, 2, 1, 0), (0, 1, 2, 3, 4, 5), (3, 0, 5, 1, 4, 2)))
    for cut in (1, 2, 4, 6):
        core.name_all_elements([objs[i] for i in order[:cut]][::-1], True)
    C.true('unique', len(set(o.name for o in objs)) == 6)
    old = [o.name for o in objs]
    core.name_all_elements(iter(objs), True)
    C.true('kept', [o.name for o in objs] == old)


# ------------------------------------------------------------------------ C37
@contract('C37', sym=False, samples=24, bounded='worlds without a joint, a body or a step; '
          'run-time evaluation')
def nothing_to_record(C):
    core, ob, J = C.mod('core'), C.mod('observers'), C.mod('joints')
    w = core.World()
    joints = []
    if C.choice('world', ('empty', 'fixed', 'one joint')) != 'empty':
        j = J.FixedJoint(name='j') if C.choice('fixed', (0, 1)) else J.RzJoint(name='j')
        b = core.Body('b')
        b.mass = C.eye(6)
        w.add_link(w.ground, j, b)
        joints.append(j)
    t = C.choice('timeline', ([0.], [0., 1.], [0., .5, 1.]))
    kind = C.choice('kind', ('pickle', 'hdf5'))
    flat = C.choice('flat', (False, True))
    d = tempfile.mkdtemp(prefix='pvc-log')
    try:
        name = os.path.join(d, 'log')
        kw = dict(save_state=True, save_model=True, flat=flat)
        obs = (ob.PickleLogger if kind == 'pickle' else ob.Hdf5Logger)(name, **kw)
        core.simulate(w, t, [obs])
        n = len(t) - 1
        if kind == 'pickle':
            import pickle
            with open(name, 'rb') as h:
                got = pickle.load(h)
        else:
            import h5py
            from c_observers import tree_of_group
            with h5py.File(name, 'r') as h:
                got = tree_of_group(h)
        C.true('groups', sorted(got) == ['gpositions', 'gvelocities', 'model', 'timeline',
                                         'transforms'], '%s' % sorted(got))
        C.true('instants', list(got['timeline']) == t[:n])
        C.true('joints', sorted(got['gpositions']) == [j.name for j in joints] ==
               sorted(got['gvelocities']))
        C.true('transforms', sorted(got['transforms']) == sorted(
            ['b'] * len(joints) + ['ground'] * flat), '%s' % sorted(got['transforms']))
        C.true('model', sorted(got['model']) == [
            'admittance', 'gforce', 'gvel', 'mass', 'nleffects'])
        for g in ('gpositions', 'gvelocities', 'transforms', 'model'):
            for k in got[g]:
                C.true('one entry per step', len(got[g][k]) == n)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------ C35, C36, C37
def changed_between_runs(C, n):
    """A world observed, changed, and observed again: masses, center of mass, up to date."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    m, com, bs, js = [], [], [], []
    for i in range(n):
        b, j = core.Body(), J.TyJoint(gpos=[C.real('q%d' % i, -3, 3)])
        w.add_link(w.ground, j, b)
        bs.append(b)
        js.append(j)

    def change(tag):
        del m[:], com[:]
        for i, b in enumerate(bs):
            m.append(C.real('%sm%d' % (tag, i), .3, 9))
            com.append(C.vec('%scom%d' % (tag, i), 3, -2, 2))
            b.mass = C.inertia('M', m[i], com[i], C.diag(
                [C.real('%sI%d%d' % (tag, i, k), .3, 9) for k in range(3)]))
    return w, bs, js, m, com, change


CH = dict(sym=False, samples=12, bounded='two bodies whose masses change between the runs; '
          'run-time evaluation')


@contract('C36', **CH)
def com_after_change(C):
    w, bs, js, m, com, change = changed_between_runs(C, 2)
    obs = C.mod('observers').CoMObserver(bs)
    for tag in ('first', 'second'):
        change(tag)
        w.init()
        obs.init(w)
        w.update_dynamic()
        obs.update(.1)
        C.eq('position', sum(m) * obs.get_CoMPosition(), sum(
            m[i] * (C.arr([0, js[i].gpos[0], 0]) + com[i]) for i in (0, 1)))
        C.eq('jacobian', sum(m) * obs.get_CoMJacobian(), C.arr(
            [[0, 0], [m[0], m[1]], [0, 0]]))


@contract('C37', **CH)
def com_recorded_after_change(C):
    core = C.mod('core')
    w, bs, js, m, com, change = changed_between_runs(C, 2)
    obs = C.mod('observers').RecordCoMPosition(bs)
    for tag in ('first', 'second'):
        change(tag)
        x = sum(m[i] * (C.arr([0, js[i].gpos[0], 0]) + com[i]) for i in (0, 1))
        core.simulate(w, [0., .1], [obs])
        C.true('one entry per step', len(obs.get_record()) == 1)
        C.eq('recorded', sum(m) * obs.get_record()[0], x)


@contract('C35', **CH)
def energy_after_change(C):
    core = C.mod('core')
    w, bs, js, m, com, change = changed_between_runs(C, 2)
    obs = C.mod('observers').EnergyMonitor()
    for tag in ('first', 'second'):
        change(tag)
        v = [j.gvel[0] for j in js]
        x = [j.gpos[0] for j in js]
        core.simulate(w, [0., .1], [obs])
        C.true('one value', len(obs.potential_energy) == len(obs.kinetic_energy) == 1)
        C.eq('potential', obs.potential_energy[0], sum(
            C.const(981) / 100 * m[i] * (x[i] + com[i][1]) for i in (0, 1)))
        C.eq('kinetic', obs.kinetic_energy[0], sum(m[i] * v[i] * v[i] / 2 for i in (0, 1)))
        for j, k in zip(js, (1., -2.)):
            j.gvel[:] = k


# ------------------------------------------------------------------------ C19
@contract('C19')
def flat_gains(C):
    """Gains given as nested lists, rows after rows, or arrays are the same gains."""
    core, J, ct = C.mod('core'), C.mod('joints'), C.mod('controllers')
    w = core.World()
    j = J.RyRxJoint(gpos=list(C.vec('q', 2)), gvel=list(C.vec('v', 2)))
    w.add_link(w.ground, j, core.Body())
    w.init()
    kp, kd = C.mat('kp', 2, 2), C.mat('kd', 2, 2)
    qd, vd = C.vec('qd', 2), C.vec('vd', 2)
    dt = C.pos('dt', 1)
    form = C.choice('form', ('flat', 'nested', 'column'))

    def give(A):
        return {'flat': lambda: [A[0, 0], A[0, 1], A[1, 0], A[1, 1]],
                'nested': lambda: [list(A[0]), list(A[1])],
                'column': lambda: A.reshape(4, 1)}[form]()
    c = ct.ProportionalDerivativeController([j], give(kp), give(kd), list(qd), list(vd))
    w.register(c)
    w.init()
    f, Z = c.update(dt)
    C.eq('force', f, kp @ (qd - j.gpos) + kd @ vd)
    C.eq('impedance', Z, -(dt * kp + kd))


@contract('C19')
def no_joints(C):
    """The empty set of joints: no force, no impedance."""
    core, J, ct = C.mod('core'), C.mod('joints'), C.mod('controllers')
    w = core.World()
    n = C.choice('joints', (0, 2))
    if n:
        w.add_link(w.ground, J.RyRxJoint(gpos=list(C.vec('q', 2)), gvel=list(C.vec('v', 2))),
                   core.Body())
    gains = C.choice('gains', (dict(), dict(kp=[], kd=[], gpos_des=[], gvel_des=[])))
    c = ct.ProportionalDerivativeController(C.choice('given as', ([], (), core.JointsList([]))),
                                            **gains)
    w.register(c)
    for again in (0, 1):
        w.init()
        f, Z = c.update(C.pos('dt', 1))
        C.eq('force', f, C.zeros(n))
        C.eq('impedance', Z, C.zeros((n, n)))
