"""What users give: their own subclasses of shapes and of strings, elements that share a name,
color generators, and worlds built in any order."""
import os
import shutil
import tempfile
import numpy as np
from pvc.run import contract
from c_collisions import KINDS as SHAPES, make, supported
from c_visu import composed, recorder

RT = 'run-time evaluation'


# ------------------------------------------------------------------------ C29
@contract('C29', sym=False, samples=60, bounded='all 25 ordered pairs of shape types; ' + RT)
def shapes_of_users(C):
    """A shape of a class derived from a shape is one."""
    core, co = C.mod('core'), C.mod('collisions')
    a, b = C.choice('first', SHAPES), C.choice('second', SHAPES)
    f0, f1 = core.Body(), core.Body()
    Z = C.zeros((6, 0))
    f0.update_dynamic(C.eye(4), Z, Z, C.zeros(6))
    f1.update_dynamic(C.mkhom(C.eye(3), C.arr([0, 0, 9])), Z, Z, C.zeros(6))
    A, B = make(C, a, f0, C.one), make(C, b, f1, C.one * 2)
    which = C.choice('derived', ((0,), (1,), (0, 1)))
    for i, s in enumerate((A, B)):
        if i in which:
            s.__class__ = type('Mine', (type(s),), {})
    if not supported(a, b):
        C.raises('unsupported', NotImplementedError, lambda: co.choose_solver(A, B))
        return
    size = dict(sphere=(1, 2), point=(0, 0), plane=(0, 0), box=(1, 1))
    want = 9 - size[a][0] - size[b][1] if b != 'plane' else -9 - size[a][0]
    for given in ((A, B), (B, A)):
        shapes, solver = co.choose_solver(*given)
        C.true('the same shapes', set(map(id, shapes)) == set((id(A), id(B))))
        C.eq('distance', solver(shapes)[0], want)


@contract('C29', sym=False, samples=8, bounded='150 shapes on three bodies; ' + RT)
def many_pairs(C):
    """No pair of a hundred and fifty shapes is left out, none is there twice."""
    core, J, sh, cs = (C.mod(x) for x in ('core', 'joints', 'shapes', 'constraints'))
    w = core.World()
    bs = [w.ground, core.Body(), core.Body()]
    for i in range(1, C.choice('links', (0, 1, 2)) + 1):     # the others are linked later
        w.add_link(bs[i - 1], J.RzJoint(), bs[i])
    shapes = [(sh.Sphere, sh.Point)[i % 7 == 3](bs[(i * i) % 5 % 3]) for i in range(150)]
    for s in shapes:
        w.register(s)
    points = set(id(s) for s in shapes if isinstance(s, sh.Point))
    want = sorted(sorted((id(s), id(t))) for i, s in enumerate(shapes) for t in shapes[:i]
                  if s.frame is not t.frame and not points >= set((id(s), id(t))))

    class Pair(cs.PointContact):
        def __init__(self, shapes):
            self.force_, self.pair = None, sorted(map(id, shapes))
            cs.PointContact.__init__(self, shapes, None, .1, None)
    got = sorted(c.pair for c in cs.get_all_contacts(w, Pair))
    C.true('one for each pair', got == want)


# ------------------------------------------------------------------------ C31
@contract('C31', sym=False, samples=60, bounded='three bodies; ' + RT)
def any_order(C):
    """A world is the same whether its elements are registered before or after the links."""
    core, J, sh, cs, ct = (C.mod(x) for x in ('core', 'joints', 'shapes', 'constraints',
                                              'controllers'))
    w = core.World()
    bs = [core.Body('b%d' % i) for i in range(3)]
    for b in bs:
        b.mass = C.eye(6)
    js = [J.TxTyTzJoint(gpos=[0, 5. * i, 0]) for i in range(3)]
    at = [w.ground, bs[0], bs[1]]
    f = core.SubFrame(bs[2], name='f')
    s = [sh.Sphere(w.ground, 1., 'sg'), sh.Sphere(f, 1., 's2'), sh.Point(bs[0], 's0')]
    contact = cs.SoftFingerContact((s[0], s[1]), .5, name='c')
    ball = cs.BallAndSocketConstraint((f, bs[0]), name='bs')
    limits = cs.JointLimits(js[1], [-1] * 3, [1] * 3, name='jl')
    grav = ct.WeightController(name='grav')
    steps = [lambda i=i: w.add_link(at[i], js[i], bs[i]) for i in range(3)]
    steps += [lambda o=o: w.register(o) for o in s + [contact, ball, limits, grav, f]]
    order = list(range(len(steps)))
    rng = np.random.RandomState(C.choice('order', tuple(range(200))))
    rng.shuffle(order)
    for k in order:
        steps[k]()
    C.true('bodies', [b.name for b in w.iterbodies()] == ['ground', 'b0', 'b1', 'b2'])
    subs = list(w.itersubframes())
    moving = list(w.itermovingsubframes())
    C.true('frames', len(subs) == 3 and sum([x is f for x in subs]) == 1 and len(moving) == 2
           and set(x.body.name for x in moving) == set(('ground', 'b2')))
    C.true('shapes', sorted(x.name for x in w.itershapes()) == ['s0', 's2', 'sg'])
    C.true('constraints', sorted(x.name for x in w.iterconstraints()) == ['bs', 'c', 'jl'])
    C.true('controllers', len(w.getcontrollers()) == 1)
    core.simulate(w, [0., .01, .02])
    C.true('degrees of freedom', w.ndof == 9 and [(j.dof.start, j.dof.stop) for j in js] ==
           [(0, 3), (3, 6), (6, 9)])


# ------------------------------------------------------------------------ C33
class Text(str):
    """A string of a user."""


@contract('C33', sym=False, samples=4, bounded='four objects; ' + RT)
def strings_of_users(C):
    """Names of any class of strings, given and looked for."""
    core = C.mod('core')
    kinds = (str, Text, np.str_)
    give, ask = C.choice('given', kinds), C.choice('asked', kinds)
    objs = [core.NamedObject(n if n is None else give(n)) for n in ('a', None, 'b', 'a')]
    L = core.NamedObjectsList(objs)
    C.true('first', L[ask('a')] is objs[0] and L[ask('b')] is objs[2])
    got = L.find(ask('a'))
    C.true('all', len(got) == 2 and got[0] is objs[0] and got[1] is objs[3])
    C.raises('missing', KeyError, lambda: L[ask('c')])
    C.raises('duplicated', core.DuplicateNameError, lambda: L.as_dict())
    d = core.NamedObjectsList(objs[:3]).as_dict()
    C.true('dictionary', d[ask('a')] is objs[0] and d[ask('b')] is objs[2] and len(d) == 2)
    C.raises('duplicated', core.DuplicateNameError, lambda: core.name_all_elements(L, True))


# ------------------------------------------------------------------------ C37
def written(kind, name):
    if kind == 'pickle':
        import pickle
        with open(name, 'rb') as h:
            return pickle.load(h)
    import h5py
    with h5py.File(name, 'r') as h:
        return dict((g, list(x)) for g, x in h.items())


@contract('C37', sym=False, samples=80, bounded='three bodies; ' + RT)
def shared_names(C):
    """Recorded elements that share a name are refused: none is lost in silence."""
    core, ob, J = C.mod('core'), C.mod('observers'), C.mod('joints')
    w = core.World()
    flat = C.choice('flat', (False, True))
    what = C.choice('what', ('joints', 'ends', 'moving', 'moving and end', 'none'))
    js = [J.RzJoint(name='j%d' % i) for i in range(3)]
    bs = [core.Body('b%d' % i) for i in range(3)]
    i, k = C.choice('which', ((0, 1), (1, 2), (0, 2)))
    if what == 'joints':
        js[k].name = js[i].name
    ends = list(bs)
    framed = C.choice('frames', (False, True)) and not flat
    if framed:
        ends = [core.SubFrame(b, name='e%d' % n) for n, b in enumerate(bs)]
    if what == 'ends':
        ends[k].name = ends[i].name
    at = w.ground
    for j, b in zip(js, ends):
        b.body.mass = C.eye(6)
        w.add_link(at, j, b)
        at = b.body
    mv = [core.MovingSubFrame(bs[1], name='m%d' % n) for n in range(2)]
    if what == 'moving':
        mv[1].name = mv[0].name
    if what == 'moving and end':
        mv[0].name = ends[i].name
    for f in mv:
        w.register(f)
    w.init()
    d = tempfile.mkdtemp(prefix='pvc-log')
    try:
        kind = C.choice('kind', ('pickle', 'hdf5'))
        obs = (ob.PickleLogger if kind == 'pickle' else ob.Hdf5Logger)(
            os.path.join(d, 'log'), save_state=True, flat=flat)
        run = lambda: core.simulate(w, [0., .1, .2], [obs])
        if what == 'none':
            run()
            want = [b.name for b in ends] + [f.name for f in mv] + ['ground'] * (flat is True)
            C.true('names', sorted(written(kind, os.path.join(d, 'log'))['transforms']) ==
                   sorted(want))
        else:
            C.raises('refused', core.DuplicateNameError, run)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contract('C37', sym=False, samples=60, bounded='two simulations of up to three bodies; ' + RT)
def logger_again(C):
    """A logger used for a second simulation writes that one only: other names, other worlds."""
    import pickle
    core, ob, J = C.mod('core'), C.mod('observers'), C.mod('joints')

    def world(tag, n):
        w = core.World()
        at = w.ground
        for i in range(n):
            b = core.Body('%sb%d' % (tag, i), C.eye(6))
            w.add_link(at, J.RzJoint(gpos=[.1 * i], name='%sj%d' % (tag, i)), b)
            at = b
        if C.choice(tag + 'moving', (0, 1)):
            w.register(core.MovingSubFrame(at, name=tag + 'm'))
        w.init()
        return w
    w = world('x', C.choice('bodies', (1, 2, 3)))
    flat = C.choice('flat', (False, True))
    d = tempfile.mkdtemp(prefix='pvc-log')
    try:
        name = os.path.join(d, 'log')
        obs = ob.PickleLogger(name, save_state=True, save_model=True, flat=flat)
        core.simulate(w, [0., .1, .2], [obs])
        what = C.choice('then', ('renamed', 'other world', 'link', 'same'))
        if what == 'renamed':
            w.getbodies()[-1].name = 'new'
            w.getjoints()[0].name = 'newj'
        elif what == 'other world':
            w = world('y', C.choice('bodies after', (1, 2, 3)))
        elif what == 'link':
            w.add_link(w.ground, J.TxJoint(name='more'), core.Body('moreb', C.eye(6)))
        n = C.choice('steps', (1, 2, 3))
        core.simulate(w, [.1 * k for k in range(n + 1)], [obs])
        with open(name, 'rb') as h:
            got = pickle.load(h)
        moving = [f.name for f in w.itermovingsubframes()]
        bodies = [b.name for b in w.iterbodies()]
        C.true('transforms', sorted(got['transforms']) ==
               sorted(moving + (bodies if flat else bodies[1:])))
        js = sorted(j.name for j in w.iterjoints())
        C.true('joints', sorted(got['gpositions']) == js == sorted(got['gvelocities']))
        for g in ('transforms', 'gpositions', 'gvelocities', 'model'):
            C.true('one entry per step', all(len(x) == n for x in got[g].values()))
        C.eq('instants', got['timeline'], [.1 * k for k in range(n)])
        C.true('size', got['model']['gvel'].shape == (n, w.ndof))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------ C42
@contract('C42', sym=False, samples=40, bounded='three bodies; ' + RT)
def colors_of_users(C):
    """The generator of the user is used, and what has no name is not taken for another."""
    wd, rec = recorder(C)
    core, S, J = C.mod('core'), C.mod('shapes'), C.mod('joints')
    grey, red = (.2, .2, .2), (1., 0., 0.)
    w = core.World()
    names = C.choice('names', ((None, None, None), ('', None, 'b'), ('b', 'ground', None)))
    bs = [core.Body(n) for n in names]
    at = w.ground
    for b in bs:
        w.add_link(at, J.RzJoint(), b)
        w.register(S.Sphere(b, .5))
        at = b
    how = C.choice('generator', ('palette', 'map', 'late'))
    n = C.choice('colors', (1, 2, 5))
    mapped = {}
    if how == 'palette':
        g = wd.ColorGenerator(nb_colors=n)
    elif how == 'map':
        mapped = {'b': grey, 'None': red, 's': red, 'ground': grey}
        g = wd.ColorGenerator(dict(mapped), n)
    else:
        g = wd.ColorGenerator(None, n)
        g.set_color(bs[1], list(grey))
    w.init()
    w.update_geometric()
    d = wd.Drawer(rec, C.choice('flat', (False, True)), g)
    w.parse(d)
    shades = [wd.hsv_to_rgb((360. / n * k, .9, .9)) for k in range(n)] + [(1., 1., 1.)]
    drawn = [x for x in rec.all if x.kind == 'ellipsoid']
    C.true('shapes', len(drawn) == 3)
    seen = []
    for b, x in zip(bs, drawn):
        C.true('color of its body', tuple(x.color) == tuple(g.get_color(b)))
        if b.name in mapped or how == 'late' and b is bs[1]:
            C.true('chosen', tuple(x.color) == grey)
        else:
            C.true('of the palette of the user', tuple(x.color) in [tuple(s) for s in shades])
            seen.append(tuple(x.color))
    own = [s for s in seen if s != (1., 1., 1.)]
    C.true('different', len(set(own)) == len(own))


# ------------------------------------------------------ numbers written as people write them
def typed(C, name, n, of=(0, 1, -2, .5, -.25, 1.75, 3)):
    """The same n numbers as floats, and as a user may write them: whole ones as integers."""
    v = [C.choice('%s%d' % (name, i), of) for i in range(n)]
    how = C.choice(name + ' given as', ('list', 'tuple', 'array'))
    w = tuple(v) if how == 'tuple' else np.array(v) if how == 'array' else v
    return np.array(v, dtype=float), w


@contract('C08', sym=False, samples=80, bounded='joints of the library; ' + RT)
def joints_of_users(C):
    """Positions and velocities given as lists and tuples of integers and floats."""
    J = C.mod('joints')
    n, kind = C.choice('joint', ((1, 'RzJoint'), (1, 'RyJoint'), (1, 'RxJoint'), (1, 'TxJoint'),
                                 (1, 'TyJoint'), (1, 'TzJoint'), (2, 'RzRyJoint'), (2, 'RzRxJoint'),
                                 (2, 'RyRxJoint'), (3, 'RzRyRxJoint'), (3, 'TxTyTzJoint')))
    (q, uq), (v, uv) = typed(C, 'q', n), typed(C, 'v', n)
    a, b = getattr(J, kind)(gpos=uq, gvel=uv), getattr(J, kind)(gpos=q, gvel=v)
    for tag in ('given', 'moved'):
        for k in ('gpos', 'gvel', 'pose', 'jacobian', 'djacobian', 'twist'):
            C.eq('%s %s' % (k, tag), getattr(a, k), getattr(b, k))
        if tag == 'given':
            a.integrate(v + .5, .25)
            b.integrate(v + .5, .25)


@contract('C19', sym=False, samples=80, bounded='joints of two and one dof; ' + RT)
def gains_of_users(C):
    """Gains and targets given as lists and tuples of integers and floats."""
    core, J, ct = C.mod('core'), C.mod('joints'), C.mod('controllers')
    w = core.World()
    js = [J.RyRxJoint(gpos=[.5, 1], gvel=[2, -1]), J.RzJoint(gpos=[.25], gvel=[3])]
    at = w.ground
    for j in js:
        b = core.Body(mass=np.diag([1., 2., 3., 1., 1., 1.]))
        w.add_link(at, j, b)
        at = b
    w.init()
    plain, given = {}, {}
    for k, n in (('kp', 9), ('kd', 9), ('gpos_des', 3), ('gvel_des', 3)):
        if C.choice('with ' + k, (True, True, False)):
            plain[k], given[k] = typed(C, k, n)
            if n == 9:
                plain[k] = plain[k].reshape((3, 3))
                if isinstance(given[k], list):
                    given[k] = [given[k][i:i + 3] for i in (0, 3, 6)]
    a = ct.ProportionalDerivativeController(js, **given)
    b = ct.ProportionalDerivativeController(js, **plain)
    for c in (a, b):
        c.init(w)
    for x, y in zip(a.update(.25), b.update(.25)):
        C.eq('the same law', x, y)


@contract('C22', sym=False, samples=80, bounded='a joint of two dof; ' + RT)
def limits_of_users(C):
    """Limits and margins given as lists and tuples of integers and floats."""
    core, J, cs = C.mod('core'), C.mod('joints'), C.mod('constraints')
    w = core.World()
    j = J.RyRxJoint()
    b = core.Body(mass=np.diag([1., 2., 3., 1., 1., 1.]))
    w.add_link(w.ground, j, b)
    (lo, ulo), (hi, uhi) = typed(C, 'min', 2), typed(C, 'max', 2, (4, 4.5, 5))
    p, up = typed(C, 'near', 2, (0, .25, 1, 2))
    kw = {} if C.choice('default margin', (True, False)) else {'proximity': up}
    a = cs.JointLimits(j, ulo, uhi, **kw)
    b = cs.JointLimits(j, lo, hi, **dict(kw, **({'proximity': p} if kw else {})))
    for c in (a, b):
        w.register(c)
    w.init()
    for i in range(6):
        j.gpos[:] = lo + (hi - lo) * np.array([C.real('x%d' % i, -.2, 1.2), C.real('y%d' % i, -.2, 1.2)])
        w.update_dynamic()
        for c in (a, b):
            c.update(.125)
        C.true('active', a.is_active() == b.is_active())
        v = C.vec('v%d' % i, 2)
        Y = np.array([[2., .5], [.5, 1.]])
        C.eq('force', a.solve(v.copy(), Y, .125), b.solve(v.copy(), Y, .125))
        C.eq('generalized force', a.gforce, b.gforce)


@contract('C42', sym=False, samples=20, bounded='three bodies; ' + RT)
def drawn_again(C):
    """A drawer used for two worlds, or twice for one, draws a whole scene each time."""
    wd, rec = recorder(C)
    core, S, J = C.mod('core'), C.mod('shapes'), C.mod('joints')
    d = wd.Drawer(rec, C.choice('flat', (False, True)))
    w = None
    for k in (0, 1):
        if w is None or C.choice('again', ('the same', 'another')) == 'another':
            w = core.World()
            at = w.ground
            for i in range(3):
                b = core.Body('b%d' % i)
                w.add_link(at, J.TxTyTzJoint(gpos=[1., i, k]), b)
                w.register(S.Sphere(b, .5, 's'))
                f = core.SubFrame(b, C.hom('H%d%d' % (k, i)), 'f')
                w.register(f)
                at = b
            w.init()
        w.update_geometric()
        n = len(rec.all)
        w.parse(d)
        new = rec.all[n:]
        C.true('one ground', [x.kind for x in new].count('ground') == 1)
        C.true('frames', [x.kind for x in new].count('frame') == 6)
        C.true('shapes', [x.kind for x in new].count('ellipsoid') == 3)
        ids = set(id(x) for x in new)
        for x in new:
            C.true('in this scene', all(id(p) in ids for p in x.parents))
        for f in w.iterframes():
            x = d.frame_nodes[f]
            C.true('of this scene', id(x) in ids)
            C.eq('pose', composed(C, x), f.pose)


@contract('C22', sym=False, samples=30, bounded='a joint of two dof; ' + RT)
def limits_enabled_later(C):
    """Limits disabled when the world is initialized and enabled afterwards are limits."""
    core, J, cs = C.mod('core'), C.mod('joints'), C.mod('constraints')
    got = []
    for late in (False, True):
        w = core.World()
        b = core.Body(mass=np.diag([1., 2., 3., 1., 1., 1.]))
        j = J.RyRxJoint(gpos=[C.real('x', .9, 1), 0.], gvel=[C.real('v', 1, 5), C.real('u', -1, 1)])
        w.add_link(w.ground, J.TxJoint(), core.Body(mass=np.eye(6)))
        w.add_link(w.ground, j, b)
        c = cs.JointLimits(j, [-1., -1.], [1., 1.])
        w.register(c)
        if late:
            c.disable()
        w.init()
        c.enable()
        for i in range(3):
            w.update_dynamic()
            w.update_controllers(.125)
            w.update_constraints(.125)
            w.integrate(.125)
        C.le('stopped', j.gpos[0], 1.)
        got.append(list(j.gpos) + list(j.gvel))
    C.eq('no difference', got[0], got[1])


# ------------------------------------------------------------------------ a lot at once
@contract('C33', sym=False, samples=6, bounded='3000 objects; ' + RT)
def crowd_named(C):
    """Names are unique in a large list, or the list is refused."""
    core = C.mod('core')
    objs = [core.NamedObject('n%d' % i if i % 3 else None) for i in range(3000)]
    core.name_all_elements(objs, True)
    C.true('unique', len(set(o.name for o in objs)) == 3000)
    d = core.NamedObjectsList(objs).as_dict()
    C.true('dictionary', len(d) == 3000 and all(d[o.name] is o for o in objs))
    i, k = C.choice('twins', ((0, 2999), (1, 2), (1500, 2700)))
    objs[k].name = objs[i].name
    C.raises('twins', core.DuplicateNameError, lambda: core.name_all_elements(objs, True))
    C.raises('twins', core.DuplicateNameError, lambda: core.NamedObjectsList(objs).as_dict())
    C.true('the first one', core.NamedObjectsList(objs)[objs[i].name] is objs[i])
    C.true('both', core.NamedObjectsList(objs).find(objs[i].name) == [objs[i], objs[k]])


@contract('C31', sym=False, samples=4, bounded='up to 120 links; ' + RT)
def many_links(C):
    """Any number of links in one call."""
    core, J = C.mod('core'), C.mod('joints')
    n = C.choice('links', (3, 29, 40, 120))
    w = core.World()
    bs = [w.ground] + [core.Body() for i in range(n)]
    js = [J.RzJoint() for i in range(n)]
    star = C.choice('star', (True, False))
    args = []
    for i in range(n):
        args += [bs[0 if star else i], js[i], bs[i + 1]]
    w.add_link(*args)
    C.true('bodies', list(w.iterbodies()) == bs)
    C.true('joints', list(w.iterjoints()) == js)
    for i, j in enumerate(js):
        C.true('frames', j.frames == (bs[0 if star else i], bs[i + 1]))
    w.init()
    C.eq('dof', w.ndof, n)
    C.raises('a loop', ValueError, lambda: w.add_link(bs[1], J.RzJoint(), bs[n]))
