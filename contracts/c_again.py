"""Called again: with the same objects changed in between, after the caller changed what it
was given.  The answer only depends on the values of the arguments at the time of the call.
(What the values have to be is the matter of the other contracts.)"""
import numpy as np
from pvc.run import contract
from c_dyn import subframe


def junk(C, r):
    """What a caller may do with the arrays it was given."""
    for x in (r if isinstance(r, tuple) else (r,)):
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = C.const(7)


def parts(C, r):
    return [C.snap(x) for x in (r if isinstance(r, tuple) else (r,))]


def again(C, name, f, first, second):
    """f: a function of arrays and numbers; first, second: two lists of arguments."""
    want1, want2 = (parts(C, f(*[C.snap(a) for a in v])) for v in (first, second))
    args = [C.snap(a) for a in first]
    r = f(*args)
    for x in (r if isinstance(r, tuple) else (r,)):
        if isinstance(x, np.ndarray):
            C.is_fresh(name, x, *[a for a in args if isinstance(a, np.ndarray)])
    junk(C, r)
    for tag, now, want in (('again', first, want1), ('changed', second, want2),
                           ('back', first, want1)):
        for i, a in enumerate(now):
            if isinstance(a, np.ndarray):
                args[i][...] = a
            else:
                args[i] = a
        r = f(*args)
        for x, y in zip(parts(C, r), want):
            C.eq('%s: %s' % (name, tag), x, y)
        junk(C, r)


def both(make):
    return make('a'), make('b')


@contract('C01')
def displacements_again(C):
    Hg = C.mod('homogeneousmatrix')
    for n, k in (('transl', 3), ('rotzyx', 3), ('rotzy', 2), ('rotzx', 2), ('rotyx', 2),
                 ('rotx', 1), ('roty', 1), ('rotz', 1)):
        again(C, n, getattr(Hg, n), *both(lambda t: [C.real('%s%d' % (t, i), -3, 3)
                                                     for i in range(k)]))


@contract('C02')
def inverse_again(C):
    Hg = C.mod('homogeneousmatrix')
    H = both(lambda t: C.hom('H' + t))
    again(C, 'inv', Hg.inv, *[[x] for x in H])
    p = both(lambda t: C.vec('p' + t))
    for n in ('pdot', 'vdot'):
        again(C, n, getattr(Hg, n), *[[x, y] for x, y in zip(H, p)])
        again(C, n, getattr(Hg, n), [H[0], p[0]], [H[0], p[1]])
    A = C.snap(H[0])
    C.true('recognized', Hg.ishomogeneousmatrix(A))
    A[3, 0] = C.one
    C.true('no longer', not Hg.ishomogeneousmatrix(A))
    A[3, 0] = C.const(0)
    A[0:3, 0] = -A[0:3, 0]
    C.true('no longer', not Hg.ishomogeneousmatrix(A))
    A[0:3, 0] = -A[0:3, 0]
    C.true('recognized again', Hg.ishomogeneousmatrix(A))


@contract('C03', sym=False, samples=20, bounded='run-time evaluation')
def angles_again(C):
    Hg = C.mod('homogeneousmatrix')
    again(C, 'rotzyx_angles', Hg.rotzyx_angles, *[[x] for x in both(lambda t: C.hom('H' + t))])


@contract('C04', sym=False, samples=20, bounded='run-time evaluation')
def zaligned_again(C):
    again(C, 'zaligned', C.mod('homogeneousmatrix').zaligned,
          *[[x] for x in both(lambda t: C.unit('n' + t))])


@contract('C05')
def adjoint_again(C):
    Hg, T, am = C.mod('homogeneousmatrix'), C.mod('twistvector'), C.mod('adjointmatrix')
    H = both(lambda t: C.hom('H' + t))
    tw = both(lambda t: C.vec('t' + t, 6))
    for n in ('adjoint', 'iadjoint'):
        again(C, n, getattr(Hg, n), *[[x] for x in H])
    again(C, 'adjacency', T.adjacency, *[[x] for x in tw])
    again(C, 'dAdjoint', Hg.dAdjoint, *[[C.Ad(x), y] for x, y in zip(H, tw)])
    again(C, 'inverse', am.inv, *[[C.Ad(x)] for x in H])


@contract('C06', sym=False, samples=40, bounded='run-time evaluation')
def exp_again(C):
    again(C, 'exp', C.mod('twistvector').exp, *[[x] for x in both(
        lambda t: C.vec('t' + t, 6, -3, 3) * C.choice('scale' + t, (0., 1e-4, 1., 4.)))])


@contract('C10')
def solids_again(C):
    mm = C.mod('massmatrix')
    v = both(lambda t: [C.pos(t + str(i), 5) for i in range(4)])
    again(C, 'box', mm.box, *[[C.arr(x[0:3]), x[3]] for x in v])
    again(C, 'ellipsoid', mm.ellipsoid, *[[C.arr(x[0:3]), x[3]] for x in v])
    again(C, 'cylinder', mm.cylinder, *[x[0:3] for x in v])
    again(C, 'sphere', mm.sphere, *[x[0:2] for x in v])


@contract('C11', sym=False, samples=24, bounded='run-time evaluation')
def transport_again(C):
    mm = C.mod('massmatrix')
    v = both(lambda t: [C.massmatrix('M' + t, full=True), C.choice('H' + t, ('any', 'eye'))])
    v = [[a[0] if isinstance(a, tuple) else a, C.eye(4) if b == 'eye' else C.hom('H')]
         for a, b in v]
    again(C, 'transport', mm.transport, *v)
    again(C, 'transport', mm.transport, v[0], [v[0][0], v[1][1]])
    again(C, 'transport', mm.transport, v[0], [v[1][0], v[0][1]])
    A = C.snap(v[0][0])
    C.true('recognized', mm.ismassmatrix(A))
    A[0, 1] += C.one
    C.true('no longer', not mm.ismassmatrix(A))
    A[0, 1] -= C.one
    C.true('recognized again', mm.ismassmatrix(A))


@contract('C12', sym=False, samples=24, bounded='run-time evaluation')
def principal_again(C):
    def M(t):
        x = C.massmatrix('M' + t, full=True)
        return [x[0] if isinstance(x, tuple) else x]
    again(C, 'principalframe', C.mod('massmatrix').principalframe, *both(M))


# ------------------------------------------------------------------------ C26, C27, C28
def moving_shapes(pair):
    def body(C):
        core, sh, co = C.mod('core'), C.mod('shapes'), C.mod('collisions')

        def pose(t, far):
            return C.mkhom(C.rot('R' + t), C.vec('p' + t, 3, -1, 1) + C.arr([far, 0, 0]))
        Z = C.zeros((6, 0))
        bodies = [core.Body(), core.Body()]
        off = [C.mkhom(C.eye(3), C.vec('k%d' % i, 3, -1, 1)) for i in (0, 1)]
        frames = [core.SubFrame(b, K) if C.choice('on a frame%d' % i, (0, 1)) else b
                  for i, (b, K) in enumerate(zip(bodies, off))]

        def build(kind, frame, size):
            if kind == 'sphere':
                return sh.Sphere(frame, size[0])
            if kind == 'box':
                return sh.Box(frame, C.arr(size))
            if kind == 'plane':
                return sh.Plane(frame, (0., 0., 1., size[0]))
            return sh.Point(frame)

        def change(shape, kind, size, inplace):
            if kind == 'sphere':
                shape.radius = size[0]
            elif kind == 'box' and inplace:
                shape.half_extents[:] = size
            elif kind == 'box':
                shape.half_extents = C.arr(size)
            elif kind == 'plane' and inplace:
                shape.coeffs[3] = size[0]
            elif kind == 'plane':
                shape.coeffs = C.arr([0., 0., 1., size[0]])
        solver = getattr(co, '%s_%s_collision' % pair)
        inplace = C.choice('in place', (0, 1))
        what = C.choice('what changes', ('poses', 'sizes', 'both'))
        shapes = None
        for t in ('1', '2', '3'):
            if t == '1' or what != 'sizes':
                for i, b in enumerate(bodies):
                    b.update_dynamic(pose('%s%d' % (t, i), 3. * i * C.choice('far' + t, (0, 1, 3))),
                                     Z, Z, C.zeros(6))
            if t == '1' or what != 'poses':
                size = [[C.pos('s%s%d%d' % (t, i, k), 2) for k in range(3)] for i in (0, 1)]
            if shapes is None:
                shapes = tuple(build(k, f, s) for k, f, s in zip(pair, frames, size))
            elif what != 'poses':
                for s, k, z in zip(shapes, pair, size):
                    change(s, k, z, inplace)
            fresh = tuple(build(k, f, s) for k, f, s in zip(pair, frames, size))
            got, want = solver(shapes), solver(fresh)
            for x, y, n in zip(got, want, ('distance', 'first frame', 'second frame')):
                C.eq(n, x, y)
            junk(C, tuple(got))
    return body


for _p, _pair in (('C26', ('sphere', 'sphere')), ('C26', ('sphere', 'point')),
                  ('C27', ('box', 'sphere')), ('C27', ('box', 'point')),
                  ('C28', ('plane', 'sphere')), ('C28', ('plane', 'point'))):
    contract(_p, 'moving_%s_%s' % _pair, sym=False, samples=40,
             bounded='three instants; run-time evaluation')(moving_shapes(_pair))


# ------------------------------------------------------------------------ C13, C17, C30
@contract('C13', sym=False, samples=16, bounded='two worlds; run-time evaluation')
def poses_again(C):
    """What the callers do to the arrays they got does not change the next update, here or in
    another world."""
    import gen
    worlds = [gen.robot(C, 1, 3, dyn=False, tag=t) for t in 'ab']
    for R in worlds:
        R.w.init()
    for k in (0, 1, 2):
        for R in worlds:
            (R.w.update_dynamic if C.choice('dyn%d' % k, (0, 1)) else R.w.update_geometric)()
        for R in worlds:
            C.eq('ground', R.w.ground.pose, C.eye(4))
            for b in R.bodies:
                C.eq('pose', b.pose, R.kinematics(b)[0])
        for R in worlds:
            for b in [R.w.ground] + R.bodies:
                junk(C, b.pose)


@contract('C30')
def velocity_given(C):
    """The velocity of the world that a caller got is its own."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    v = C.vec('v', 3)
    js = [J.RzJoint(gvel=v[0]), J.RyRxJoint(gvel=list(v[1:3]))]
    b = core.Body()
    w.add_link(w.ground, js[0], b, b, js[1], core.Body())
    w.init()
    g = w.gvel
    C.eq('velocity', g, v)
    junk(C, g)
    C.eq('kept', w.gvel, v)
    C.eq('kept by the joints', list(js[0].gvel) + list(js[1].gvel), v)
    g = w.gvel
    js[0].gvel[:] = C.real('x')
    C.eq('what was read before', g, v)


def given(C):
    core, J, ct = C.mod('core'), C.mod('joints'), C.mod('controllers')
    w = core.World()
    m = [C.real('m%d' % i, .5, 5) for i in (0, 1)]
    for x in m:
        C.assume_lt(0, x)
        b = core.Body(mass=C.diag([C.one, C.one, C.one, x, x, x]))
        w.add_link(w.ground, J.TyJoint(gvel=C.real('v', -2, 2)), b)
    w.register(ct.WeightController())
    w.init()
    w.update_dynamic()
    w.update_controllers(C.one / 10)
    return w, m


@contract('C17')
def results_given(C):
    w, m = given(C)
    f, Y = w.gforce, w.admittance
    want = C.arr([-C.const(981) / 100 * x for x in m]), C.diag([C.one / (10 * x) for x in m])
    for k in (0, 1):
        C.eq('force', f, want[0])
        C.eq('admittance', Y, want[1])
        junk(C, f)
        junk(C, Y)
        f, Y = w.gforce, w.admittance
    w.update_constraints(C.one / 10)
    C.eq('force', w.gforce, want[0])
    old = w.gforce
    w.update_controllers(C.one / 5)
    C.eq('what was read before', old, want[0])
    C.eq('what was read before', Y, want[1])


@contract('C36', sym=False, samples=12, bounded='two bodies; run-time evaluation')
def com_given(C):
    core, J, ob = C.mod('core'), C.mod('joints'), C.mod('observers')
    w, m = given(C)
    o = ob.CoMObserver(list(w.ground.iter_descendant_bodies()))
    o.init(w)
    o.update(C.one / 10)
    first = [o.get_CoMPosition(), o.get_CoMJacobian(), o.get_CoMdJacobian()]
    kept = [C.snap(x) for x in first]
    for x in first:
        junk(C, x)
    for x, y in zip(kept, [o.get_CoMPosition(), o.get_CoMJacobian(), o.get_CoMdJacobian()]):
        C.eq('given twice', x, y)
    for j in w.iterjoints():
        j.gpos[:] = C.one
    old = [o.get_CoMPosition(), o.get_CoMJacobian(), o.get_CoMdJacobian()]
    w.update_dynamic()
    o.update(C.one / 10)
    for x, y in zip(old, kept):
        C.eq('what was read before', x, y)
    C.eq('position', o.get_CoMPosition(), [0, 1, 0])
