"""Homogeneous matrices, twists, adjoints."""
from pvc.run import contract


def Rz(C, a):
    c, s = C.cos(a), C.sin(a)
    return C.arr([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def Ry(C, a):
    c, s = C.cos(a), C.sin(a)
    return C.arr([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def Rx(C, a):
    c, s = C.cos(a), C.sin(a)
    return C.arr([[1, 0, 0], [0, c, -s], [0, s, c]])


def is_hom(C, name, H, R, p):
    C.eq(name + '.R', H[0:3, 0:3], R)
    C.eq(name + '.p', H[0:3, 3], C.arr(p))
    C.eq(name + '.bottom', H[3], C.arr([0, 0, 0, 1]))
    C.eq(name + '.shape', H.shape[0] * 10 + H.shape[1], 44)


def proper(C, name, R):
    C.eq(name + '.orthogonal', R.T @ R, C.eye(3))
    C.eq(name + '.det', C.det(R), 1)


def _angle(C, n):
    return C.real(n, None, None)


@contract('C01')
def transl(C):
    Hg = C.mod('homogeneousmatrix')
    p = C.vec('p')
    is_hom(C, 'transl', Hg.transl(p[0], p[1], p[2]), C.eye(3), p)


@contract('C01')
def elementary_rotations(C):
    Hg = C.mod('homogeneousmatrix')
    a = _angle(C, 'a')
    for n, f in (('rotx', Rx), ('roty', Ry), ('rotz', Rz)):
        H = getattr(Hg, n)(a)
        is_hom(C, n, H, f(C, a), [0, 0, 0])
        proper(C, n, H[0:3, 0:3])


@contract('C01')
def composed_rotations(C):
    Hg = C.mod('homogeneousmatrix')
    z, y, x = [_angle(C, n) for n in 'zyx']
    for n, H, R in (('rotzyx', Hg.rotzyx(z, y, x), Rz(C, z) @ Ry(C, y) @ Rx(C, x)),
                    ('rotzy', Hg.rotzy(z, y), Rz(C, z) @ Ry(C, y)),
                    ('rotzx', Hg.rotzx(z, x), Rz(C, z) @ Rx(C, x)),
                    ('rotyx', Hg.rotyx(y, x), Ry(C, y) @ Rx(C, x))):
        is_hom(C, n, H, R, [0, 0, 0])
        proper(C, n, H[0:3, 0:3])
        C.eq(n + '.matches the elementary ones', H, {
            'rotzyx': lambda: Hg.rotz(z) @ Hg.roty(y) @ Hg.rotx(x),
            'rotzy': lambda: Hg.rotz(z) @ Hg.roty(y),
            'rotzx': lambda: Hg.rotz(z) @ Hg.rotx(x),
            'rotyx': lambda: Hg.roty(y) @ Hg.rotx(x)}[n]())


# ------------------------------------------------------------------------ C02
@contract('C02')
def inverse(C):
    Hg = C.mod('homogeneousmatrix')
    H = C.hom('H')
    K = C.call(Hg.inv, H)
    C.eq('inverse value', K, C.hinv(H))
    C.eq('H inv(H)', H @ K, C.eye(4))
    C.eq('inv(H) H', K @ H, C.eye(4))
    C.eq('involution', Hg.inv(K), H)
    C.is_fresh('inv', K, H)


@contract('C02')
def inverse_of_product(C):
    Hg = C.mod('homogeneousmatrix')
    A, B = C.hom('A'), C.hom('B')
    C.eq('inv(AB)', Hg.inv(A @ B), Hg.inv(B) @ Hg.inv(A))


@contract('C02')
def displacement(C):
    Hg = C.mod('homogeneousmatrix')
    H = C.hom('H')
    p = C.vec('p')
    v = C.vec('v')
    a = C.call(Hg.pdot, H, p)
    b = C.call(Hg.vdot, H, v)
    C.eq('point', a, H[0:3, 0:3] @ p + H[0:3, 3])
    C.eq('vector', b, H[0:3, 0:3] @ v)
    C.eq('back', Hg.pdot(Hg.inv(H), a), p)
    C.eq('vector back', Hg.vdot(Hg.inv(H), b), v)
    C.eq('length kept', b @ b, v @ v)
    C.eq('point + vector', Hg.pdot(H, p + v), a + b)


@contract('C02')
def recognizer(C):
    """ishomogeneousmatrix accepts every homogeneous matrix, and only orientation
    parts of unit determinant with a last row 0 0 0 1."""
    Hg = C.mod('homogeneousmatrix')
    kind = C.choice('kind', ['good', 'row', 'det', 'mirror', 'shape'])
    H = C.hom('H')
    if kind == 'good':
        C.true('accepts', Hg.ishomogeneousmatrix(H))
        return
    if kind == 'row':
        r = C.vec('row', 4)
        i = C.choice('i', [0, 1, 2, 3])
        C.assume_ne(r[i], 1 if i == 3 else 0)
        if C.choice('others', ['kept', 'any']) == 'kept':
            H[3, i] = r[i]
        else:
            H[3, :] = r
    elif kind == 'det':
        k = C.real('k', 1, 3)
        C.assume_lt(1 + C.const(1) / 1000, k)
        H[0:3, 0] = k * H[0:3, 0]
    elif kind == 'mirror':
        H[0:3, 1] = -H[0:3, 1]
    else:
        H = H[C.choice('cut', [slice(0, 3), slice(1, 4)])]
    C.true('rejects ' + kind, not Hg.ishomogeneousmatrix(H))
    if kind != 'shape':
        C.raises('inv rejects', AssertionError, lambda: Hg.inv(H))
        C.raises('pdot rejects', AssertionError, lambda: Hg.pdot(H, C.vec('p')))
        C.raises('vdot rejects', AssertionError, lambda: Hg.vdot(H, C.vec('p')))


# ------------------------------------------------------------------------ C03
def _half_pi(C):
    return C.pi / 2


@contract('C03')
def angles_regular(C):
    """Every orientation away from gimbal lock is recovered exactly."""
    Hg = C.mod('homogeneousmatrix')
    z, y, x = C.real('z'), C.real('y'), C.real('x')
    tol = C.const(1) / 10 ** 9
    H = C.mkhom(Rz(C, z) @ Ry(C, y) @ Rx(C, x), C.vec('p'))
    C.note('every orientation is Rz Ry Rx of some angles')
    C.assume_lt(2 * tol, abs(C.cos(y)))
    az, ay, ax = C.call(Hg.rotzyx_angles, H)
    R = Rz(C, az) @ Ry(C, ay) @ Rx(C, ax)
    C.eq('angles rebuild the orientation', R, H[0:3, 0:3])
    C.le('pitch in [-pi/2, pi/2]', 0, C.cos(ay), tol=1e-9)


@contract('C03')
def angles_gimbal_lock(C):
    """At pitch = +-pi/2, whatever yaw and roll."""
    Hg = C.mod('homogeneousmatrix')
    z, x = C.real('z'), C.real('x')
    s = C.choice('side', [1, -1])
    H = Hg.rotzyx(z, s * _half_pi(C), x)
    az, ay, ax = C.call(Hg.rotzyx_angles, H)
    C.eq('angles rebuild the orientation', Rz(C, az) @ Ry(C, ay) @ Rx(C, ax), H[0:3, 0:3])


@contract('C03', sym=False, samples=200, bounded='pitch within 1e-12..1e-7 of +-pi/2, sampled')
def angles_near_gimbal_lock(C):
    Hg = C.mod('homogeneousmatrix')
    z, x = C.real('z', -3.1, 3.1), C.real('x', -3.1, 3.1)
    s = C.choice('side', [1, -1])
    e = C.real('e', -12, -7)
    H = Hg.rotzyx(z, s * (C.pi / 2 - 10 ** e), x)
    az, ay, ax = C.call(Hg.rotzyx_angles, H)
    C.eq('angles rebuild the orientation', Rz(C, az) @ Ry(C, ay) @ Rx(C, ax), H[0:3, 0:3],
         tol=1e-6)


# ------------------------------------------------------------------------ C04
@contract('C04')
def zaligned(C):
    Hg = C.mod('homogeneousmatrix')
    v = C.unit('v')
    H = C.call(Hg.zaligned, v)
    C.eq('z axis', H[0:3, 2], v)
    proper(C, 'zaligned', H[0:3, 0:3])
    C.eq('origin', H[0:3, 3], C.zeros(3))
    C.eq('last row', H[3], C.arr([0, 0, 0, 1]))


@contract('C04', sym=False, samples=40, bounded='norms within 1e-9 of one, sampled')
def zaligned_nearly_unit(C):
    Hg = C.mod('homogeneousmatrix')
    v = C.unit('v') * (1 + C.real('e', -9e-10, 9e-10))
    H = C.call(Hg.zaligned, v)
    C.eq('z axis', H[0:3, 2], v)
    C.eq('orthonormal', H[0:3, 0:3].T @ H[0:3, 0:3], C.eye(3), tol=1e-8)


@contract('C04')
def zaligned_rejects(C):
    Hg = C.mod('homogeneousmatrix')
    v = C.vec('v', 3)
    C.assume_lt(C.const(11) / 10, v @ v)
    C.raises('needs a unit vector', AssertionError, lambda: Hg.zaligned(v))


# ------------------------------------------------------------------------ C05
@contract('C05')
def adjoint_value(C):
    Hg = C.mod('homogeneousmatrix')
    H = C.hom('H')
    A = C.call(Hg.adjoint, H)
    C.eq('adjoint', A, C.Ad(H))
    B = C.call(Hg.iadjoint, H)
    C.eq('iadjoint', B, C.Ad(C.hinv(H)))
    C.eq('inverse', A @ B, C.eye(6))
    I = C.call(C.mod('adjointmatrix').inv, A)
    C.eq('adjointmatrix.inv', I @ A, C.eye(6))
    C.eq('adjointmatrix.inv value', I, B)


@contract('C05')
def adjoint_changes_frame(C):
    """Ad(H) maps the twist expressed in the new frame: hat(Ad t) = H hat(t) H^-1."""
    Hg = C.mod('homogeneousmatrix')
    H = C.hom('H')
    t = C.vec('t', 6)
    C.eq('conjugation', C.hat(Hg.adjoint(H) @ t), H @ C.hat(t) @ C.hinv(H))


@contract('C05')
def adjoint_product(C):
    Hg = C.mod('homogeneousmatrix')
    A, B = C.hom('A'), C.hom('B')
    C.eq('Ad(AB)', Hg.adjoint(A @ B), Hg.adjoint(A) @ Hg.adjoint(B))


@contract('C05')
def adjacency(C):
    T = C.mod('twistvector')
    a, b = C.vec('a', 6), C.vec('b', 6)
    A = C.call(T.adjacency, a)
    C.eq('adjacency', A, C.ad(a))
    X, Y = C.hat(a), C.hat(b)
    C.eq('bracket', C.hat(A @ b), X @ Y - Y @ X)
    C.eq('antisymmetry', A @ b, -(T.adjacency(b) @ a))


@contract('C05')
def adjoint_rejects(C):
    Hg = C.mod('homogeneousmatrix')
    H = C.hom('H')
    H[0:3, 1] = -H[0:3, 1]
    C.raises('adjoint needs a homogeneous matrix', AssertionError, lambda: Hg.adjoint(H))


def motion(C):
    """A rigid motion H(t) with body twist T: (items, rates, H(items), H, T)."""
    q = C.rotstate('H')
    p = C.vec('p', 3)
    T = C.vec('T', 6)
    R = C.rot_of(q.q)
    v = R @ T[3:6]

    def at(f):
        return C.deriv(lambda Q, x, y, z: f(C.mkhom(Q, C.arr([x, y, z]))),
                       [q, p[0], p[1], p[2]], [T[0:3], v[0], v[1], v[2]])
    return C.mkhom(R, p), T, at


@contract('C05')
def adjoint_recognizer(C):
    """isadjointmatrix accepts the adjoint of every displacement, and nothing else."""
    Hg, ok = C.mod('homogeneousmatrix'), C.mod('adjointmatrix').isadjointmatrix
    A = Hg.adjoint(C.hom('H'))
    kind = C.choice('kind', ['good', 'product', 'corner', 'blocks', 'det', 'mirror', 'lower',
                             'shape'])
    if kind == 'good':
        before = C.snap(A)
        C.true('accepts', C.call(ok, A))
        C.eq('argument kept', A, before)
        return
    if kind == 'product':
        C.true('accepts products and inverses',
               ok(A @ Hg.adjoint(C.hom('K'))) and ok(Hg.iadjoint(C.hom('K'))))
        return
    i, j = C.choice('i', [0, 1, 2]), C.choice('j', [0, 1, 2])
    d = C.real('d')
    C.assume_lt(C.const(1) / 1000, d * d)
    if kind == 'corner':
        A[i, 3 + j] = d
    elif kind == 'blocks':
        A[3 + i, 3 + j] += d
    elif kind == 'det':
        k = C.real('k', 1, 3)
        C.assume_lt(1 + C.const(1) / 1000, k)
        A[0:3, i] = k * A[0:3, i]
        A[3:6, 3 + i] = k * A[3:6, 3 + i]
    elif kind == 'mirror':
        A[0:3, i] = -A[0:3, i]
        A[3:6, 3 + i] = -A[3:6, 3 + i]
    elif kind == 'lower':
        S = C.zeros((3, 3))
        S[i, j] = d
        A[3:6, 0:3] += S @ A[0:3, 0:3]
    else:
        A = A[C.choice('cut', [slice(0, 3), slice(0, 5)])]
    C.true('rejects ' + kind, not ok(A))


@contract('C05')
def adjoint_derivative(C):
    Hg = C.mod('homogeneousmatrix')
    H, T, ddt = motion(C)
    C.eq('dH/dt', ddt(lambda K: K), H @ C.hat(T), tol=1e-5)
    A = Hg.adjoint(H)
    C.eq('dAdjoint', C.call(Hg.dAdjoint, A, T), ddt(lambda K: C.Ad(K)), tol=1e-5)


# ------------------------------------------------------------------------ C06
def exp_spec(C, tw, a, b, c):
    w, v = tw[0:3], tw[3:6]
    W = C.skew(w)
    R = C.eye(3) + a * W + b * (W @ W)
    p = a * v + b * (W @ v) + c * (w * (w @ v))
    return C.mkhom(R, p)


@contract('C06')
def exp_regular(C):
    """Closed form of the exponential of a twist (rotation angle >= 1e-3)."""
    T = C.mod('twistvector')
    tw = C.vec('t', 6)
    w = tw[0:3]
    t = C.norm(w)
    C.assume_le(C.const(1) / 1000, t)
    H = C.call(T.exp, tw)
    s, c = C.sin(t), C.cos(t)
    C.eq('exp', H, exp_spec(C, tw, s / t, (1 - c) / t ** 2, (t - s) / t ** 3))
    proper(C, 'exp', H[0:3, 0:3])
    C.eq('the rotation keeps its axis', H[0:3, 0:3] @ w, w)
    C.eq('last row', H[3], C.arr([0, 0, 0, 1]))


@contract('C06', budget=100)
def exp_is_the_flow(C):
    """exp(s t) solves H' = H hat(t): with exp(0) = I this characterizes it."""
    T = C.mod('twistvector')
    u = C.unit('u')
    n = C.real('n', 0, 5, strict=True)
    v = C.vec('v', 3)
    s = C.real('s', 0, 5, strict=True, lo_sample=.4)
    C.assume_le(C.const(1) / 100, s * n)

    def f(x):
        return T.exp(C.arr(list(x * n * u) + list(x * v)))
    H = f(s)
    tw = C.arr(list(n * u) + list(v))
    C.eq('flow', C.deriv(f, [s], [1]), H @ C.hat(tw), tol=1e-4)


@contract('C06')
def exp_small(C):
    """Near the identity the result stays within 1e-9 of the exponential."""
    T = C.mod('twistvector')
    k = C.const(1) / 1000
    w = C.vec('w', 3, -.0005, .0005)
    v = C.vec('v', 3)
    t2 = w @ w
    C.assume_lt(t2, k * k)
    tw = C.arr(list(w) + list(v))
    H = C.call(T.exp, tw)
    if C.concrete():
        import mpmath
        t = mpmath.sqrt(mpmath.mpf(float(t2)))
        if t == 0:
            da = db = dc = 0.
        else:
            da = float(mpmath.sin(t) / t - 1 + t ** 2 / 6)
            db = float((1 - mpmath.cos(t)) / t ** 2 - mpmath.mpf(1) / 2)
            dc = float((t - mpmath.sin(t)) / t ** 3 - mpmath.mpf(1) / 6)
    else:
        e = C.const(1) / 10 ** 7
        da, db, dc = [C.real(n, -b, b, pre=True)
                      for n, b in (('da', e * e), ('db', e), ('dc', e))]
        C.note('Taylor bounds for a rotation angle t < 1e-3: |sin t/t - 1 + t^2/6| <= 1e-14, '
               '|(1-cos t)/t^2 - 1/2| <= 1e-7, |(t-sin t)/t^3 - 1/6| <= 1e-7')
    E = exp_spec(C, tw, 1 - t2 / 6 + da, C.const(1) / 2 + db, C.const(1) / 6 + dc)
    C.le('orientation below', H[0:3, 0:3], E[0:3, 0:3] + C.const(1) / 10 ** 12, tol=1e-13)
    C.le('orientation above', E[0:3, 0:3], H[0:3, 0:3] + C.const(1) / 10 ** 12, tol=1e-13)
    m = C.const(1) / 10 ** 9
    for i in range(3):
        # v enters linearly: test each basis direction
        d = H[i, 3] - E[i, 3]
        b = m * sum(abs(x) for x in v) if C.concrete() else None
        if C.concrete():
            C.le('position', abs(d), b, tol=1e-13)
        else:
            for j in range(3):
                g = C.diff(d, {v[j].varname(): C.one})
                C.le('position below', g, m)
                C.le('position above', -g, m)
                C.eq('position linear in the velocity',
                     sum(C.diff(d, {v[j].varname(): C.one}) * v[j] for j in range(3)), d)
    C.eq('last row', H[3], C.arr([0, 0, 0, 1]))


@contract('C06')
def exp_pure_translation(C):
    T = C.mod('twistvector')
    v = C.vec('v', 3)
    H = T.exp(C.arr([0, 0, 0] + list(v)))
    C.eq('exp', H, C.mkhom(C.eye(3), v))


# ------------------------------------------------------------------------ C07
@contract('C07')
def rigid_motion(C):
    RM = C.mod('rigidmotion').RigidMotion
    H, T, ddt = motion(C)

    class M(RM):
        pose = property(lambda s: H)
        twist = property(lambda s: T)
    m = M()
    again(C, RM, H, T)
    C.eq('ipose', m.ipose, C.hinv(H))
    C.eq('adjoint', m.adjoint, C.Ad(H))
    C.eq('iadjoint', m.iadjoint, C.Ad(C.hinv(H)))
    C.eq('adjacency', m.adjacency, C.ad(T))
    itw = m.itwist
    C.eq('itwist', C.hat(itw), -(H @ C.hat(T) @ C.hinv(H)))
    C.eq('itwist is the velocity of the inverse motion', ddt(lambda K: C.hinv(K)),
         C.hinv(H) @ C.hat(itw), tol=1e-5)
    C.eq('iadjacency', m.iadjacency, C.ad(itw))


def again(C, RM, H, T):
    """Every view of a motion follows it when it changes."""
    class M(RM):
        pose = property(lambda s: s.now[0])
        twist = property(lambda s: s.now[1])
    m = M()
    H2 = C.mkhom(H[0:3, 0:3], C.vec('p_later', 3))
    H3, T3 = C.hom('H_end'), C.vec('T_end', 6)
    for m.now in ((H, T), (H2, T), (H2, T3), (H3, T), (H3, T3), (H, T)):
        H_, T_ = m.now
        iT = -(C.Ad(H_) @ T_)
        C.eq('inverse pose at another time', m.ipose, C.hinv(H_))
        C.eq('adjoint at another time', m.adjoint, C.Ad(H_))
        C.eq('inverse adjoint at another time', m.iadjoint, C.Ad(C.hinv(H_)))
        C.eq('adjacency at another time', m.adjacency, C.ad(T_))
        C.eq('inverse twist at another time', m.itwist, iT)
        C.eq('inverse adjacency at another time', m.iadjacency, C.ad(iT))
        C.eq('adjoint derivative at another time', m.dadjoint, C.Ad(H_) @ C.ad(T_))
        C.eq('inverse adjoint derivative at another time', m.idadjoint,
             C.Ad(C.hinv(H_)) @ C.ad(iT))


@contract('C07')
def adjoint_derivatives(C):
    RM = C.mod('rigidmotion').RigidMotion
    H, T, ddt = motion(C)

    class M(RM):
        pose = property(lambda s: H)
        twist = property(lambda s: T)
    m = M()
    C.eq('dadjoint', m.dadjoint, ddt(lambda K: C.Ad(K)), tol=1e-5)
    C.eq('idadjoint', m.idadjoint, ddt(lambda K: C.Ad(C.hinv(K))), tol=1e-5)
