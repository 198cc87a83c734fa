"""Mass matrices."""
from pvc.run import contract
from c_hom import proper

WHY = 'congruence (Ad^T D Ad) of a positive mass and a positive definite inertia'


# ------------------------------------------------------------------------ C10
def _diag6(C, I, m):
    return C.diag(list(I) + [m, m, m])


@contract('C10')
def solids(C):
    M = C.mod('massmatrix')
    m = C.pos('m')
    x, y, z = C.pos('x'), C.pos('y'), C.pos('z')
    Mb = M.box((x, y, z), m)
    C.eq('box (half extents)', Mb, _diag6(C, [m * (y * y + z * z) / 3, m * (x * x + z * z) / 3,
                                              m * (x * x + y * y) / 3], m))
    Me = M.ellipsoid((x, y, z), m)
    C.eq('ellipsoid', Me, _diag6(C, [m * (y * y + z * z) / 5, m * (x * x + z * z) / 5,
                                     m * (x * x + y * y) / 5], m))
    Mc = M.cylinder(x, y, m)
    t = m * (y * y / 4 + x * x / 12)
    C.eq('cylinder (axis z)', Mc, _diag6(C, [t, t, m * y * y / 2], m))
    Ms = M.sphere(x, m)
    i = 2 * m * x * x / 5
    C.eq('sphere', Ms, _diag6(C, [i, i, i], m))
    C.eq('a sphere is a round ellipsoid', Ms, M.ellipsoid((x, x, x), m))
    for n, A in (('box', Mb), ('ellipsoid', Me), ('cylinder', Mc), ('sphere', Ms)):
        C.true(n + ' is a mass matrix', M.ismassmatrix(A))
        C.true(n + ' is a semi definite mass matrix', M.ismassmatrix(A, True))


@contract('C10')
def array_arguments(C):
    M = C.mod('massmatrix')
    m = C.pos('m')
    d = C.arr([C.pos('x'), C.pos('y'), C.pos('z')])
    A = C.call(M.box, d, m)
    B = C.call(M.ellipsoid, d, m)
    C.eq('box', A, M.box(tuple(d), m))
    C.eq('ellipsoid', B, M.ellipsoid(tuple(d), m))
    C.eq('box/ellipsoid ratio', 5 * B[0:3, 0:3], 3 * A[0:3, 0:3])


# ------------------------------------------------------------------------ C11
@contract('C11')
def transport_value(C):
    """Mass, center of mass and inertia of the same solid seen from another frame."""
    Mm = C.mod('massmatrix')
    M, m, com, Ic = C.massmatrix('M', full=True)
    H = C.hom('H')
    C.certify_pd(M, WHY)
    s = C.frame('args', M, H)
    N = Mm.transport(M, H)
    C.unchanged('arguments', s)
    A = C.Ad(H)
    C.eq('congruence', N, A.T @ M @ A)
    R, p = H[0:3, 0:3], H[0:3, 3]
    C.eq('same solid', N, C.inertia('N', m, R.T @ (com - p), R.T @ Ic @ R))
    C.is_fresh('transport', N, M)


@contract('C11')
def transport_energy(C):
    """The kinetic energy does not depend on the frame."""
    Mm = C.mod('massmatrix')
    M = C.massmatrix('M')
    H = C.hom('H')
    C.certify_pd(M, WHY)
    t = C.vec('t', 6)
    N = Mm.transport(M, H)
    u = C.Ad(H) @ t
    C.eq('energy', t @ (N @ t), u @ (M @ u))


@contract('C11')
def transport_composition(C):
    Mm = C.mod('massmatrix')
    m = C.pos('m')
    I = [C.pos('I%d' % i) for i in range(3)]
    M = C.diag(I + [m, m, m])
    H, K = C.hom('H'), C.mkhom(C.eye(3), C.vec('p'))
    if C.choice('order', [0, 1]):
        H, K = K, H
    A = C.Ad(H)
    C.certify_pd(M, WHY)
    N = A.T @ M @ A
    C.certify_pd(N, WHY)
    C.eq('composition', Mm.transport(Mm.transport(M, H), K), Mm.transport(M, H @ K))


@contract('C11')
def valid(C):
    """Every solid's mass matrix is accepted."""
    Mm = C.mod('massmatrix')
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    com = C.vec('com', 3, -3, 3)
    I = C.spd('I', 3)
    M = C.inertia('M', m, com, I)
    C.certify_pd(M, WHY)
    C.true('accepted', Mm.ismassmatrix(M))
    C.true('accepted as semi definite', Mm.ismassmatrix(M, True))


@contract('C11')
def valid_diag(C):
    """Diagonal matrices: accepted exactly when every term is positive (>= 0)."""
    Mm = C.mod('massmatrix')
    m = C.real('m', None, None)
    I = [C.real('I%d' % i, None, None) for i in range(3)]
    d = I + [m, m, m]
    M = C.diag(d)
    good = all([x > 0 for x in d])
    semi = all([x >= 0 for x in d])
    C.eq('definite', bool(Mm.ismassmatrix(M)), good)
    C.eq('semi definite', bool(Mm.ismassmatrix(M, True)), semi)


@contract('C11')
def invalid(C):
    Mm = C.mod('massmatrix')
    kind = C.choice('kind', ['mass', 'asym', 'coupling', 'shape'])
    m = C.real('m', 1, 3)
    M = C.diag([C.real('I%d' % i, 1, 3) for i in range(3)] + [m, m, m])
    e = C.real('e', 0, 1, strict=True, lo_sample=.01)
    C.assume_lt((1 + m) / 1000, e)
    if kind == 'mass':
        i = C.choice('i', [3, 4, 5])
        M[i, i] = M[i, i] + e
    elif kind == 'asym':
        i, j = C.choice('ij', [(0, 1), (2, 0), (1, 3), (5, 0), (4, 2)])
        M[i, j] = M[i, j] + e
    elif kind == 'coupling':
        i, j = C.choice('ij', [(3, 4), (3, 5), (4, 5)])
        M[i, j] = M[j, i] = e / 2
    else:
        M = M[0:5, 0:5]
    C.true('rejected', not Mm.ismassmatrix(M))
    C.true('rejected as semi definite', not Mm.ismassmatrix(M, True))
    if kind != 'shape':
        C.raises('transport', AssertionError, lambda: Mm.transport(M, C.eye(4)))
        C.raises('principalframe', AssertionError, lambda: Mm.principalframe(M))


@contract('C11')
def body_mass(C):
    """A body takes massless and definite matrices, not indefinite ones."""
    core = C.mod('core')
    C.eq('default', core.Body().mass, C.zeros((6, 6)))
    m = C.real('m', -2, 2)
    I = C.pos('I')
    M = C.diag([I, I, I, m, m, m])
    if m >= 0:
        C.eq('mass', core.Body(mass=M).mass, M)
    else:
        C.raises('negative mass', AssertionError, lambda: core.Body(mass=M))


# ------------------------------------------------------------------------ C12
@contract('C12', budget=200)
def principal(C):
    """Every definite mass matrix, repeated principal moments included."""
    Mm = C.mod('massmatrix')
    m = C.real('m', 0, 100, strict=True, lo_sample=.3)
    com = C.vec('com', 3, -3, 3)
    # principal moments in ascending order, some of them possibly equal
    s0 = C.real('s0', 0, 3, strict=True, lo_sample=.3)
    e1, e2 = C.real('e1', 0, 3), C.real('e2', 0, 3)
    s = [s0, s0 + e1, s0 + e1 + e2]
    # any orthonormal basis of principal axes, left handed ones included
    side = C.choice('side', [1, -1])
    R = C.rot('R')
    if side < 0:
        R[:, 2] = -R[:, 2]
    Ic = R @ C.diag(s) @ R.T
    M = C.inertia('M', m, com, Ic)
    C.certify_pd(M, WHY)

    def eigh(A):
        """Ascending eigenvalues and an orthonormal basis of eigenvectors."""
        C.eq('eigh is given the inertia at the center of mass', A, Ic)
        return C.arr(s), R.copy()

    def argmax(a, axis):
        """Some index: the contract holds for any."""
        return C.np.array([C.choice('argmax%d' % i, [0, 1, 2]) for i in range(3)])
    if not C.concrete():
        C.S.lazy_abs = True
    C.stub('eigh', eigh)
    C.stub('argmax', argmax)
    C.note('numpy.linalg.eigh: ascending eigenvalues, orthonormal eigenvectors')
    sn = C.frame('M', M)
    H = Mm.principalframe(M)
    C.unchanged('M', sn)
    C.eq('origin at the center of mass', H[0:3, 3], com)
    proper(C, 'orientation', H[0:3, 0:3])
    C.eq('last row', H[3], C.arr([0, 0, 0, 1]))
    A = C.Ad(H)
    D = A.T @ M @ A
    for i in range(6):
        for j in range(6):
            if i != j:
                C.eq('diagonal in the principal frame', D[i, j], 0)
    C.eq('mass', D[3:6, 3:6], m * C.eye(3))


@contract('C12', sym=False, samples=60, bounded='sampled aligned solids')
def principal_aligned(C):
    """Solids whose moments are repeated or whose axes are aligned with the frame."""
    Mm = C.mod('massmatrix')
    m = C.real('m', .3, 10)
    k = C.choice('equal', ['all', 'xy', 'yz', 'none'])
    a, b, c = C.real('a', .3, 3), C.real('b', .3, 3), C.real('c', .3, 3)
    s = {'all': [a, a, a], 'xy': [a, a, c], 'yz': [a, c, c], 'none': [a, b, c]}[k]
    H = C.hom('H') if C.choice('moved', [0, 1]) else C.eye(4)
    A = C.Ad(H)
    M = A.T @ C.diag(s + [m, m, m]) @ A
    P = Mm.principalframe(M)
    proper(C, 'orientation', P[0:3, 0:3])
    B = C.Ad(P)
    D = B.T @ M @ B
    C.eq('diagonal', D, C.diag([D[i, i] for i in range(6)]))
    C.eq('origin', P[0:3, 3], C.hinv(H)[0:3, 3])
