"""Random robots for the bounded run-time contracts, and an independent oracle of their
kinematics and dynamics.

Nothing here calls the kinematics of the code: poses, jacobians and their derivatives come
from the product of exponentials along the path from the ground, from the names of the
joints, their positions and velocities and the poses of the frames on the bodies.
"""
import math
import numpy as np
from pvc.poke import poke

AX = {'x': np.array([1., 0, 0]), 'y': np.array([0, 1., 0]), 'z': np.array([0, 0, 1.])}
CLASSES = ('RzRyRx', 'RzRy', 'RzRx', 'RyRx', 'Rz', 'Ry', 'Rx', 'TxTyTz', 'Tx', 'Ty', 'Tz',
           'Free', 'Fixed')


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def hom(R=None, p=(0, 0, 0)):
    H = np.eye(4)
    if R is not None:
        H[0:3, 0:3] = R
    H[0:3, 3] = p
    return H


def rot(w):
    t = float(np.linalg.norm(w))
    K = skew(w)
    if t < 1e-14:
        return np.eye(3) + K
    return np.eye(3) + math.sin(t) / t * K + (1 - math.cos(t)) / t ** 2 * (K @ K)


def hinv(H):
    return hom(H[0:3, 0:3].T, -H[0:3, 0:3].T @ H[0:3, 3])


def Ad(H):
    R, p = H[0:3, 0:3], H[0:3, 3]
    A = np.zeros((6, 6))
    A[0:3, 0:3] = A[3:6, 3:6] = R
    A[3:6, 0:3] = skew(p) @ R
    return A


def ad(t):
    A = np.zeros((6, 6))
    A[0:3, 0:3] = A[3:6, 3:6] = skew(t[0:3])
    A[3:6, 0:3] = skew(t[3:6])
    return A


def screw(T, dt):
    """exp of the twist T during dt, by its series (independent of closed formulas)."""
    X = np.zeros((4, 4))
    X[0:3, 0:3] = skew(T[0:3]) * dt
    X[0:3, 3] = np.asarray(T[3:6]) * dt
    n = max(0, int(math.ceil(math.log2(max(1e-9, float(np.abs(X).sum()))))) + 6)
    X = X / 2. ** n
    E, t = np.eye(4), np.eye(4)
    for k in range(1, 12):
        t = t @ X / k
        E = E + t
    for k in range(n):
        E = E @ E
    return E


def elementary(kind):
    """'RzRyRx' -> list of (rotation?, axis)."""
    return [(kind[i] == 'R', AX[kind[i + 1]]) for i in range(0, len(kind), 2)]


def unit_screws(kind, gpos):
    """The displacements a joint is made of: list of (displacement, twist it moves with or
    None), the columns of the free joint being six unit twists at the end."""
    if kind == 'Fixed':
        return []
    if kind == 'Free':
        return [(np.array(gpos, dtype=float), np.eye(6))]
    r = []
    for (isrot, a), q in zip(elementary(kind), np.ravel(gpos)):
        z = np.zeros(3)
        if isrot:
            r.append((hom(rot(a * q)), np.concatenate([a, z]).reshape(6, 1)))
        else:
            r.append((hom(None, a * q), np.concatenate([z, a]).reshape(6, 1)))
    return r


class Link(object):
    def __init__(self, parent, body, joint, kind, f0, f1, H0, H1):
        self.parent, self.body, self.joint, self.kind = parent, body, joint, kind
        self.f0, self.f1, self.H0, self.H1 = f0, f1, H0, H1


class Robot(object):
    """A world and what it was built from."""

    def __init__(self, C, w):
        self.C, self.w = C, w
        self.links = []             # in the order they were added
        self.mass, self.visc = {}, {}
        self.bodies = []

    def kids(self, body):
        return [l for l in self.links if l.parent is body]

    def order(self, body=None):
        """Depth first."""
        r = []
        for l in self.kids(self.w.ground if body is None else body):
            r.append(l)
            r += self.order(l.body)
        return r

    def ndof(self):
        return sum(size(l.kind) for l in self.links)

    def dofs(self):
        d, k = {}, 0
        for l in self.order():
            d[id(l)] = list(range(k, k + size(l.kind)))
            k += size(l.kind)
        return d

    def gvel(self):
        v = [np.ravel(l.joint.gvel) for l in self.order()]
        return np.concatenate(v) if v else np.zeros(0)

    def link_of(self, body):
        for l in self.links:
            if l.body is body:
                return l

    def path(self, body):
        r = []
        while body is not self.w.ground:
            l = self.link_of(body)
            r.insert(0, l)
            body = l.parent
        return r

    def kinematics(self, body, extra=None):
        """Pose, jacobian, its derivative and the twist of a body (of a frame of it)."""
        n = self.ndof()
        dofs = self.dofs()
        steps = []                  # (displacement, screws or None, dofs)
        for l in self.path(body):
            steps.append((l.H0, None, None, None))
            d = dofs[id(l)]
            v = np.ravel(l.joint.gvel)
            k = 0
            for H, S in unit_screws(l.kind, l.joint.gpos):
                m = S.shape[1]
                steps.append((H, S, d[k:k + m], v[k:k + m]))
                k += m
            steps.append((hinv(l.H1), None, None, None))
        if extra is not None:
            steps.append((extra, None, None, None))
        rest = np.eye(4)
        V = np.zeros(6)
        J, dJ = np.zeros((6, n)), np.zeros((6, n))
        for H, S, d, v in reversed(steps):
            if S is not None:
                X = Ad(hinv(rest)) @ S
                J[:, d] = X
                dJ[:, d] = -ad(V) @ X
                V = V + X @ v
            rest = H @ rest
        return rest, J, dJ, V

    def dynamics(self):
        """Mass, viscosity, nonlinear effects (times the velocity) of the world."""
        n = self.ndof()
        M, B, h = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)
        nu = self.gvel()
        for b in self.bodies:
            H, J, dJ, V = self.kinematics(b)
            m = self.mass[id(b)]
            M += J.T @ m @ J
            B += J.T @ self.visc[id(b)] @ J
            h += J.T @ (m @ dJ @ nu - ad(V).T @ m @ V * (m[5, 5] > 1e-9))
        return M, B, h

    def nonlinear(self):
        """The matrix N of the world (its expression depends on the choice of the
        nonlinear effects of the bodies, taken from their documentation)."""
        n = self.ndof()
        N = np.zeros((n, n))
        for b in self.bodies:
            H, J, dJ, V = self.kinematics(b)
            N += J.T @ (self.mass[id(b)] @ dJ + b.nleffects @ J)
        return N


def size(kind):
    return {'Free': 6, 'Fixed': 0}.get(kind, len(kind) // 2)


def joint_args(C, kind, tag):
    n = size(kind)
    if kind == 'Fixed':
        return {}
    v = C.vec(tag + 'v', n, -2, 2)
    q = C.hom(tag + 'H', 2) if kind == 'Free' else C.vec(tag + 'q', n, -3, 3)
    kw = dict(gpos=q, gvel=v)
    how = C.choice(tag + 'given', ('both', 'both', 'pos', 'vel', 'none'))
    if how in ('vel', 'none'):
        del kw['gpos']
    if how in ('pos', 'none'):
        del kw['gvel']
    return kw


def new_joint(C, kind, tag, name=None):
    return getattr(C.mod('joints'), kind + 'Joint')(name=name, **joint_args(C, kind, tag))


def some_mass(C, tag):
    how = C.choice(tag + 'mass', ('full', 'full', 'diag', 'none', 'point', 'origin'))
    if how == 'none':
        return np.zeros((6, 6))
    m = C.real(tag + 'm', 0, 9, strict=True, lo_sample=.3)
    if how == 'origin':
        return np.diag([0., 0, 0, m, m, m])
    if how == 'diag':
        I = [C.real('%sI%d' % (tag, k), 0, 4, strict=True, lo_sample=.2) for k in range(3)]
        return np.diag(I + [m, m, m]).astype(float)
    com = C.vec(tag + 'c', 3, -1, 1)
    Ic = np.zeros((3, 3)) if how == 'point' else C.spd(tag + 'I', 3)
    return C.inertia(tag, m, com, Ic)


def some_visc(C, tag):
    how = C.choice(tag + 'visc', ('none', 'diag', 'full'))
    if how == 'none':
        return np.zeros((6, 6))
    if how == 'diag':
        return np.diag(C.vec(tag + 'b', 6, 0, 2)).astype(float)
    A = C.mat(tag + 'b', 6, 6, -1, 1)
    return A @ A.T


def up_to(n, big):
    """How many, in a contract also made for larger worlds."""
    return tuple(range(n[0], n[1] + 1)) if not BIG else tuple(range(big[0], big[1] + 1))


def namesakes(C, tag, objs):
    """Names tell nothing apart: the objects may have none, or share theirs."""
    how = C.choice(tag + 'names', ('none', 'none', 'all the same', 'some the same'))
    for i, o in enumerate(objs):
        o.name = {'all the same': 'one', 'some the same': (None, 'one', 'two')[i % 3]}.get(how)


def some_frame(C, R, body, tag, kinds=('body', 'sub', 'sub', 'moving')):
    """A frame of the body: itself, or attached to it, possibly one that already exists."""
    core = C.mod('core')
    how = C.choice(tag + 'fr', kinds)
    if how == 'body':
        return body, np.eye(4)
    H = C.hom(tag + 'B', 1)
    part = C.choice(tag + 'tr', ('any', 'any', 'any', 'turned', 'moved', 'moved', 'same'))
    if part in ('moved', 'same'):
        H = hom(None, H[0:3, 3] if part == 'moved' else (0, 0, 0))
    elif part == 'turned':
        H = hom(H[0:3, 0:3])
    return (core.SubFrame if how == 'sub' else core.MovingSubFrame)(body, H), H


def add_link(C, R, tag, kinds=CLASSES, parents=None, name=None, dyn=True,
             ends=('body', 'sub', 'sub', 'moving')):
    core = C.mod('core')
    ps = parents or [R.w.ground] + R.bodies
    p = ps[C.choice(tag + 'parent', tuple(range(len(ps))))]
    kind = C.choice(tag + 'kind', kinds)
    b = core.Body(name=name)
    R.mass[id(b)], R.visc[id(b)] = np.zeros((6, 6)), np.zeros((6, 6))
    if dyn:
        R.mass[id(b)], R.visc[id(b)] = some_mass(C, tag), some_visc(C, tag)
        # (points have a singular inertia, which rounding can push out of the mass matrices)
        if C.choices.get(tag + 'mass') not in (4, 5) and C.choice(tag + 'when', (0, 1)):
            b = core.Body(name=name, mass=R.mass[id(b)].copy(), viscosity=R.visc[id(b)].copy())
            R.mass[id(b)], R.visc[id(b)] = b.mass.copy(), b.viscosity.copy()
        else:
            b.mass, b.viscosity = R.mass[id(b)].copy(), R.visc[id(b)].copy()
    j = new_joint(C, kind, tag, name=name)
    f0, H0 = some_frame(C, R, p, tag + '0')
    f1, H1 = some_frame(C, R, b, tag + '1', ends)
    R.w.add_link(f0, j, f1)
    R.links.append(Link(p, b, j, kind, f0, f1, H0, H1))
    R.bodies.append(b)
    return R.links[-1]


BIG = None


def big(body, lo=12, hi=26):
    """The same contract on larger robots."""
    def run(C):
        global BIG
        BIG = (lo, hi)
        try:
            return body(C)
        finally:
            BIG = None
    run.__doc__ = body.__doc__
    return run


def robot(C, lo=1, hi=5, kinds=CLASSES, dyn=True, tag='r', names=(0, 0, 1), **kw):
    """A world with a random tree of lo..hi bodies."""
    w = C.mod('core').World()
    if BIG:
        lo, hi = BIG
    R = Robot(C, w)
    n = C.choice(tag + 'n', tuple(range(lo, hi + 1)))
    named = C.choice(tag + 'named', names)
    chain = C.choice(tag + 'chain', (0, 0, 1)) and not kw.get('parents')
    for i in range(n):
        if chain and R.bodies and C.choice('%schain%d' % (tag, i), (1, 1, 1, 0)):
            kw['parents'] = R.bodies[-1:]
        add_link(C, R, '%s%d' % (tag, i), kinds, dyn=dyn,
                 name=('same' if i % 2 else 'other') if named else None, **kw)
        if chain:
            kw.pop('parents', None)
    # (any instant: a simulation may begin before zero)
    poke(w, 'current_time', C.real(tag + 'time', -3, 3))
    return R


def regular(C, R, dofs_ok=False):
    """Give every moving chain enough inertia for the mass matrix to be well conditioned:
    bodies without mass behind a joint that moves get one."""
    for l in R.links:
        b = l.body
        if R.mass[id(b)][5, 5] < .1 or np.linalg.matrix_rank(R.mass[id(b)], 1e-3) < 6:
            R.mass[id(b)] = np.diag([.5, .6, .7, 1., 1., 1.])
            b.mass = R.mass[id(b)].copy()


def shift(C, R, tag, keep=(), dyn=True):
    """A change of the tree that keeps the number of degrees of freedom, while the ones of
    a joint move to another place: a link more, and a joint replaced by a fixed one."""
    ls = [l for l in R.links if size(l.kind) and not [j for j in keep if j is l.joint]]
    if not ls:
        return
    l = ls[C.choice(tag + 'which', tuple(range(len(ls))))]
    add_link(C, R, tag + 'n', [k for k in CLASSES if size(k) == size(l.kind)], dyn=dyn)
    j = C.mod('joints').FixedJoint()
    R.w.replace_joint(l.joint, j)
    l.joint, l.kind = j, 'Fixed'


def edit(C, R, tag, kinds=CLASSES):
    """One change of a world in use."""
    how = C.choice(tag + 'op', ('link', 'replace', 'move', 'vel', 'pos', 'mass', 'none',
                                    'stop', 'shift'))
    if how == 'shift':
        shift(C, R, tag)
    elif how == 'stop':
        for l in R.links:
            l.joint.gvel[:] = 0.
    elif how == 'link':
        add_link(C, R, tag + 'n', kinds)
        R.w.init()
    elif how == 'replace':
        k = C.choice(tag + 'which', tuple(range(len(R.links))))
        l = R.links[k]
        kind = C.choice(tag + 'by', kinds)
        j = new_joint(C, kind, tag + 'n')
        R.w.replace_joint(l.joint, j)
        l.joint, l.kind = j, kind
    elif how == 'move':
        core = C.mod('core')
        for i, l in enumerate(R.links):
            if isinstance(l.f0, core.MovingSubFrame):
                l.H0 = C.hom('%sM%d' % (tag, i), 1)
                l.f0.bpose = l.H0
            if isinstance(l.f1, core.MovingSubFrame):
                l.H1 = C.hom('%sN%d' % (tag, i), 1)
                l.f1.bpose = l.H1
    elif how in ('vel', 'pos'):
        for i, l in enumerate(R.links):
            if how == 'vel' and size(l.kind):
                l.joint.gvel[:] = C.vec('%sv%d' % (tag, i), size(l.kind), -2, 2)
            elif how == 'pos' and l.kind == 'Free':
                l.joint.gpos[:] = C.hom('%sH%d' % (tag, i), 2)
            elif how == 'pos' and size(l.kind):
                l.joint.gpos[:] = C.vec('%sq%d' % (tag, i), size(l.kind), -3, 3)
    elif how == 'mass':
        for i, l in enumerate(R.links):
            m = some_mass(C, '%sm%d' % (tag, i))
            l.body.mass = m.copy()
            R.mass[id(l.body)] = m
    return how
