EDITS = [
 # ------------------------------------------------------------------ hom. mat.
 ('homogeneousmatrix.py', 'rotx', '''
def _plane_rotation(angle, i, j):
    H = numpy.identity(4)
    c, s = cos(angle), sin(angle)
    H[[i, j], [i, j]] = c
    H[i, j] = -s
    H[j, i] = s
    return H

def rotx(angle):
    return _plane_rotation(angle, 1, 2)
 '''),
 ('homogeneousmatrix.py', 'roty', '''
def roty(angle):
    return _plane_rotation(angle, 2, 0)
 '''),
 ('homogeneousmatrix.py', 'rotz', '''
def rotz(angle):
    return _plane_rotation(angle, 0, 1)
 '''),
 ('homogeneousmatrix.py', 'rotzyx', '''
def rotzyx(angle_z, angle_y, angle_x):
    from functools import reduce
    return reduce(numpy.dot, [rotz(angle_z), roty(angle_y), rotx(angle_x)])
 '''),
 ('homogeneousmatrix.py', 'rotyx', '''
def rotyx(angle_y, angle_x):
    return numpy.linalg.multi_dot([roty(angle_y), rotx(angle_x)])
 '''),
 ('homogeneousmatrix.py', 'ishomogeneousmatrix', '''
def ishomogeneousmatrix(H, _tol=tol):
    if H.shape != (4, 4):
        return False
    if not numpy.array_equal(H[3], [0, 0, 0, 1]):
        return False
    return abs(numpy.linalg.det(H[:3, :3]) - 1) <= _tol
 '''),
 ('homogeneousmatrix.py', 'pdot', '''
def pdot(H, point):
    assert ishomogeneousmatrix(H)
    return vdot(H, point) + H[:3, 3]
 '''),
 ('homogeneousmatrix.py', 'vdot', '''
def vdot(H, vec):
    assert ishomogeneousmatrix(H)
    return numpy.einsum('ij,j->i', H[:3, :3], vec)
 '''),
 ('homogeneousmatrix.py', 'inv', '''
def inv(H):
    assert ishomogeneousmatrix(H)
    R, p = H[:3, :3], H[:3, 3:]
    return numpy.block([[R.T, -R.T @ p], [numpy.zeros((1, 3)), numpy.ones((1, 1))]])
 '''),
 ('homogeneousmatrix.py', 'adjoint', '''
def adjoint(H):
    assert ishomogeneousmatrix(H)
    R, p = H[:3, :3], H[:3, 3]
    Ad = numpy.kron(numpy.eye(2), R)
    # the columns of [p]x.R are the cross products of p with the ones of R
    for k in range(3):
        Ad[3:, k] = numpy.cross(p, R[:, k])
    return Ad
 '''),
 ('homogeneousmatrix.py', 'dAdjoint', '''
def dAdjoint(Ad, T):
    return numpy.matmul(Ad, adjacency(T))
 '''),
 ('homogeneousmatrix.py', 'zaligned', '''
def zaligned(vec):
    assert numpy.abs(numpy.linalg.norm(vec)-1) < 1e-9
    z = numpy.asarray(vec, dtype=float)
    small, medium, large = numpy.argsort(numpy.fabs(z))
    x = numpy.zeros_like(z)
    x[[medium, large]] = z[large], -z[medium]
    x = numpy.divide(x, numpy.sqrt(numpy.sum(x**2)))
    H = numpy.zeros((4, 4))
    H[:3, :3] = numpy.column_stack([x, numpy.cross(z, x), z])
    H[3, 3] = 1.
    return H
 '''),
 ('homogeneousmatrix.py', 'rotzyx_angles', '''
def rotzyx_angles(H):
    assert ishomogeneousmatrix(H)
    R = H[:3, :3]
    if (numpy.abs(R[:2, 0]) < tol).all():
        az = 0
    else:
        az = arctan2(R[1, 0], R[0, 0])
    # bring the rotation about z back
    c, s = cos(az), sin(az)
    Q = numpy.dot(array([[c, s, 0], [-s, c, 0], [0, 0, 1]]), R)
    return (az, arctan2(-Q[2, 0], Q[0, 0]), arctan2(-Q[1, 2], Q[1, 1]))
 '''),
 # ---------------------------------------------------------------------- twist
 ('twistvector.py', 'adjacency', '''
def _hat(w):
    return array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])

def adjacency(tw):
    assert tw.shape == (6,)
    ad = zeros((6, 6))
    ad[:3, :3] = ad[3:, 3:] = _hat(tw[:3])
    ad[3:, :3] = _hat(tw[3:])
    return ad
 '''),
 ('twistvector.py', 'exp', '''
def exp(tw):
    assert tw.shape == (6,)
    w, v = tw[:3], tw[3:]
    t2 = dot(w, w)
    t = t2**.5
    if t < 0.001:
        a, b, c = 1. - t2/6., .5, 1./6.
    else:
        a, b, c = sin(t)/t, (1. - cos(t))/t2, (t - sin(t))/(t2*t)
    wx = _hat(w)
    ww = outer(w, w)
    H = eye(4)
    # wx.wx = w.w' - |w|^2 I
    H[:3, :3] += a*wx + b*(ww - t2*eye(3))
    H[:3, 3] = (a*eye(3) + b*wx + c*ww) @ v
    return H
 '''),
 # ---------------------------------------------------------------- mass matrix
 ('massmatrix.py', 'ismassmatrix', '''
def ismassmatrix(M, semi=False):
    checks = [lambda: M.shape == (6, 6),
              lambda: allclose(M, M.transpose()),
              lambda: allclose(M[3:6, 3:6], diag([M[3, 3]]*3))]
    if not all(c() for c in checks):
        return False
    lowest = eigvals(M)
    if semi:
        return bool((lowest >= 0.).all())
    return bool((lowest > 0.).all())
 '''),
 ('massmatrix.py', 'principalframe', '''
def principalframe(M):
    assert ismassmatrix(M)
    m = M[3, 3]
    rx = M[:3, 3:]/m
    com = array([rx[2, 1], rx[0, 2], rx[1, 0]])
    values, R = eigh(M[:3, :3] + m*(rx @ rx))
    order = argsort(argmax(abs(R), axis=0))
    R = R[:, order]
    if det(R) < 0.:
        R = R[:, ::-1]
    H = eye(4)
    H[:3, :3], H[:3, 3] = R, com
    return H
 '''),
 ('massmatrix.py', 'transport', '''
def transport(M, H):
    assert ismassmatrix(M)
    assert Hg.ishomogeneousmatrix(H)
    X = Hg.adjoint(H)
    MX = dot(M, X)
    return X.T.dot(MX)
 '''),
 ('massmatrix.py', 'ellipsoid', '''
def ellipsoid(radii, mass):
    sq = array([r**2 for r in radii])
    inertia = mass/5.*(sq.sum() - sq)
    return diag(list(inertia) + [mass]*3)
 '''),
 ('massmatrix.py', 'box', '''
def box(half_extents, mass):
    sq = array(half_extents)**2
    M = mass*eye(6)
    for i in range(3):
        M[i, i] = mass/3.*(sq[i-1] + sq[i-2])
    return M
 '''),
 # --------------------------------------------------------------- rigid motion
 ('rigidmotion.py', 'RigidMotion.iadjacency', '''
    @property
    def iadjacency(self):
        itwist = self.itwist
        return T.adjacency(itwist)
 '''),
 ('rigidmotion.py', 'RigidMotion.dadjoint', '''
    @property
    def dadjoint(self):
        return Hg.dAdjoint(self.adjoint, self.twist)
 '''),
 # --------------------------------------------------------------------- joints
 ('joints.py', 'RzRyRxJoint.jacobian', '''
    def _trig(self):
        q = self.gpos
        return sin(q[1]), cos(q[1]), sin(q[2]), cos(q[2])

    @property
    def jacobian(self):
        sy, cy, sx, cx = self._trig()
        J = zeros((6, 3))
        J[0:3, :] = [[-sy, 0., 1.], [sx*cy, cx, 0.], [cx*cy, -sx, 0.]]
        return J
 '''),
 ('joints.py', 'RzRyRxJoint.djacobian', '''
    @property
    def djacobian(self):
        sy, cy, sx, cx = self._trig()
        _, dy, dx = self.gvel
        dJ = zeros((6, 3))
        dJ[0, 0] = -cy*dy
        dJ[1, :2] = [dx*cx*cy - dy*sx*sy, -dx*sx]
        dJ[2, :2] = [-(dx*sx*cy + dy*cx*sy), -dx*cx]
        return dJ
 '''),
 ('joints.py', 'RyRxJoint.djacobian', '''
    @property
    def djacobian(self):
        dJ = zeros((6, 2))
        rate = self.gvel[1]
        dJ[1:3, 0] = -rate*array([sin(self.gpos[1]), cos(self.gpos[1])])
        return dJ
 '''),
 ('joints.py', 'FreeJoint.integrate', '''
    def integrate(self, gvel, dt):
        self.gvel = gvel
        self.gpos = self.gpos @ exp(dt*gvel)
 '''),
 # ----------------------------------------------------------------------- core
 ('core.py', 'LinearConfigurationSpaceJoint.integrate', '''
    def integrate(self, gvel, dt):
        self.gvel = gvel
        self.gpos += gvel*dt
 '''),
 ('core.py', 'Body.iter_descendant_bodies', '''
    def iter_descendant_bodies(self):
        pending = [j.frame1.body for j in reversed(self.childrenjoints)]
        while pending:
            b = pending.pop()
            yield b
            pending.extend(j.frame1.body for j in reversed(b.childrenjoints))
 '''),
 ('core.py', 'Body.iter_descendant_joints', '''
    def iter_descendant_joints(self):
        pending = list(self.childrenjoints)[::-1]
        while pending:
            j = pending.pop()
            yield j
            pending += j.frame1.body.childrenjoints[::-1]
 '''),
 ('core.py', 'Body.iter_ancestor_bodies', '''
    def iter_ancestor_bodies(self):
        joint = self.parentjoint
        while joint is not None:
            yield joint.frame0.body
            joint = joint.frame0.body.parentjoint
 '''),
 ('core.py', 'Body.update_geometric', '''
    def update_geometric(self, pose):
        self._pose = pose
        for j in self.childrenjoints:
            j.frame1.body.update_geometric(numpy.linalg.multi_dot(
                [pose, j.frame0.bpose, j.pose, Hg.inv(j.frame1.bpose)]))
 '''),
 ('core.py', 'Body.update_dynamic', '''
    def _update_nleffects(self):
        wx = adjacency(self._twist)[0:3, 0:3]
        m = self.mass[5, 5]
        rx = self.mass[0:3, 3:6]/m if m > 1e-10 else zeros((3, 3))
        N = numpy.kron(eye(2), wx)
        N[0:3, 3:6] = rx @ wx - wx @ rx
        self._nleffects = N @ self.mass

    def update_dynamic(self, pose, jac, djac, twist):
        self._pose, self._jacobian = pose, jac
        self._djacobian, self._twist = djac, twist
        self._update_nleffects()
        for j in self.childrenjoints:
            H_pr, H_cn = j.frame0.bpose, j.frame1.bpose
            H_pc = H_pr @ j.pose @ Hg.inv(H_cn)
            Ad_cp = Hg.iadjoint(H_pc)
            Ad_cn = Hg.adjoint(H_cn)
            dAd_cp = Ad_cn @ j.idadjoint @ Hg.iadjoint(H_pr)
            child_jac = Ad_cp @ jac
            child_djac = dAd_cp @ jac + Ad_cp @ djac
            child_jac[:, j.dof] += Ad_cn @ j.jacobian
            child_djac[:, j.dof] += Ad_cn @ j.djacobian
            j.frame1.body.update_dynamic(pose @ H_pc, child_jac, child_djac,
                                         Ad_cp @ twist + Ad_cn @ j.twist)
 '''),
 ('core.py', None, ('from arboris.massmatrix import ismassmatrix\n',
                    'from arboris.massmatrix import ismassmatrix\n'
                    'from arboris.twistvector import adjacency\n')),
 ('core.py', 'World.update_dynamic', '''
    def update_dynamic(self):
        n = self._ndof
        self.ground.update_dynamic(eye(4), zeros((6, n)), zeros((6, n)), zeros(6))
        mass, viscosity, nleffects = zeros((n, n)), zeros((n, n)), zeros((n, n))
        for b in self.ground.iter_descendant_bodies():
            J = b.jacobian
            JM = dot(J.T, b.mass)
            mass += dot(JM, J)
            viscosity += numpy.linalg.multi_dot([J.T, b.viscosity, J])
            nleffects += dot(JM, b.djacobian) + dot(J.T, dot(b.nleffects, J))
        self._mass[:] = mass
        self._viscosity[:] = viscosity
        self._nleffects[:] = nleffects
 '''),
 ('core.py', 'World.init', '''
    def init(self):
        joints = list(self.iterjoints())
        start = 0
        for j in joints:
            j._dof = slice(start, start + j.ndof)
            start = j._dof.stop
        n = self._ndof = start
        self._mass, self._nleffects, self._viscosity = [zeros((n, n)) for i in range(3)]
        self._gforce = zeros(n)
        gvel = numpy.concatenate([j.gvel for j in joints]) if joints else zeros(0)
        self._gvel = gvel
        for j in joints:
            j.gvel = gvel[j.dof]
        for obj in list(self._constraints) + list(self._controllers):
            obj.init(self)
 '''),
 ('core.py', 'World.integrate', '''
    def integrate(self, dt):
        assert dt > 0
        impulse = dot(self._mass, self._gvel) + dt*self._gforce
        self._gvel[...] = dot(self._admittance, impulse)/dt
        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof], dt)
        self._current_time = self._current_time + dt
 '''),
 ('core.py', 'World.update_controllers', '''
    def update_controllers(self, dt):
        assert dt > 0
        self._gforce.fill(0.)
        Z = self._mass/dt
        Z += self._viscosity
        Z += self._nleffects
        for a in self._controllers:
            f, dZ = a.update(dt)
            self._gforce += f
            Z = Z - dZ
        self._impedance = Z
        self._admittance = numpy.linalg.solve(Z, eye(self._ndof))
 '''),
 ('core.py', '_SubFrame.jacobian', '''
    @property
    def jacobian(self):
        return self._transported(self._body.jacobian, 'jacobian')

    def _transported(self, value, what):
        try:
            return dot(Hg.adjoint(Hg.inv(self._bpose)), value)
        except TypeError:
            raise TypeError("%s is not up to date, run world.update_dynamic() first." % what)
 '''),
 ('core.py', '_SubFrame.djacobian', '''
    @property
    def djacobian(self):
        return self._transported(self._body.djacobian, 'djacobian')
 '''),
 ('core.py', '_SubFrame.twist', '''
    @property
    def twist(self):
        return self._transported(self._body.twist, 'twist')
 '''),
 ('core.py', 'NamedObjectsList.find', '''
    def find(self, name):
        return [obj for obj in self if isinstance(obj, NamedObject) and obj.name == name]
 '''),
 ('core.py', 'NamedObjectsList.__getitem__', '''
    def __getitem__(self, index):
        if not isinstance(index, str):
            return list.__getitem__(self, index)
        try:
            return next(o for o in self if isinstance(o, NamedObject) and o.name == index)
        except StopIteration:
            raise KeyError('No object named "{0}".'.format(index))
 '''),
 ('core.py', 'JointsList._init_dof', '''
    def _init_dof(self):
        for obj in self:
            if not isinstance(obj, Joint):
                continue
            start, stop = obj.dof.start, obj.dof.stop
            if isinstance(self._dof, slice) and self._dof.stop == start:
                self._dof = slice(self._dof.start, stop)
                continue
            if isinstance(self._dof, slice):
                self._dof = list(range(self._dof.start, self._dof.stop))
            self._dof = self._dof + list(range(start, stop))
 '''),
 ('core.py', 'simulate', '''
def simulate(world, timeline, observers=()):
    observers = list(observers.values() if isinstance(observers, dict) else observers)
    if world.current_time != timeline[0]:
        warnings.warn('world.current_time != timeline[0]: \\
may become a problem if any conditions depend on world.current_time')
    world._current_time = timeline[0]
    world.init()
    [obs.init(world, timeline) for obs in observers]
    k = 1
    while k < len(timeline):
        dt = timeline[k] - world.current_time
        world.update_dynamic()
        world.update_controllers(dt)
        world.update_constraints(dt)
        for obs in observers:
            obs.update(dt)
        world.integrate(dt)
        k += 1
    for obs in observers:
        obs.finish()
 '''),
 # ---------------------------------------------------------------- constraints
 ('constraints.py', 'JointLimits.is_active', '''
    def is_active(self):
        low = self._pos0 - self._min - self._proximity
        high = self._max - self._pos0 - self._proximity
        return bool((low < 0).any() or (high < 0).any())
 '''),
 ('constraints.py', 'SoftFingerContact.jacobian', '''
    @property
    def jacobian(self):
        f0, f1 = self._frames
        rows = slice(2, 6)
        Ad = Hg.adjoint(Hg.inv(f0.pose) @ f1.pose)
        return Ad[rows] @ f1.jacobian - f0.jacobian[rows]
 '''),
 ('constraints.py', 'BallAndSocketConstraint.jacobian', '''
    @property
    def jacobian(self):
        f0, f1 = self._frames
        H_01 = dot(Hg.inv(f0.pose), f1.pose)
        J = dot(Hg.adjoint(H_01), f1.jacobian)
        J -= f0.jacobian
        return J[3:6]
 '''),
 ('constraints.py', 'PointContact.update', '''
    def update(self, dt):
        self._force[:] = 0.
        (self._sdist, H_gc0, H_gc1) = self._collision_solver(self._shapes)
        for (f, s, H) in zip(self._frames, self._shapes, (H_gc0, H_gc1)):
            f.bpose = dot(Hg.inv(s.frame.body.pose), H)
        f0, f1 = self._frames
        row = Hg.adjoint(dot(Hg.inv(H_gc0), H_gc1))[5]
        speed = dot(row, f1.twist) - f0.twist[5]
        self._is_active = self._sdist + speed*dt < self._proximity
 '''),
 # ----------------------------------------------------------------- collisions
 ('collisions.py', '_sphere_sphere_collision', '''
def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
    vec = p_g1 - p_g0
    length = norm(vec)
    frames = [Hg.zaligned(vec/length) for k in range(2)]
    z = frames[0][0:3, 2]
    for H, p in zip(frames, (p_g0 + radius0*z, p_g1 - radius1*z)):
        H[0:3, 3] = p
    return (length - radius0 - radius1, frames[0], frames[1])
 '''),
 ('collisions.py', '_box_sphere_collision', '''
def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
    assert Hg.ishomogeneousmatrix(H_g0)
    h = array(half_extents0)
    p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
    f_0 = p_01.clip(-h, h)
    normal = zeros(3)
    if (f_0 == p_01).all():
        depth = concatenate((h - p_01, h + p_01))
        i = argmin(depth)
        side = 1. if i < 3 else -1.
        f_0[i % 3] = side*h[i % 3]
        normal[i % 3] = side
        dist = -depth[i]
    else:
        vec = p_01 - f_0
        dist = norm(vec)
        normal = vec/dist
    normal = Hg.vdot(H_g0, normal)
    H_gc0 = Hg.zaligned(normal)
    H_gc1 = H_gc0.copy()
    H_gc0[0:3, 3] = Hg.pdot(H_g0, f_0)
    H_gc1[0:3, 3] = p_g1 - radius1*normal
    return (dist - radius1, H_gc0, H_gc1)
 '''),
 ('collisions.py', None, ('from numpy        import zeros, argmin, dot, arange\n',
                          'from numpy        import array, concatenate, zeros, argmin, dot, arange\n')),
 ('collisions.py', 'choose_solver', '''
def choose_solver(shape0, shape1):
    assert isinstance(shape0, Shape)
    assert isinstance(shape1, Shape)
    order = (Plane, Box, Sphere, Point)
    rank = []
    for s in (shape0, shape1):
        found = [k for k in range(4) if isinstance(s, order[k])]
        if not found:
            raise NotImplementedError()
        rank.append(found[0])
    shapes = (shape0, shape1)
    if rank[1] < rank[0]:
        shapes = (shape1, shape0)
        rank.reverse()
    names = ('plane', 'box', 'sphere', 'point')
    solver = globals().get('%s_%s_collision' % (names[rank[0]], names[rank[1]]))
    if solver is None:
        raise NotImplementedError()
    return (shapes, solver)
 '''),
 # ---------------------------------------------------------------- controllers
 ('controllers.py', 'WeightController.update', '''
    def update(self, dt=None):
        gforce = sum((self._weight(b) for b in self._bodies), zeros(self._wndof))
        return (gforce, self._impedance)

    def _weight(self, b):
        # only the orientation of the body matters
        g = zeros(6)
        g[3:6] = dot(b.pose[0:3, 0:3].T, self._gravity_dtwist[3:6])
        return dot(b.jacobian.T, dot(b.mass, g))
 '''),
 ('controllers.py', 'ProportionalDerivativeController.update', '''
    def update(self, dt):
        from numpy import concatenate
        gforce = zeros(self._wndof)
        impedance = zeros((self._wndof, self._wndof))
        gpos = concatenate([zeros(0)] + [j.gpos for j in self.joints])
        idx = self._dof_map
        gforce[idx] = dot(self.kp, self.gpos_des - gpos)
        gforce[idx] += dot(self.kd, self.gvel_des)
        for k, i in enumerate(idx):
            impedance[i, idx] = -(dt*self.kp[k] + self.kd[k])
        return (gforce, impedance)
 '''),
 # ------------------------------------------------------------------ observers
 ('observers.py', 'EnergyMonitor.update', '''
    def update(self, dt):
        w = self._world
        v = w.gvel
        kinetic = .5*v.dot(w.mass).dot(v)
        potential = 9.81*sum(b.mass[3, 3]*dot(w.up, dot(b.pose, com)[:3])
                             for b, com in self._com_pos.items())
        for l, x in ((self.time, w.current_time), (self.kinetic_energy, kinetic),
                     (self.potential_energy, potential),
                     (self.mechanichal_energy, kinetic + potential)):
            l.append(x)
 '''),
 ('observers.py', 'CoMObserver.update', '''
    def update(self, dt):
        x = zeros(3)
        n = self._CoMJacobian.shape[1]
        J, dJ = zeros((3, n)), zeros((3, n))
        for b, H_bc, m in zip(self.bodies, self.H_body_com, self.mass):
            R, p = b.pose[0:3, 0:3], b.pose[0:3, 3]
            c = H_bc[0:3, 3]
            x += m*(p + dot(R, c))
            if self.compute_Jacobians is not True:
                continue
            def at_com(A):
                # velocity of the center of mass, in the body
                return A[3:6] + cross(A[0:3], c, axisa=0).T
            Jc, dJc = at_com(b.jacobian), at_com(b.djacobian)
            w = b.twist[0:3]
            J += m*dot(R, Jc)
            dJ += m*dot(R, dJc + cross(w, Jc, axisb=0).T)
        self._CoMPosition[:] = x/self.total_mass
        self._CoMJacobian[:] = J/self.total_mass
        self._CoMdJacobian[:] = dJ/self.total_mass
 '''),
]
