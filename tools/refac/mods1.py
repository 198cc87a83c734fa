EDITS = [
 # ---------------------------------------------------------------- constraints
 ('constraints.py', 'JointLimits.solve', '''
    def _violated(self, pred):
        low = pred <= self._min
        high = (pred >= self._max) & (low == False)
        return low, high

    def solve(self, vel, admittance, dt):
        pred = self._pos0 + dt*(vel - admittance.dot(self._force))
        previous = self._force
        low, high = self._violated(pred)
        force = zeros(self.ndol)
        idx = [i for i in range(self.ndol) if low[i] or high[i]]
        if idx:
            gap = where(low, self._min, self._max) - pred
            Y = admittance[ix_(idx, idx)]
            f = dot(pinv(Y), gap[idx]/dt)
            for k, i in enumerate(idx):
                force[i] = max(f[k], 0.) if low[i] else min(f[k], 0.)
        self._force = force
        return force - previous
 '''),
 ('constraints.py', 'JointLimits.is_active', '''
    def is_active(self):
        gaps = (self._pos0 - self._min, self._max - self._pos0)
        return any((g < self._proximity).any() for g in gaps)
 '''),
 ('constraints.py', 'JointLimits.init', '''
    def init(self, world):
        n = self._joint.ndof
        self._jacobian = zeros((n, world.ndof))
        self._jacobian[:, self._joint.dof] = eye(n)
 '''),
 ('constraints.py', 'BallAndSocketConstraint.jacobian', '''
    @property
    def jacobian(self):
        f0, f1 = self._frames
        Ad = Hg.adjoint(self._relative_pose())
        return (dot(Ad, f1.jacobian) - f0.jacobian)[3:, :]

    def _relative_pose(self):
        f0, f1 = self._frames
        return dot(Hg.inv(f0.pose), f1.pose)
 '''),
 ('constraints.py', 'BallAndSocketConstraint.update', '''
    def update(self, dt):
        self._pos0 = self._relative_pose()[:3, 3]
 '''),
 ('constraints.py', 'BallAndSocketConstraint.solve', '''
    def solve(self, vel, admittance, dt):
        target = -self._pos0/dt
        dforce = dot(pinv(admittance), target - vel)
        self._force = self._force + dforce
        return dforce
 '''),
 ('constraints.py', 'PointContact.update', '''
    def update(self, dt):
        sdist, H_gc0, H_gc1 = self._collision_solver(self._shapes)
        for frame, H in zip(self._frames, (H_gc0, H_gc1)):
            frame.bpose = dot(Hg.inv(frame.body.pose), H)
        Ad = Hg.adjoint(dot(Hg.inv(H_gc0), H_gc1))
        relative = dot(Ad, self._frames[1].twist) - self._frames[0].twist
        self._sdist = sdist
        self._is_active = self._proximity > sdist + dt*relative[5]
        self._force[:] = 0.
 '''),
 ('constraints.py', 'SoftFingerContact.solve', '''
    def solve(self, vel, admittance, dt):
        free_vel = vel - dot(admittance, self._force)
        if self._sdist + dt*free_vel[3] >= 0:
            return self._set_force(zeros(4))
        gap_vel = self._sdist/dt
        # sticking
        target = vel.copy()
        target[3] += gap_vel
        force = self._force - dot(pinv(admittance), target)
        tangent = force[0:3]/self._eps
        if dot(tangent, tangent) <= (self._mu*force[3])**2:
            return self._set_force(force)
        if self._mu == 0:
            force = zeros(4)
            force[3] = -(free_vel[3] + gap_vel)/admittance[3, 3]
            return self._set_force(force)
        alpha = free_vel.copy()
        alpha[3] += gap_vel
        return self._set_force(self._sliding_force(alpha, admittance))

    def _set_force(self, force):
        dforce = force - self._force
        self._force = force
        return dforce

    def _sliding_force(self, alpha, Y):
        Y_c, y_n = Y[0:3, 3], Y[3, 3]
        beta = alpha[0:3] - Y_c*(alpha[3]/y_n)
        a = alpha[3]*self._mu/y_n
        b = Y_c*(self._mu/y_n)
        E = diag(self._eps**2)
        Y_that = Y[0:3, 0:3] - outer(Y_c, Y_c)/y_n
        B = zeros((6, 6))
        B[0:3, 0:3] = dot(E, Y_that - outer(beta, b)*(2/a))
        B[0:3, 3:6] = dot(E, outer(beta, beta))/(-a**2)
        B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
        B[3:6, 3:6] = dot(E, Y_that)
        S = [x.real for x in eigvals(B) if x.imag == 0 and x.real <= 0]
        s = max(min(S), -1e10) if S else -1e10
        A = Y.copy()
        for i in range(3):
            A[i, i] -= s/self._eps[i]**2
        return -solve(A, alpha)
 '''),
 ('constraints.py', 'get_all_contacts', '''
def get_all_contacts(world, contact_class=None, **args):
    from itertools import combinations
    assert isinstance(world, World)
    if contact_class is None:
        contact_class = SoftFingerContact
    assert issubclass(contact_class, PointContact)
    contacts = []
    for pair in combinations(world.itershapes(), 2):
        if pair[0].frame.body is pair[1].frame.body:
            continue
        try:
            c = contact_class(pair, **args)
        except NotImplementedError:
            continue
        contacts.append(c)
    return contacts
 '''),
 # ---------------------------------------------------------------- controllers
 ('controllers.py', 'WeightController.update', '''
    def update(self, dt=None):
        wrenches = [dot(b.mass, dot(Hg.iadjoint(b.pose), self._gravity_dtwist))
                    for b in self._bodies]
        gforce = zeros(self._wndof)
        for b, f in zip(self._bodies, wrenches):
            gforce += dot(f, b.jacobian)
        return (gforce, self._impedance)
 '''),
 ('controllers.py', 'ProportionalDerivativeController.update', '''
    def update(self, dt):
        n = self._wndof
        d = self._dof_map
        q = [x for j in self.joints for x in j.gpos]
        error = self.gpos_des - array(q).reshape(self._cndof)
        gforce = zeros(n)
        impedance = zeros((n, n))
        gforce[d] = self.kp.dot(error) + self.kd.dot(self.gvel_des)
        impedance[ix_(d, d)] -= self.kd + self.kp*dt
        return (gforce, impedance)
 '''),
 # ----------------------------------------------------------------- collisions
 ('collisions.py', 'choose_solver', '''
_KINDS = (Sphere, Point, Plane, Box)

def _kind(shape):
    for k in _KINDS:
        if isinstance(shape, k):
            return k
    raise NotImplementedError()

def choose_solver(shape0, shape1):
    assert isinstance(shape0, Shape)
    assert isinstance(shape1, Shape)
    table = {(Sphere, Sphere): sphere_sphere_collision,
             (Sphere, Point): sphere_point_collision,
             (Plane, Sphere): plane_sphere_collision,
             (Plane, Point): plane_point_collision,
             (Box, Sphere): box_sphere_collision,
             (Box, Point): box_point_collision}
    k0, k1 = _kind(shape0), _kind(shape1)
    if (k0, k1) in table:
        return ((shape0, shape1), table[k0, k1])
    if (k1, k0) in table:
        return ((shape1, shape0), table[k1, k0])
    raise NotImplementedError()
 '''),
 ('collisions.py', '_sphere_sphere_collision', '''
def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
    vec = p_g1 - p_g0
    dist = dot(vec, vec)**0.5
    H_gc0 = Hg.zaligned(vec/dist)
    z = H_gc0[0:3, 2].copy()
    H_gc1 = H_gc0.copy()
    H_gc0[0:3, 3] = p_g0 + z*radius0
    H_gc1[0:3, 3] = p_g1 - z*radius1
    return (dist - (radius0 + radius1), H_gc0, H_gc1)
 '''),
 ('collisions.py', '_plane_sphere_collision', '''
def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
    assert Hg.ishomogeneousmatrix(H_g0)
    n, d = coeffs0[0:3], coeffs0[3]
    assert abs(norm(n) - 1) < 1e-9
    assert radius1 >= 0.
    normal = dot(H_g0[0:3, 0:3], n)
    height = dot(normal, p_g1 - H_g0[0:3, 3]) - d
    H_gc0 = Hg.zaligned(normal)
    H_gc1 = H_gc0.copy()
    for H, h in ((H_gc0, height), (H_gc1, radius1)):
        H[0:3, 3] = p_g1 - h*normal
    return (height - radius1, H_gc0, H_gc1)
 '''),
 ('collisions.py', '_box_sphere_collision', '''
def _nearest_face(half_extents, p):
    gaps = [half_extents[i] - p[i] for i in range(3)] + [half_extents[i] + p[i] for i in range(3)]
    i = argmin(gaps)
    normal = zeros(3)
    normal[i % 3] = 1 if i < 3 else -1
    return gaps[i], normal

def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
    assert Hg.ishomogeneousmatrix(H_g0)
    p = Hg.pdot(Hg.inv(H_g0), p_g1)
    inside = all(abs(p[i]) <= half_extents0[i] for i in range(3))
    if inside:
        gap, n = _nearest_face(half_extents0, p)
        f = p + gap*n
        dist = -gap
    else:
        f = zeros(3)
        for i in range(3):
            h = half_extents0[i]
            f[i] = min(max(p[i], -h), h)
        dist = norm(p - f)
        n = (p - f)/dist
    normal = Hg.vdot(H_g0, n)
    H_gc0 = Hg.zaligned(normal)
    H_gc1 = H_gc0.copy()
    H_gc0[0:3, 3] = Hg.pdot(H_g0, f)
    H_gc1[0:3, 3] = p_g1 - radius1*normal
    return (dist - radius1, H_gc0, H_gc1)
 '''),
 # ---------------------------------------------------------------- mass matrix
 ('massmatrix.py', 'transport', '''
def transport(M, H):
    assert ismassmatrix(M)
    assert Hg.ishomogeneousmatrix(H)
    Ad = Hg.adjoint(H)
    return Ad.transpose() @ M @ Ad
 '''),
 ('massmatrix.py', 'box', '''
def box(half_extents, mass):
    xx, yy, zz = [h*h for h in half_extents]
    m = mass/3.
    return diag((m*(yy + zz), m*(xx + zz), m*(xx + yy)) + (mass,)*3)
 '''),
 ('massmatrix.py', 'sphere', '''
def sphere(radius, mass):
    return ellipsoid((radius, radius, radius), mass)
 '''),
 ('massmatrix.py', 'cylinder', '''
def cylinder(length, radius, mass):
    Iaxe = mass*radius**2/2.
    Itan = Iaxe/2. + mass*length**2/12.
    return diag((Itan, Itan, Iaxe, mass, mass, mass))
 '''),
 ('massmatrix.py', 'ismassmatrix', '''
def ismassmatrix(M, semi=False):
    if M.shape != (6, 6):
        return False
    if not allclose(M, M.T):
        return False
    if not allclose(M[3:6, 3:6], M[3, 3]*eye(3)):
        return False
    values = eigvals(M)
    return (values >= 0.).all() if semi else (values > 0.).all()
 '''),
 # ------------------------------------------------------------------ hom. mat.
 ('homogeneousmatrix.py', 'rotzyx', '''
def rotzyx(angle_z, angle_y, angle_x):
    return dot(rotz(angle_z), dot(roty(angle_y), rotx(angle_x)))
 '''),
 ('homogeneousmatrix.py', 'rotzx', '''
def rotzx(angle_z, angle_x):
    return dot(rotz(angle_z), rotx(angle_x))
 '''),
 ('homogeneousmatrix.py', 'transl', '''
def transl(t_x, t_y, t_z):
    H = numpy.eye(4)
    H[0:3, 3] = (t_x, t_y, t_z)
    return H
 '''),
 ('homogeneousmatrix.py', 'inv', '''
def inv(H):
    assert ishomogeneousmatrix(H)
    Rt = H[0:3, 0:3].T
    invH = numpy.eye(4)
    invH[0:3, 0:3] = Rt
    invH[0:3, 3] = dot(-Rt, H[0:3, 3])
    return invH
 '''),
 ('homogeneousmatrix.py', 'adjoint', '''
def _cross_matrix(p):
    return array([[ 0.  , -p[2],  p[1]],
                  [ p[2],  0.  , -p[0]],
                  [-p[1],  p[0],  0.  ]])

def adjoint(H):
    assert ishomogeneousmatrix(H)
    R, p = H[0:3, 0:3], H[0:3, 3]
    return numpy.vstack((numpy.hstack((R, zeros((3, 3)))),
                         numpy.hstack((dot(_cross_matrix(p), R), R))))
 '''),
 ('homogeneousmatrix.py', 'iadjoint', '''
def iadjoint(H):
    assert ishomogeneousmatrix(H)
    Rt = H[0:3, 0:3].T
    Ad = zeros((6, 6))
    Ad[0:3, 0:3] = Rt
    Ad[3:6, 3:6] = Rt
    Ad[3:6, 0:3] = -dot(Rt, _cross_matrix(H[0:3, 3]))
    return Ad
 '''),
 ('homogeneousmatrix.py', 'zaligned', '''
def zaligned(vec):
    assert abs(numpy.linalg.norm(vec) - 1) < 1e-9
    z = numpy.array(vec, dtype=float)
    i, j, k = numpy.argsort(numpy.abs(z))
    x = numpy.zeros(3)
    x[j] = z[k]
    x[k] = -z[j]
    x = x/numpy.sqrt(x.dot(x))
    H = numpy.eye(4)
    H[0:3, 0:3] = numpy.array([x, numpy.cross(z, x), z]).T
    return H
 '''),
 ('homogeneousmatrix.py', 'rotzyx_angles', '''
def rotzyx_angles(H):
    assert ishomogeneousmatrix(H)
    (r00, r01, r02), (r10, r11, r12), (r20, r21, r22) = H[0:3, 0:3]
    if max(abs(r00), abs(r10)) < tol:
        return (0., arctan2(-r20, r00), arctan2(-r12, r11))
    az = arctan2(r10, r00)
    c, s = cos(az), sin(az)
    return (az, arctan2(-r20, c*r00 + s*r10), arctan2(s*r02 - c*r12, c*r11 - s*r01))
 '''),
 # ---------------------------------------------------------------------- twist
 ('twistvector.py', 'exp', '''
def exp(tw):
    assert tw.shape == (6,)
    w, v = tw[0:3], tw[3:6]
    wx = adjacency(tw)[0:3, 0:3]
    t = norm(w)
    if t >= 1e-3:
        s, c = sin(t), cos(t)
        cc, sc, dsc = (1 - c)/t**2, s/t, (t - s)/t**3
    else:
        cc, sc, dsc = 1./2., 1. - t**2/6., 1./6.
    H = eye(4)
    H[0:3, 0:3] += sc*wx + cc*dot(wx, wx)
    H[0:3, 3] = sc*v + cc*dot(wx, v) + dsc*dot(w, v)*w
    return H
 '''),
 # --------------------------------------------------------------- rigid motion
 ('rigidmotion.py', 'RigidMotion.itwist', '''
    @property
    def itwist(self):
        Ad = Hg.adjoint(self.pose)
        return dot(Ad, -self.twist)
 '''),
 ('rigidmotion.py', 'RigidMotion.iadjoint', '''
    @property
    def iadjoint(self):
        return Hg.iadjoint(self.pose)
 '''),
 ('rigidmotion.py', 'RigidMotion.idadjoint', '''
    @property
    def idadjoint(self):
        return -dot(T.adjacency(self.twist), self.iadjoint)
 '''),
 # --------------------------------------------------------------------- joints
 ('joints.py', 'RzRyRxJoint.jacobian', '''
    @property
    def jacobian(self):
        q = self.gpos
        J = zeros((6, 3))
        J[0:3, 0] = Hg.rotzyx(*q)[2, 0:3]
        J[1:3, 1] = cos(q[2]), -sin(q[2])
        J[0, 2] = 1.
        return J
 '''),
 ('joints.py', 'TxTyTzJoint.jacobian', '''
    @property
    def jacobian(self):
        return eye(6)[:, 3:6]
 '''),
 ('joints.py', 'RzJoint.jacobian', '''
    @property
    def jacobian(self):
        return array([[0., 0., 1., 0., 0., 0.]]).T
 '''),
 ('joints.py', 'FreeJoint.integrate', '''
    def integrate(self, gvel, dt):
        self.gvel = gvel
        motion = exp(gvel*dt)
        self.gpos = self.gpos.dot(motion)
 '''),
]
