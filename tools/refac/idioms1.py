"""Other idioms: reduce, itertools, comprehensions, match, unpacking, helpers, context managers."""
EDITS = [
 ('homogeneousmatrix.py', 'transl', '''
def transl(t_x, t_y, t_z):
    H = numpy.identity(4)
    H[:3, 3] = t_x, t_y, t_z
    return H
 '''),
 ('homogeneousmatrix.py', 'rotzyx', '''
def _pair(angle):
    return numpy.cos(angle), numpy.sin(angle)


def rotzyx(angle_z, angle_y, angle_x):
    from functools import reduce
    return reduce(numpy.matmul, (rotz(angle_z), roty(angle_y), rotx(angle_x)))
 '''),
 ('homogeneousmatrix.py', 'rotzy', '''
def rotzy(angle_z, angle_y):
    (cz, sz), (cy, sy) = map(_pair, (angle_z, angle_y))
    H = numpy.zeros((4, 4))
    H[0, :3] = cz*cy, -sz, cz*sy
    H[1, :3] = sz*cy, cz, sz*sy
    H[2, :3] = -sy, 0., cy
    H[3, 3] = 1.
    return H
 '''),
 ('homogeneousmatrix.py', 'rotzx', '''
def rotzx(angle_z, angle_x):
    return numpy.matmul(rotz(angle_z), rotx(angle_x))
 '''),
 ('homogeneousmatrix.py', 'rotx', '''
def rotx(angle):
    return _elementary(angle, 1, 2)


def _elementary(angle, i, j):
    """Rotation in the plane of the axes i and j."""
    (c, s) = _pair(angle)
    H = numpy.eye(4)
    H[[i, j], [i, j]] = c
    H[i, j] = -s
    H[j, i] = s
    return H
 '''),
 ('homogeneousmatrix.py', 'roty', '''
def roty(angle):
    return _elementary(angle, 2, 0)
 '''),
 ('homogeneousmatrix.py', 'rotz', '''
def rotz(angle):
    return _elementary(angle, 0, 1)
 '''),
 ('homogeneousmatrix.py', 'zaligned', '''
def zaligned(vec):
    length = numpy.sqrt(numpy.dot(vec, vec))
    assert numpy.isclose(length, 1, rtol=0, atol=1e-9)
    z = numpy.array(vec)
    small, mid, big = sorted(range(3), key=lambda k: abs(z[k]))
    x = numpy.zeros(3)
    x[mid], x[big] = z[big], -z[mid]
    x = x/numpy.linalg.norm(x)
    H = numpy.eye(4)
    H[0:3, 0:3] = numpy.column_stack((x, numpy.cross(z, x), z))
    return H
 '''),
 ('homogeneousmatrix.py', 'ishomogeneousmatrix', '''
def ishomogeneousmatrix(H, _tol=tol):
    if H.shape != (4, 4):
        return False
    if not numpy.array_equal(H[3], [0, 0, 0, 1]):
        return False
    x, y, z = H[:3, :3]
    return abs(numpy.dot(numpy.cross(x, y), z) - 1) <= _tol
 '''),
 ('homogeneousmatrix.py', 'adjoint', '''
def adjoint(H):
    assert ishomogeneousmatrix(H)
    R, (x, y, z) = H[:3, :3], H[:3, 3]
    px = numpy.array([0, -z, y, z, 0, -x, -y, x, 0]).reshape(3, 3)
    return numpy.vstack((numpy.hstack((R, numpy.zeros((3, 3)))),
                         numpy.hstack((px @ R, R))))
 '''),
 ('homogeneousmatrix.py', 'inv', '''
def inv(H):
    assert ishomogeneousmatrix(H)
    Rt = H[:3, :3].T
    top = numpy.c_[Rt, -Rt @ H[:3, 3]]
    return numpy.r_[top, [[0., 0., 0., 1.]]]
 '''),
 ('homogeneousmatrix.py', 'rotzyx_angles', '''
def rotzyx_angles(H):
    assert ishomogeneousmatrix(H)
    if max(abs(H[0, 0]), abs(H[1, 0])) < tol:
        return (0, arctan2(-H[2, 0], H[0, 0]), arctan2(-H[1, 2], H[1, 1]))
    az = arctan2(H[1, 0], H[0, 0])
    # what remains once the first rotation is undone
    K = numpy.matmul(rotz(-az), H)
    return (az, arctan2(-K[2, 0], K[0, 0]), arctan2(-K[1, 2], K[1, 1]))
 '''),
 ('twistvector.py', 'adjacency', '''
def _hat(v):
    x, y, z = v
    return array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def adjacency(tw):
    assert tw.shape == (6,)
    A = zeros((6, 6))
    for rows, cols, v in ((slice(0, 3), slice(0, 3), tw[:3]),
                          (slice(3, 6), slice(3, 6), tw[:3]),
                          (slice(3, 6), slice(0, 3), tw[3:])):
        A[rows, cols] = _hat(v)
    return A
 '''),
 ('twistvector.py', 'exp', '''
def exp(tw):
    assert tw.shape == (6,)
    w, v = tw[:3], tw[3:]
    wx = _hat(w)
    t = norm(w)
    cc, sc, dsc = _coefficients(t)
    H = eye(4)
    H[:3, :3] += sc*wx + cc*(wx @ wx)
    H[:3, 3] = sc*v + cc*(wx @ v) + dsc*(w @ v)*w
    return H


def _coefficients(t):
    if t < 0.001:
        return 1./2., 1.-t**2/6., 1./6.
    s, c = sin(t), cos(t)
    return (1-c)/t**2, s/t, (t-s)/t**3
 '''),
 ('massmatrix.py', 'ellipsoid', '''
def ellipsoid(radii, mass):
    squares = [r**2 for r in radii]
    I = [mass*(sum(squares) - s)/5. for s in squares]
    return diag(I + 3*[mass])
 '''),
 ('massmatrix.py', 'cylinder', '''
def cylinder(length, radius, mass):
    Iaxe = .5*mass*radius**2
    Itan = .5*Iaxe + mass*length**2/12.
    return diag([Itan]*2 + [Iaxe] + [mass]*3)
 '''),
 ('massmatrix.py', 'principalframe', '''
def principalframe(M):
    assert ismassmatrix(M)
    m = M[5, 5]
    rx = M[0:3, 3:6]/m
    H = eye(4)
    H[0, 3], H[1, 3], H[2, 3] = rx[2, 1], rx[0, 2], rx[1, 0]
    R = eigh(M[0:3, 0:3] + m*rx.dot(rx))[1]
    # order the principal axes after the axes of the original frame
    R = R[:, argsort(argmax(abs(R), axis=0))]
    if det(R) < 0.:
        R = R[:, ::-1]
    H[0:3, 0:3] = R
    return H
 '''),
 ('joints.py', 'RzRyRxJoint.pose', '''
    @property
    def pose(self):
        return Hg.rotzyx(*self.gpos)
 '''),
 ('joints.py', 'RzRyRxJoint.jacobian', '''
    def _trig(self):
        _, y, x = self.gpos
        return sin(x), cos(x), sin(y), cos(y)

    @property
    def jacobian(self):
        sx, cx, sy, cy = self._trig()
        J = zeros((6, 3))
        J[0:3, 0] = -sy, sx*cy, cx*cy
        J[1:3, 1] = cx, -sx
        J[0, 2] = 1.
        return J
 '''),
 ('joints.py', 'RzRyRxJoint.djacobian', '''
    @property
    def djacobian(self):
        sx, cx, sy, cy = self._trig()
        dy, dx = self.gvel[1:]
        dJ = zeros((6, 3))
        dJ[0:3, 0] = (-dy*cy, dx*cx*cy-dy*sx*sy, -dx*sx*cy-dy*cx*sy)
        dJ[1:3, 1] = (-dx*sx, -dx*cx)
        return dJ
 '''),
 ('joints.py', 'FreeJoint.integrate', '''
    def integrate(self, gvel, dt):
        self.gvel = gvel
        step = exp(self.gvel*dt)
        self.gpos = self.gpos @ step
 '''),
 ('joints.py', 'TxTyTzJoint.jacobian', '''
    @property
    def jacobian(self):
        return eye(6)[:, 3:]
 '''),
 ('joints.py', 'TxTyTzJoint.pose', '''
    @property
    def pose(self):
        return Hg.transl(*self.gpos)
 '''),
 ('core.py', 'NamedObjectsList.as_dict', '''
    def as_dict(self):
        named = [o for o in self if isinstance(o, NamedObject) and o.name is not None]
        result = {o.name: o for o in reversed(named)}
        if len(result) < len(named):
            import collections
            name = next(n for n, k in collections.Counter(
                [o.name for o in named]).items() if k > 1)
            raise DuplicateNameError(f"Duplicated name: {name}")
        return {o.name: o for o in named}
 '''),
 ('core.py', 'World.iterframes', '''
    def iterframes(self):
        import itertools
        return itertools.chain(self.iterbodies(), self.itersubframes())
 '''),
 ('core.py', 'World.iterbodies', '''
    def iterbodies(self):
        yield self.ground
        yield from self.ground.iter_descendant_bodies()
 '''),
 ('core.py', 'Body.iter_descendant_bodies', '''
    def iter_descendant_bodies(self):
        for j in self.iter_descendant_joints():
            yield j.frame1.body
 '''),
 ('core.py', 'Body.iter_descendant_joints', '''
    def iter_descendant_joints(self):
        for j in self.childrenjoints:
            yield j
            yield from j.frame1.body.iter_descendant_joints()
 '''),
 ('core.py', 'Body.iter_ancestor_bodies', '''
    def iter_ancestor_bodies(self):
        return (j.frame0.body for j in self.iter_ancestor_joints())
 '''),
 ('core.py', 'World.add_link', '''
    def add_link(self, frame0, joint, frame1, *args):
        self._check_link(frame0, joint, frame1)
        assert len(args) % 3 == 0
        joint.set_frames(frame0, frame1)
        frame1.body.parentjoint = joint
        frame0.body.childrenjoints.append(joint)
        for frame in joint.frames:
            self.register(frame)
        if args:
            self.add_link(*args)

    @staticmethod
    def _check_link(frame0, joint, frame1):
        assert all(isinstance(f, Frame) for f in (frame0, frame1))
        assert isinstance(joint, Joint)
        assert joint.frames == (None, None)
        child = frame1.body
        loop = child is frame0.body or any(b is child for b in frame0.body.iter_ancestor_bodies())
        if loop or child.parentjoint is not None:
            raise ValueError("frame1's body already has a parent joint, " + \\
            "which means you're probably trying to create a kinematic loop." + \\
            "Try using a constraint instead.")
 '''),
 ('core.py', 'World.register', '''
    def register(self, obj):
        if isinstance(obj, Body):
            return
        if isinstance(obj, Joint):
            raise ValueError("Joints should not be registered. Use add_link() instead.")
        for kind, known in ((_SubFrame, self._subframes), (Shape, self._shapes),
                            (Constraint, self._constraints), (Controller, self._controllers)):
            if isinstance(obj, kind):
                break
        else:
            raise ValueError("I do not know how to register objects " + \\
                             "of type {0}".format(type(obj)))
        new = not any(o is obj for o in known)
        if new:
            known.append(obj)
        if kind is Shape:
            self.register(obj.frame)
        elif kind is Constraint and new:
            for child in obj._child_obj_to_reg:
                self.register(child)
 '''),
 ('core.py', 'World.replace_joint', '''
    def replace_joint(self, old_joint, *args):
        assert isinstance(old_joint, Joint)
        frame0, frame1 = old_joint.frames
        assert old_joint in frame0.body.childrenjoints
        assert old_joint is frame1.body.parentjoint
        if not args:
            raise RuntimeError("nb args is 0, need at least the new joint.")
        if len(args) == 1:
            args = (frame0, args[0], frame1)
        if len(args) % 3:
            raise RuntimeError("args not a multiple of 3. Template should be"+ \\
            "(old_joint, ..., child_frame, parent_frame, new_joint, ...)")
        siblings = args[0].body.childrenjoints
        assert frame0.body is args[0].body
        assert frame1.body is args[-1].body
        frame1.body.parentjoint = None
        old_joint.set_frames(None, None)
        self.add_link(*args)
        place = siblings.index(old_joint)
        new_joint = siblings.pop()
        siblings[place:place+1] = [new_joint]
        self.init()
 '''),
 ('core.py', 'World.init', '''
    def init(self):
        import itertools
        joints = list(self.iterjoints())
        ends = [0] + list(itertools.accumulate(j.ndof for j in joints))
        for j, start, stop in zip(joints, ends, ends[1:]):
            j._dof = slice(start, stop)
        n = self._ndof = ends[-1]
        for name in ('_mass', '_nleffects', '_viscosity'):
            setattr(self, name, zeros((n, n)))
        self._gforce = zeros(n)
        self._gvel = zeros(n)
        for j in joints:
            self._gvel[j.dof] = j.gvel
            j.gvel = self._gvel[j.dof]
        for obj in itertools.chain(self._constraints, self._controllers):
            obj.init(self)
 '''),
 ('core.py', 'World.update_dynamic', '''
    def update_dynamic(self):
        n = self._ndof
        self.ground.update_dynamic(eye(4), zeros((6, n)), zeros((6, n)), zeros(6))
        bodies = list(self.ground.iter_descendant_bodies())

        def total(term):
            return sum((term(b, b.jacobian.T) for b in bodies), zeros((n, n)))
        self._mass[:] = total(lambda b, Jt: Jt @ b.mass @ b.jacobian)
        self._viscosity[:] = total(lambda b, Jt: Jt @ b.viscosity @ b.jacobian)
        self._nleffects[:] = total(
            lambda b, Jt: Jt @ (b.mass @ b.djacobian + b.nleffects @ b.jacobian))
 '''),
 ('core.py', 'World.update_constraints', '''
    def _active_constraints(self, dt):
        active = []
        for c in self._constraints:
            if not c.is_enabled():
                continue
            c.update(dt)
            if c.is_active():
                active.append(c)
        stop = 0
        for c in active:
            c._dol = slice(stop, stop + c.ndol)
            stop = c._dol.stop
        return active

    def update_constraints(self, dt, maxiters=1000, tol=1e-4):
        assert dt > 0
        active = self._active_constraints(dt)
        jac = numpy.vstack([c.jacobian for c in active] + [zeros((0, self._ndof))])
        gforce = self._gforce + sum((c.gforce for c in active), zeros(self._ndof))
        JY = jac @ self._admittance
        vel = JY @ (self._mass @ self._gvel/dt + gforce)
        admittance = JY @ jac.T
        for k in range(maxiters):
            start = vel.copy()
            for c in active:
                dforce = c.solve(vel[c._dol], admittance[c._dol, c._dol], dt)
                vel = vel + admittance[:, c._dol] @ dforce
            if k and numpy.linalg.norm(vel - start) < tol:
                break
        for c in active:
            self._gforce += c.gforce
 '''),
 ('core.py', 'simulate', '''
def _check_clock(world, time):
    if world.current_time != time:
        warnings.warn('world.current_time != timeline[0]: \\
may become a problem if any conditions depend on world.current_time')


def _step(world, observers, dt):
    for stage in (world.update_dynamic, lambda: world.update_controllers(dt),
                  lambda: world.update_constraints(dt)):
        stage()
    for obs in observers:
        obs.update(dt)
    world.integrate(dt)


def simulate(world, timeline, observers=()):
    if isinstance(observers, dict):
        observers = list(observers.values())
    _check_clock(world, timeline[0])
    world._current_time = timeline[0]
    world.init()
    for obs in observers:
        obs.init(world, timeline)
    for next_time in timeline[1:]:
        _step(world, observers, next_time - world.current_time)
    for obs in observers:
        obs.finish()
 '''),
 ('controllers.py', 'WeightController.update', '''
    def update(self, dt=None):
        def pull(b):
            g = Hg.iadjoint(b.pose) @ self._gravity_dtwist
            return b.jacobian.T @ (b.mass @ g)
        return (sum(map(pull, self._bodies), zeros(self._wndof)), self._impedance)
 '''),
 ('controllers.py', 'ProportionalDerivativeController.update', '''
    def update(self, dt):
        n = self._wndof
        gforce, impedance = zeros(n), zeros((n, n))
        gpos = array([q for j in self.joints for q in j.gpos]).reshape(self._cndof)
        spring = self.kp @ (self.gpos_des - gpos)
        gforce[self._dof_map] = spring + self.kd @ self.gvel_des
        gains = dt*self.kp + self.kd
        for row, i in zip(gains, self._dof_map):
            impedance[i, self._dof_map] = -row
        return (gforce, impedance)
 '''),
 ('constraints.py', 'JointLimits.solve', '''
    def solve(self, vel, admittance, dt):
        prev_force = self._force.copy()
        # where the joint would go without force
        pred = self._pos0 + dt*(vel - admittance @ prev_force)
        low = pred <= self._min
        high = (pred >= self._max) & ~low
        stopped = [i for i in range(self.ndol) if low[i] or high[i]]
        force = zeros(self.ndol)
        if stopped:
            gap = [(self._min if low[i] else self._max)[i] - pred[i] for i in stopped]
            Y = admittance[ix_(stopped, stopped)]
            for i, f in zip(stopped, pinv(Y) @ array(gap)/dt):
                force[i] = max(f, 0) if low[i] else min(f, 0)
        self._force = force
        return force - prev_force
 '''),
 ('constraints.py', 'PointContact.update', '''
    def update(self, dt):
        (sdist, H_gc0, H_gc1) = self._collision_solver(self._shapes)
        for shape, frame, H in zip(self._shapes, self._frames, (H_gc0, H_gc1)):
            frame.bpose = Hg.inv(shape.frame.body.pose) @ H
        Ad = Hg.adjoint(Hg.inv(H_gc0) @ H_gc1)
        v0, v1 = (f.twist for f in self._frames)
        self._sdist = sdist
        self._is_active = sdist + dt*((Ad @ v1)[5] - v0[5]) < self._proximity
        self._force.fill(0.)
 '''),
 ('constraints.py', 'get_all_contacts', '''
def get_all_contacts(world, contact_class=None, **args):
    import itertools
    assert isinstance(world, World)
    if contact_class is None:
        contact_class = SoftFingerContact
    assert issubclass(contact_class, PointContact)

    def contacts():
        for pair in itertools.combinations(world.itershapes(), 2):
            if pair[0].frame.body is not pair[1].frame.body:
                try:
                    yield contact_class(pair, **args)
                except NotImplementedError:
                    continue
    return list(contacts())
 '''),
 ('collisions.py', '_sphere_sphere_collision', '''
def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
    between = p_g1 - p_g0
    dist = norm(between)
    z = between/dist
    H_gc0, H_gc1 = Hg.zaligned(z), Hg.zaligned(z)
    H_gc0[0:3, 3] = p_g0 + radius0*z
    H_gc1[0:3, 3] = p_g1 - radius1*z
    return (dist - (radius0 + radius1), H_gc0, H_gc1)
 '''),
 ('collisions.py', '_box_sphere_collision', '''
def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
    assert Hg.ishomogeneousmatrix(H_g0)
    p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
    inside = all(abs(x) <= h for x, h in zip(p_01, half_extents0))
    f_0 = p_01.copy()
    if inside:
        faces = [(h - s*x, k, s) for s in (1, -1) for k, (x, h) in enumerate(
            zip(p_01, half_extents0))]
        depth, k, s = faces[0]
        for face in faces[1:]:
            if face[0] < depth:
                depth, k, s = face
        f_0[k] = s*half_extents0[k]
        out = zeros(3)
        out[k] = s
        sdist = -depth - radius1
    else:
        for k, h in enumerate(half_extents0):
            f_0[k] = min(max(p_01[k], -h), h)
        out = p_01 - f_0
        away = norm(out)
        out = out/away
        sdist = away - radius1
    normal = Hg.vdot(H_g0, out)
    H_gc0, H_gc1 = Hg.zaligned(normal), Hg.zaligned(normal)
    H_gc0[0:3, 3] = Hg.pdot(H_g0, f_0)
    H_gc1[0:3, 3] = p_g1 - radius1*normal
    return (sdist, H_gc0, H_gc1)
 '''),
 ('observers.py', 'EnergyMonitor.update', '''
    def update(self, dt):
        world = self._world
        v = world.gvel
        Ec = .5*(v @ world.mass @ v)
        Ep = 9.81*sum(b.mass[3, 3]*((b.pose @ com)[0:3] @ world.up)
                      for b, com in self._com_pos.items())
        for values, x in ((self.time, world.current_time), (self.kinetic_energy, Ec),
                          (self.potential_energy, Ep), (self.mechanichal_energy, Ec + Ep)):
            values.append(x)
 '''),
 ('observers.py', 'CoMObserver.update', '''
    def update(self, dt):
        P, J, dJ = (zeros(x.shape) for x in (
            self._CoMPosition, self._CoMJacobian, self._CoMdJacobian))
        for b, m, H in zip(self.bodies, self.mass, self.H_body_com):
            pose = dot(b.pose, H)
            P += m*pose[0:3, 3]
            if self.compute_Jacobians is True:
                turn = zeros((4, 4))
                turn[0:3, 0:3] = pose[0:3, 0:3].T
                turn[3, 3] = 1.
                Ad = iadjoint(H @ turn)
                T = b.twist.copy()
                T[3:6] = cross(H[0:3, 3], T[0:3])
                J += m*(Ad @ b.jacobian)[3:6]
                dJ += m*(Ad @ b.djacobian + dAdjoint(Ad, T) @ b.jacobian)[3:6]
        self._CoMPosition[:] = P/self.total_mass
        self._CoMJacobian[:] = J/self.total_mass
        self._CoMdJacobian[:] = dJ/self.total_mass
 '''),
]
