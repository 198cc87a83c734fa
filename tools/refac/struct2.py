"""Other idioms again: numpy.insert/append/take/swapaxes/atleast_2d/vander-like building, walrus,
match statements, reduce, yield from, dict dispatch, index arithmetic, in-place ufuncs (out=),
local classes, generators, itertools, operator, numpy.linalg variants."""
EDITS = [
 ('homogeneousmatrix.py', 'transl', '''
def transl(t_x, t_y, t_z):
    H = numpy.identity(4)
    H[:3, -1] = t_x, t_y, t_z
    return H
'''),
 ('homogeneousmatrix.py', 'rotx', '''
def _plane_rotation(i, j, angle):
    """ Rotation of the axis i towards the axis j. """
    H = numpy.eye(4)
    H[[i, j], [i, j]] = cos(angle)
    H[j, i] = sin(angle)
    H[i, j] = -H[j, i]
    return H

def rotx(angle):
    return _plane_rotation(1, 2, angle)
'''),
 ('homogeneousmatrix.py', 'roty', '''
def roty(angle):
    return _plane_rotation(2, 0, angle)
'''),
 ('homogeneousmatrix.py', 'rotz', '''
def rotz(angle):
    return _plane_rotation(0, 1, angle)
'''),
 ('homogeneousmatrix.py', 'rotzy', '''
def rotzy(angle_z, angle_y):
    return rotz(angle_z) @ roty(angle_y)
'''),
 ('homogeneousmatrix.py', 'rotyx', '''
def rotyx(angle_y, angle_x):
    return numpy.linalg.multi_dot((roty(angle_y), rotx(angle_x)))
'''),
 ('homogeneousmatrix.py', 'ishomogeneousmatrix', '''
def ishomogeneousmatrix(H, _tol=tol):
    if not H.shape == (4, 4):
        return False
    if not numpy.absolute(numpy.linalg.det(H[:3, :3]) - 1.) <= _tol:
        return False
    return numpy.array_equal(H[-1], (0, 0, 0, 1))
'''),
 ('homogeneousmatrix.py', 'pdot', '''
def pdot(H, point):
    assert ishomogeneousmatrix(H)
    R, p = numpy.hsplit(H[:3], [3])
    return (R @ numpy.reshape(point, (3,))) + numpy.ravel(p)
'''),
 ('homogeneousmatrix.py', 'inv', '''
def inv(H):
    assert ishomogeneousmatrix(H)
    R_t = numpy.swapaxes(H[:3, :3], 0, 1)
    top = numpy.append(R_t, -numpy.atleast_2d(R_t @ H[:3, 3]).T, axis=1)
    return numpy.append(top, [[0., 0., 0., 1.]], axis=0)
'''),
 ('homogeneousmatrix.py', 'adjoint', '''
def adjoint(H):
    assert ishomogeneousmatrix(H)
    R = H[0:3, 0:3]
    Ad = zeros((2, 3, 2, 3))
    Ad[0, :, 0, :] = Ad[1, :, 1, :] = R
    Ad[1, :, 0, :] = numpy.cross(H[0:3, 3], R.T).T
    return Ad.reshape(6, 6)
'''),
 ('homogeneousmatrix.py', 'zaligned', '''
def zaligned(vec):
    assert numpy.abs(numpy.linalg.norm(vec)-1) < 1e-9
    z = numpy.array(vec, dtype=float)
    small, middle, large = numpy.abs(z).argsort()
    x = zeros(3)
    numpy.put(x, [middle, large], [z[large], -z[middle]])
    x = numpy.true_divide(x, numpy.sqrt(numpy.square(x).sum()))
    H = numpy.eye(4)
    H[:3, :3] = numpy.stack([x, numpy.cross(z, x), z], axis=-1)
    return H
'''),
 ('twistvector.py', 'adjacency', '''
def adjacency(tw):
    assert tw.shape == (6,)
    out = zeros((6, 6))
    for k, (i, j) in enumerate(((1, 2), (2, 0), (0, 1))):
        for block in (0, 3):
            out[block+j, block+i] = tw[k]
            out[block+i, block+j] = -tw[k]
        out[3+j, i] = tw[3+k]
        out[3+i, j] = -tw[3+k]
    return out
'''),
 ('twistvector.py', 'exp', '''
def exp(tw):
    assert tw.shape == (6,)
    w, v = tw.reshape(2, 3)
    wx = zeros((3, 3))
    wx[(2, 0, 1), (1, 2, 0)] = w
    wx -= wx.T.copy()
    sc, cc, dsc = 1. - dot(w, w)/6., .5, 1./6.
    if (t := norm(w)) >= 0.001:
        sc, cc, dsc = sin(t)/t, (1 - cos(t))/(t*t), (t - sin(t))/(t*t*t)
    H = eye(4)
    H[:3, :3] += sc*wx + cc*(wx @ wx)
    H[:3, 3] = sc*v + cc*dot(wx, v) + (dsc*dot(w, v))*w
    return H
'''),
 ('adjointmatrix.py', 'inv', '''
def inv(Ad):
    A = Ad.reshape(2, 3, 2, 3)
    T = np.transpose(A, (0, 3, 2, 1)).reshape(6, 6)
    T[0:3, 3:6] = 0.
    T[3:6, 3:6] = T[0:3, 0:3]
    return T
'''),
 ('massmatrix.py', 'transport', '''
def transport(M, H):
    assert ismassmatrix(M)
    assert Hg.ishomogeneousmatrix(H)
    from functools import reduce
    Ad = Hg.adjoint(H)
    return reduce(dot, (Ad.transpose(), M, Ad))
'''),
 ('massmatrix.py', 'box', '''
def _solid(a, b, c, k, mass):
    """ Mass matrix of a solid whose moments are mass/k times sums of squares. """
    squares = array([a, b, c])**2
    return diag(list((squares.sum() - squares)*(mass/k)) + 3*[mass])

def box(half_extents, mass):
    return _solid(*half_extents, k=3., mass=mass)
'''),
 ('massmatrix.py', 'ellipsoid', '''
def ellipsoid(radii, mass):
    a, b, c = radii
    return _solid(a, b, c, 5., mass)
'''),
 ('massmatrix.py', 'sphere', '''
def sphere(radius, mass):
    return ellipsoid((radius,)*3, mass)
'''),
 ('collisions.py', 'choose_solver', '''
def choose_solver(shape0, shape1):
    assert isinstance(shape0, Shape)
    assert isinstance(shape1, Shape)

    table = (
        (Sphere, Sphere, sphere_sphere_collision),
        (Sphere, Point, sphere_point_collision),
        (Plane, Sphere, plane_sphere_collision),
        (Box, Sphere, box_sphere_collision),
        (Plane, Point, plane_point_collision),
        (Box, Point, box_point_collision),
    )
    for pair in ((shape0, shape1), (shape1, shape0)):
        for k0, k1, solver in table:
            if all(map(isinstance, pair, (k0, k1))):
                return (pair, solver)
    raise NotImplementedError()
'''),
 ('collisions.py', '_sphere_sphere_collision', '''
def _contact_frames(normal, p0, p1):
    """ Two frames with their z-axis along the normal, at p0 and p1. """
    H0 = Hg.zaligned(normal)
    H1 = H0.copy()
    for H, p in zip((H0, H1), (p0, p1)):
        H[0:3, 3] = p
    return H0, H1

def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
    vec = p_g1 - p_g0
    sdist = (dist := norm(vec)) - radius0 - radius1
    z = vec/dist
    p_gc0 = p_g0 + radius0*z
    return (sdist, *_contact_frames(z, p_gc0, p_gc0 + sdist*z))
'''),
 ('collisions.py', '_plane_sphere_collision', '''
def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
    assert Hg.ishomogeneousmatrix(H_g0)
    n_0, offset = coeffs0[:3], coeffs0[3]
    assert abs(norm(n_0)-1) < 1e-9
    assert radius1 >= 0.
    normal = Hg.vdot(H_g0, n_0)
    height = dot(normal, p_g1 - H_g0[0:3, 3]) - offset
    H_gc0, H_gc1 = _contact_frames(normal, p_g1 - height*normal, p_g1 - radius1*normal)
    return (height - radius1, H_gc0, H_gc1)
'''),
 ('collisions.py', '_box_sphere_collision', '''
def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
    from numpy import clip, concatenate, copysign
    assert Hg.ishomogeneousmatrix(H_g0)
    half = concatenate((half_extents0,))
    p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
    f_0 = clip(p_01, -half, half)
    inside = (f_0 == p_01).all()
    if inside:
        gaps = concatenate((half - p_01, half + p_01))
        side, axis = divmod(int(argmin(gaps)), 3)
        normal = zeros(3)
        normal[axis] = 1 - 2*side
        f_0[axis] = half[axis] * normal[axis]
        depth = -gaps[axis + 3*side]
    else:
        vec = p_01 - f_0
        depth = norm(vec)
        normal = vec/depth
    f_g = Hg.pdot(H_g0, f_0)
    normal = Hg.vdot(H_g0, normal)
    return (depth - radius1, *_contact_frames(normal, f_g, p_g1 - radius1*normal))
'''),
 ('constraints.py', 'JointLimits.init', '''
    def init(self, world):
        n = self._joint.ndof
        start = self._joint.dof.start
        self._jacobian = eye(n, world.ndof, k=start)
'''),
 ('constraints.py', 'JointLimits.is_active', '''
    def is_active(self):
        gaps = array([self._pos0 - self._min, self._max - self._pos0])
        return bool((gaps < self._proximity).any())
'''),
 ('constraints.py', 'JointLimits.solve', '''
    def solve(self, vel, admittance, dt):
        prev_force = self._force
        pred = self._pos0 + dt*(vel - dot(admittance, prev_force))
        target = where(pred <= self._min, self._min,
                       where(self._max <= pred, self._max, pred))
        low = pred <= self._min
        high = (self._max <= pred) & ~low
        force = zeros(self.ndol)
        idx = (low | high).nonzero()[0]
        if idx.size:
            force[idx] = pinv(admittance[idx[:, None], idx]) @ ((target - pred)[idx]/dt)
            force[low] = force[low].clip(min=0)
            force[high] = force[high].clip(max=0)
        self._force = force
        return force - prev_force
'''),
 ('constraints.py', 'BallAndSocketConstraint.jacobian', '''
    @property
    def jacobian(self):
        f0, f1 = self._frames
        H_01 = Hg.inv(f0.pose) @ f1.pose
        full = Hg.adjoint(H_01) @ f1.jacobian - f0.jacobian
        return full[-3:]
'''),
 ('constraints.py', 'PointContact.update', '''
    def update(self, dt):
        (sdist, *poses) = self._collision_solver(self._shapes)
        for shape, frame, pose in zip(self._shapes, self._frames, poses):
            frame.bpose = Hg.inv(shape.frame.body.pose) @ pose
        f0, f1 = self._frames
        H_c0c1 = Hg.inv(poses[0]) @ poses[1]
        dsdist = (Hg.adjoint(H_c0c1) @ f1.twist - f0.twist)[5]
        self._is_active = not (sdist + dsdist*dt >= self._proximity)
        self._sdist = sdist
        self._force.fill(0.)
'''),
 ('constraints.py', 'get_all_contacts', '''
def get_all_contacts(world, contact_class=None, **args):
    from itertools import combinations
    from contextlib import suppress
    assert isinstance(world, World)
    contact_class = contact_class or SoftFingerContact
    assert issubclass(contact_class, PointContact)
    contacts = []
    for pair in combinations(world.itershapes(), 2):
        if pair[0].frame.body is not pair[1].frame.body:
            with suppress(NotImplementedError):
                contacts.append(contact_class(pair, **args))
    return contacts
'''),
 ('controllers.py', 'WeightController.update', '''
    def update(self, dt=None):
        from functools import reduce

        def wrench(b):
            return b.mass @ (Hg.iadjoint(b.pose) @ self._gravity_dtwist)
        gforce = reduce(lambda total, b: total + wrench(b) @ b.jacobian,
                        self._bodies, zeros(self._wndof))
        return (gforce, self._impedance)
'''),
 ('controllers.py', 'ProportionalDerivativeController.update', '''
    def update(self, dt):
        from itertools import chain
        gforce = zeros(self._wndof)
        impedance = zeros((self._wndof, self._wndof))
        gpos = array(list(chain.from_iterable(j.gpos for j in self.joints)))
        error = self.gpos_des - gpos.reshape(self._cndof)
        gforce.put(self._dof_map, self.kp @ error + self.kd @ self.gvel_des)
        Z = -(self.kp*dt + self.kd)
        for row, i in zip(Z, self._dof_map):
            impedance[i, self._dof_map] = row
        return (gforce, impedance)
'''),
 ('core.py', 'World.parse', '''
    def parse(self, target):
        registered = set()

        def visit(frame):
            if frame in registered:
                return
            registered.add(frame)
            target.register(frame)
            match frame:
                case Body():
                    for f in filter(lambda f: f.body is frame, self._subframes):
                        visit(f)
                case _:
                    pass
            for s in (s for s in self._shapes if s.frame is frame):
                target.register(s)

        def descend(body):
            for j in body.childrenjoints:
                target.add_link(j.frames[0], j, j.frames[1])
                visit(j.frames[1].body)
                descend(j.frames[1].body)

        target.init_parse(self.ground, self.up, self.current_time)
        visit(self.ground)
        descend(self.ground)
        for obj in [*self._constraints, *self._controllers]:
            target.register(obj)
'''),
 ('core.py', 'World.init', '''
    def init(self):
        """ Init the joints-space model of the world. """
        from itertools import accumulate
        joints = list(self.iterjoints())
        bounds = [0, *accumulate(j.ndof for j in joints)]
        for j, dof in zip(joints, map(slice, bounds, bounds[1:])):
            j._dof = dof
        n = self._ndof = bounds[-1]

        self._mass, self._nleffects, self._viscosity = (zeros((n, n)) for _ in range(3))
        self._gforce = zeros(n)
        self._gvel = zeros(n)
        for j in joints:
            view = self._gvel[j.dof]
            view[...] = j.gvel
            j.gvel = view

        for obj in self._constraints + self._controllers:
            obj.init(self)
'''),
 ('core.py', 'World.update_dynamic', '''
    def update_dynamic(self):
        n = self._ndof
        self.ground.update_dynamic(eye(4), zeros((6, n)), zeros((6, n)), zeros(6))
        for total in (self._mass, self._viscosity, self._nleffects):
            total.fill(0.)
        for b in self.ground.iter_descendant_bodies():
            J, dJ = b.jacobian, b.djacobian
            for total, part in ((self._mass, b.mass @ J),
                                (self._viscosity, b.viscosity @ J),
                                (self._nleffects, b.mass @ dJ + b.nleffects @ J)):
                numpy.add(total, J.T @ part, out=total)
'''),
 ('core.py', 'World.update_controllers', '''
    def update_controllers(self, dt):
        assert dt > 0
        outs = [a.update(dt) for a in self._controllers]
        self._gforce[:] = sum((g for g, _ in outs), zeros(self._ndof))
        impedance = numpy.divide(self._mass, dt)
        impedance += self._viscosity
        impedance += self._nleffects
        for _, z in outs:
            numpy.subtract(impedance, z, out=impedance)
        self._impedance = impedance
        self._admittance = numpy.linalg.solve(impedance, eye(self._ndof))
'''),
 ('core.py', 'World.update_constraints', '''
    def update_constraints(self, dt, maxiters=1000, tol=1e-4):
        assert dt > 0

        def actives():
            for c in self._constraints:
                if c.is_enabled():
                    c.update(dt)
                    if c.is_active():
                        yield c
        constraints = list(actives())
        end = 0
        for c in constraints:
            start, end = end, end + c.ndol
            c._dol = slice(start, end)
        jac = zeros((end, self._ndof))
        gforce = numpy.copy(self._gforce)
        for c in constraints:
            jac[c._dol] = c.jacobian
            gforce = gforce + c.gforce
        YJt = self._admittance @ jac.T
        vel = jac @ (self._admittance @ (self._mass @ self._gvel / dt + gforce))
        admittance = jac @ YJt
        k = 0
        while k < maxiters:
            previous_vel = vel.copy()
            for c in constraints:
                s = c._dol
                vel += admittance[:, s] @ c.solve(vel[s], admittance[s, s], dt)
            delta = vel - previous_vel
            if k and numpy.sqrt(delta @ delta) < tol:
                break
            k += 1
        self._gforce += sum((c.gforce for c in constraints), zeros(self._ndof))
'''),
 ('core.py', 'World.integrate', '''
    def integrate(self, dt):
        assert dt > 0
        momentum = self._mass @ self._gvel / dt
        numpy.copyto(self._gvel, self._admittance @ (momentum + self._gforce))
        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof], dt)
        self._current_time = self._current_time + dt
'''),
 ('core.py', 'World.add_link', '''
    def add_link(self, frame0, joint, frame1, *args):
        assert isinstance(frame0, Frame) and isinstance(frame1, Frame)
        assert isinstance(joint, Joint)
        assert joint.frame0 is joint.frame1 is None
        assert len(args) % 3 == 0
        parent, child = frame0.body, frame1.body
        loop = child is parent or child in parent.iter_ancestor_bodies()
        if child.parentjoint is not None or loop:
            raise ValueError("this link would make a kinematic loop: use a constraint instead.")
        joint.set_frames(frame0, frame1)
        child.parentjoint = joint
        parent.childrenjoints += [joint]
        for f in (frame0, frame1):
            self.register(f)
        if args:
            self.add_link(*args)
'''),
 ('core.py', 'Body.iter_descendant_bodies', '''
    def iter_descendant_bodies(self):
        """ Iterate over all descendant bodies, with a depth-first strategy. """
        yield from (j.frame1.body for j in self.iter_descendant_joints())
'''),
 ('core.py', 'Body.iter_ancestor_bodies', '''
    def iter_ancestor_bodies(self):
        yield from map(lambda j: j.frame0.body, self.iter_ancestor_joints())
'''),
 ('core.py', 'Body.iter_ancestor_joints', '''
    def iter_ancestor_joints(self):
        body = self
        while (joint := body.parentjoint) is not None:
            yield joint
            body = joint.frame0.body
'''),
 ('core.py', 'Body.update_geometric', '''
    def update_geometric(self, pose):
        from functools import reduce
        self._pose = pose
        for j in self.childrenjoints:
            chain = [pose, j.frame0.bpose, j.pose, Hg.inv(j.frame1.bpose)]
            j.frame1.body.update_geometric(reduce(dot, chain))
'''),
 ('core.py', 'Body.update_dynamic', '''
    def update_dynamic(self, pose, jac, djac, twist):
        self._pose, self._jacobian, self._djacobian, self._twist = pose, jac, djac, twist
        w = twist[:3]
        wx = numpy.cross(w, -eye(3))
        m = self.mass[5, 5]
        rx = self.mass[0:3, 3:6]/m if m > 1e-10 else zeros((3, 3))
        N = numpy.kron(eye(2), wx)
        N[0:3, 3:6] = rx @ wx - wx @ rx
        self._nleffects = N @ self.mass

        for j in self.childrenjoints:
            child = j.frame1.body
            H_cn, H_pr = j.frame1.bpose, j.frame0.bpose
            H_pc = numpy.linalg.multi_dot([H_pr, j.pose, Hg.inv(H_cn)])
            Ad_cp, Ad_cn = Hg.iadjoint(H_pc), Hg.adjoint(H_cn)
            dAd_cp = numpy.linalg.multi_dot([Ad_cn, j.idadjoint, Hg.iadjoint(H_pr)])
            J = Ad_cp @ jac
            dJ = Ad_cp @ djac
            dJ += dAd_cp @ jac
            numpy.add(J[:, j.dof], Ad_cn @ j.jacobian, out=J[:, j.dof])
            numpy.add(dJ[:, j.dof], Ad_cn @ j.djacobian, out=dJ[:, j.dof])
            child.update_dynamic(pose @ H_pc, J, dJ, Ad_cp @ twist + Ad_cn @ j.twist)
'''),
 ('core.py', 'simulate', '''
def simulate(world, timeline, observers=()):
    """ Run a full simulation. """
    observers = list(observers.values() if isinstance(observers, dict) else observers)
    start, *rest = timeline
    if start != world.current_time:
        warnings.warn('world.current_time differs from the start of the timeline')
    world._current_time = start
    world.init()

    def tell(method, *args):
        for obs in observers:
            getattr(obs, method)(*args)

    tell('init', world, timeline)
    while rest:
        dt = rest.pop(0) - world.current_time
        world.update_dynamic()
        for stage in (world.update_controllers, world.update_constraints):
            stage(dt)
        tell('update', dt)
        world.integrate(dt)
    tell('finish')
'''),
 ('rigidmotion.py', 'RigidMotion.idadjoint', '''
    @property
    def idadjoint(self):
        Ad = self.iadjoint
        return Ad @ T.adjacency(-(self.adjoint @ self.twist))
'''),
]
