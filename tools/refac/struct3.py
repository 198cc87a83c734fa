"""The parts the other specs leave alone: constructors, recorders, loggers, robots, shapes."""
EDITS = [
 ('core.py', 'simplearm', '''
def simplearm():
    import arboris.robots.simplearm as module
    w = World()
    getattr(module, 'add_simplearm')(world=w)
    return w
'''),
 ('core.py', 'NamedObject.__repr__', '''
    def __repr__(self):
        if self.name is None:
            return super(NamedObject, self).__repr__()
        cls = type(self)
        return f'<{cls.__module__}.{cls.__name__} object named "{self.name}" at "{id(self):#x}")>'
'''),
 ('core.py', 'NamedObjectsList.__init__', '''
    def __init__(self, iterable=None):
        super().__init__(() if iterable is None else iterable)
'''),
 ('core.py', 'NamedObjectsList.as_dict', '''
    def as_dict(self):
        """ Convert named-list as dict {'name': object}. """
        result = {}
        for obj in self:
            name = obj.name if isinstance(obj, NamedObject) else None
            if name is None:
                continue
            if result.setdefault(name, obj) is not obj or self._count(name) > 1:
                raise DuplicateNameError("Duplicated name: {0}".format(name))
        return result

    def _count(self, name):
        return sum(1 for x in self if isinstance(x, NamedObject) and x.name == name)
'''),
 ('core.py', 'Joint.__init__', '''
    def __init__(self, name=None):
        for attr in ('_frame0', '_frame1', '_dof'):
            setattr(self, attr, None)
        self.gpos, self.gvel = zeros((0, 0)), zeros((0,))
        super(Joint, self).__init__()
        NamedObject.__init__(self, name)
'''),
 ('core.py', 'Joint.dof', '''
    @property
    def dof(self):
        dof = self._dof
        if dof is not None:
            return dof
        raise ValueError("joint dof is None. run world.init() first.")
'''),
 ('core.py', 'Joint.twist', '''
    @property
    def twist(self):
        return numpy.asarray(self.jacobian) @ numpy.asarray(self.gvel)
'''),
 ('core.py', 'LinearConfigurationSpaceJoint.__init__', '''
    def __init__(self, gpos=None, gvel=None, name=None):
        Joint.__init__(self, name=name)

        def coordinates(given):
            if given is None:
                return zeros(self.ndof)
            return numpy.array(given, dtype='float64').reshape(self.ndof)
        self.gpos, self.gvel = map(coordinates, (gpos, gvel))
'''),
 ('core.py', 'LinearConfigurationSpaceJoint.integrate', '''
    def integrate(self, gvel, dt):
        numpy.add(self.gpos, gvel * dt, out=self.gpos)
        self.gvel = gvel
'''),
 ('core.py', 'JointsList._init_dof', '''
    def _init_dof(self):
        indices = []
        contiguous, stop = True, 0
        for j in (x for x in self if isinstance(x, Joint)):
            dof = j.dof
            assert dof.step in (None, 1)
            contiguous = contiguous and dof.start == stop
            stop = dof.stop
            indices += range(dof.start, dof.stop)
        self._dof = slice(0, stop) if contiguous else indices
'''),
 ('core.py', 'Constraint.__init__', '''
    def __init__(self, name=None):
        super().__init__(name)
        self._child_obj_to_reg = list()
        self._force = numpy.empty(0)
        self.enable()
'''),
 ('core.py', 'Constraint.gforce', '''
    @property
    def gforce(self):
        return self._force @ self.jacobian
'''),
 ('core.py', 'World.__init__', '''
    def __init__(self, name=None):
        super().__init__(name)
        self.ground = Body(name='ground')
        self._current_time = 0.
        self._up = numpy.eye(3)[1]
        for attr in ('controllers', 'constraints', 'subframes', 'shapes'):
            setattr(self, '_' + attr, [])
        self._ndof = 0
        for attr in ('gvel', 'mass', 'viscosity', 'nleffects', 'impedance', 'admittance',
                     'gforce'):
            setattr(self, '_' + attr, zeros(0))
'''),
 ('core.py', 'World.getframes', '''
    def getframes(self):
        return NamedObjectsList(self.iterframes())
'''),
 ('core.py', 'World.getjoints', '''
    def getjoints(self):
        return JointsList([*self.iterjoints()])
'''),
 ('core.py', 'World.itermovingsubframes', '''
    def itermovingsubframes(self):
        """ Iterate over all subframes. """
        yield from filter(lambda f: isinstance(f, MovingSubFrame), self._subframes)
'''),
 ('core.py', '_SubFrame.__init__', '''
    def __init__(self, body, bpose=None, name=None):
        NamedObject.__init__(self, name)
        Frame.__init__(self)
        H = eye(4) if bpose is None else bpose
        assert Hg.ishomogeneousmatrix(H)
        if not isinstance(body, Body):
            raise ValueError(
            "The ``body`` argument must be an instance of the ``Boby`` class")
        self._body = body
        self._bpose = numpy.array(H, float)
'''),
 ('core.py', 'Body.__init__', '''
    def __init__(self, name=None, mass=None, viscosity=None):
        NamedObject.__init__(self, name)
        Frame.__init__(self)
        if mass is not None:
            assert ismassmatrix(mass, semi=True)
        self.parentjoint, self.childrenjoints = None, []
        self.mass, self.viscosity = (
            zeros((6, 6)) if m is None else m for m in (mass, viscosity))
        self._pose = self._twist = self._jacobian = self._djacobian = self._nleffects = None
'''),
 ('joints.py', 'FreeJoint.__init__', '''
    def __init__(self, gpos=None, gvel=None, name=None):
        Joint.__init__(self, name)
        self.gpos = eye(4) if gpos is None else array(gpos, float).reshape(4, 4)
        self.gvel = zeros(6) if gvel is None else array(gvel, float).reshape(6)
'''),
 ('joints.py', 'FreeJoint.integrate', '''
    def integrate(self, gvel, dt):
        self.gvel = gvel
        step = exp(gvel * dt)
        self.gpos = self.gpos @ step
'''),
 ('joints.py', 'RzRyJoint.jacobian', '''
    @property
    def jacobian(self):
        J = zeros((6, 2))
        J[0, 0], J[2, 0] = -sin(self.gpos[1]), cos(self.gpos[1])
        J[1, 1] = 1.
        return J
'''),
 ('joints.py', 'RzRyJoint.djacobian', '''
    @property
    def djacobian(self):
        dJ = zeros((6, 2))
        y, dy = self.gpos[1], self.gvel[1]
        dJ[[0, 2], 0] = -dy*array([cos(y), sin(y)])
        return dJ
'''),
 ('joints.py', 'RzRxJoint.jacobian', '''
    @property
    def jacobian(self):
        x = self.gpos[-1]
        col = [0., sin(x), cos(x), 0., 0., 0.]
        return array(list(zip(col, eye(6)[0])))
'''),
 ('joints.py', 'RzRxJoint.djacobian', '''
    @property
    def djacobian(self):
        (_, x), (_, dx) = self.gpos, self.gvel
        dJ = zeros((6, 2))
        dJ[1:3, 0] = dx*cos(x), -dx*sin(x)
        return dJ
'''),
 ('joints.py', 'RzJoint.ipose', '''
    @property
    def ipose(self):
        return self.pose.T
'''),
 ('adjointmatrix.py', 'isadjointmatrix', '''
def isadjointmatrix(Ad, _tol=1e-9):
    """ Return true if *Ad* is an adjoint matrix. """
    if np.shape(Ad) != (6, 6):
        return False
    (R, Z), (B, R2) = [np.hsplit(rows, 2) for rows in np.vsplit(Ad, 2)]
    if np.abs(np.linalg.det(R) - 1) > _tol:
        return False
    px = B @ R.T
    return bool(max(np.abs(R - R2).max(), np.abs(Z).max(), np.abs(px + px.T).max()) <= _tol)
'''),
 ('shapes.py', 'Plane.__init__', '''
    def __init__(self, frame, coeffs=(0., 1., 0., 0.), name=None):
        super().__init__(frame, name)
        a, b, c, d = coeffs
        self.coeffs = array([a, b, c, d])/(a*a + b*b + c*c)**.5
'''),
 ('shapes.py', 'Sphere.__init__', '''
    def __init__(self, frame, radius=1., name=None):
        assert not radius < 0.
        self.radius = radius
        super().__init__(frame=frame, name=name)
'''),
 ('shapes.py', 'Box.__init__', '''
    def __init__(self, frame, half_extents=(1., 1., 1.), name=None):
        super().__init__(frame, name)
        self.half_extents = half_extents
'''),
 ('constraints.py', 'JointLimits.__init__', '''
    def __init__(self, joint, min_limits, max_limits, proximity=None, name=None):
        if not isinstance(joint, LinearConfigurationSpaceJoint):
            raise ValueError()
        super().__init__(name)
        shape = (joint.ndof,)
        self._joint = joint
        if proximity is None:
            proximity = shape[0]*[joint_limits_proximity]
        self._min, self._max, self._proximity = (
            array(x).reshape(shape) for x in (min_limits, max_limits, proximity))
        self._pos0 = self._jacobian = None
        self._force = zeros(shape)
'''),
 ('constraints.py', 'PointContact.__init__', '''
    def __init__(self, shapes, collision_solver, proximity, name):
        for s in shapes[:2]:
            assert isinstance(s, Shape)
        super().__init__(name)
        if collision_solver is None:
            shapes, collision_solver = choose_solver(*shapes)
        self._is_active = self._sdist = None
        self._proximity = proximity
        self._collision_solver = collision_solver
        self._shapes = shapes
        self._frames = tuple(MovingSubFrame(s.frame.body) for s in shapes)
        self._child_obj_to_reg += self._frames
'''),
 ('constraints.py', 'SoftFingerContact.__init__', '''
    def __init__(self, shapes, friction_coeff, collision_solver=None,
                 proximity=0.02, name=None):
        super().__init__(shapes, collision_solver, proximity, name)
        self._mu, self._eps, self._force = friction_coeff, zeros(3) + 1., zeros(4)
'''),
 ('controllers.py', 'WeightController.__init__', '''
    def __init__(self, gravity=-9.81, name=None):
        super().__init__(name)
        self.gravity = float(gravity)
        self._bodies = self._wndof = self._gravity_dtwist = self._impedance = None
'''),
 ('controllers.py', 'WeightController.init', '''
    def init(self, world):
        assert isinstance(world, World)
        n = self._wndof = world.ndof
        self._impedance = zeros((n, n))
        self._gravity_dtwist = array([0., 0., 0., *(self.gravity*x for x in world.up)])
        self._bodies = list(filter(lambda b: (b.mass > 0.).any(),
                                   world.ground.iter_descendant_bodies()))
'''),
 ('controllers.py', 'ProportionalDerivativeController.__init__', '''
    def __init__(self, joints, kp=None, kd=None, gpos_des=None, gvel_des=None, name=None):
        Controller.__init__(self, name=name)
        joints = tuple(joints)
        if not all(isinstance(j, LinearConfigurationSpaceJoint) for j in joints):
            raise ValueError('Joints must be LinearConfigurationSpaceJoint instances')
        self.joints = joints
        self._map_dofs()
        n = self._cndof = sum(j.ndof for j in joints)
        self._wndof = None

        def given(x, shape):
            return zeros(shape) if x is None else array(x).reshape(shape)
        self.kp, self.kd = given(kp, (n, n)), given(kd, (n, n))
        self.gpos_des, self.gvel_des = given(gpos_des, n), given(gvel_des, n)

    def _map_dofs(self):
        dofs = [i for j in self.joints for i in range(j.dof.start, j.dof.stop)]
        self._dof_map = array(dofs, dtype=int)
'''),
 ('controllers.py', 'ProportionalDerivativeController.init', '''
    def init(self, world):
        self._wndof = world.ndof
        self._map_dofs()
'''),
 ('observers.py', 'EnergyMonitor.__init__', '''
    def __init__(self, name=None):
        super().__init__(name)
        self._world = self._bodies = None
        self._clear()

    def _clear(self):
        for attr in ('time', 'kinetic_energy', 'potential_energy', 'mechanichal_energy'):
            setattr(self, attr, [])
        self._com_pos = {}
'''),
 ('observers.py', 'EnergyMonitor.init', '''
    def init(self, world, timeline):
        self._clear()
        self._world = world
        self._bodies = world.ground.iter_descendant_bodies
        self._com_pos.update((b, principalframe(b.mass)[:, 3])
                             for b in self._bodies() if b.mass[5, 5] > 0)
'''),
 ('observers.py', 'EnergyMonitor.update', '''
    def update(self, dt):
        w = self._world
        v = w.gvel
        Ec = .5*(v @ w.mass @ v)
        Ep = 9.81*sum(b.mass[3, 3]*((b.pose @ c)[:3] @ w.up) for b, c in self._com_pos.items())
        for record, value in ((self.time, w.current_time), (self.kinetic_energy, Ec),
                              (self.potential_energy, Ep), (self.mechanichal_energy, Ep+Ec)):
            record.append(value)
'''),
 ('observers.py', 'PerfMonitor.update', '''
    def update(self, dt):
        previous, self._last_time = self._last_time, _time()
        self._computation_time += [self._last_time - previous]
        if self._logger:
            self._logger.info('current time (s): %.3f', self._world.current_time)
'''),
 ('observers.py', 'PerfMonitor.get_summary', '''
    def get_summary(self):
        t = self._computation_time
        rows = zip(('total', 'min', 'mean', 'max'), (sum(t), min(t), sum(t)/len(t), max(t)))
        return '\\n'.join(f'{k} computation time (s): {v}' for k, v in rows)
'''),
 ('observers.py', 'SaveLogger.update', '''
    def update(self, dt):
        """ Save the current data (state...). """
        k, w = self._current_step, self._world
        assert not k > self._nb_steps
        self._timeline[k] = w.current_time
        if self._save_state:
            for j in w.iterjoints():
                for table, value in ((self._gpositions, j.gpos), (self._gvelocities, j.gvel)):
                    table[j.name][k, ...] = value
        if self._save_transforms:
            for name in self._arb_transforms:
                v = self._arb_transforms[name]
                relative = isinstance(v, MovingSubFrame) and not self._flat
                self._transforms[name][k] = v.bpose if relative else v.pose
        if self._save_model:
            for name in self._model:
                self._model[name][k] = getattr(w, name)
        self._current_step = k + 1
'''),
 ('observers.py', 'SaveLogger.init', '''
    def init(self, world, timeline):
        n = len(timeline) - 1
        self._world, self._nb_steps, self._current_step = world, n, 0
        self._timeline = zeros((n,))
        self._root = root = {"timeline": self._timeline}

        if self._save_state:
            joints = list(world.iterjoints())
            name_all_elements(joints, check_unicity=True)
            root['gpositions'] = self._gpositions = {
                j.name: zeros((n, *j.gpos.shape)) for j in joints}
            root['gvelocities'] = self._gvelocities = {
                j.name: zeros((n, j.ndof)) for j in joints}

        if self._save_transforms:
            if self._flat:
                pairs = [(b, b) for b in world.getbodies()]
            else:
                pairs = [(j.frame1, j) for j in world.getjoints()]
            named = [p[0] for p in pairs]
            moving = list(world.itermovingsubframes())
            name_all_elements(named + [f for f in moving if f not in named], True)
            pairs += zip(moving, moving)
            self._arb_transforms = {f.name: obj for f, obj in pairs}
            root['transforms'] = self._transforms = {
                name: zeros((n, 4, 4)) for name in self._arb_transforms}

        if self._save_model:
            ndof = world.ndof
            shapes = {"gvel": (ndof,), "mass": (ndof, ndof), "admittance": (ndof, ndof),
                      "nleffects": (ndof, ndof), "gforce": (ndof,)}
            root['model'] = self._model = {k: zeros((n,) + s) for k, s in shapes.items()}
'''),
 ('observers.py', 'CoMObserver.__init__', '''
    def __init__(self, bodies, compute_Jacobians=True, name=None):
        super().__init__(name)
        self.user_bodies, self.compute_Jacobians = bodies, compute_Jacobians
        self.H_body_com, self.mass, self.bodies, self.total_mass = [], [], [], 0.
        self._reset(0)

    def _reset(self, n):
        self._CoMPosition = zeros(3)
        self._CoMJacobian, self._CoMdJacobian = zeros((3, n)), zeros((3, n))
'''),
 ('observers.py', 'CoMObserver.init', '''
    def init(self, world, timeline=None):
        self.bodies = [b for b in self.user_bodies if not b.mass[5, 5] <= 0]
        self.mass = [b.mass[5, 5] for b in self.bodies]
        self.H_body_com = [principalframe(b.mass) for b in self.bodies]
        self.total_mass = sum(self.mass)
        self._reset(world.ndof)
'''),
 ('observers.py', '_Recorder.init', '''
    def init(self, world, timeline):
        self._record = [None for _ in timeline[1:]]
        self._index = 0
'''),
 ('observers.py', 'RecordJointGpos.update', '''
    def update(self, dt):
        value = self.joint.gpos
        self.save_data(value + 0.)
'''),
 ('observers.py', 'SocketCom.init', '''
    def init(self, world, timeline):
        self.s.listen(1)
        try:
            accepted = self.s.accept()
        except socket.error:
            print("Connection error: no connection occurs")
        else:
            self.conn, self.addr = accepted
            print('Connected by', self.addr)
'''),
 ('observers.py', 'SocketCom.finish', '''
    def finish(self):
        from contextlib import suppress
        with suppress(socket.error):
            if self.conn is not None:
                self.conn.send(b"close_connection")
            self.s.close()
'''),
 ('observers.py', 'Hdf5Logger.__init__', '''
    def __init__(self, filename, group="/", mode='a', save_transforms=True,
                   save_state=False, save_model=False, flat=False, name=None):
        from functools import reduce
        super().__init__(save_transforms, save_state, save_model, flat, name)
        self._file = h5py.File(filename, mode)  # hdf5 file handlers
        self._h5_root = reduce(lambda root, g: root.require_group(g),
                               filter(None, group.split('/')), self._file)
'''),
 ('robots/icub.py', 'get_bodies_shapes_data', '''
def get_bodies_shapes_data():
    shapes = {name: [[dims, H] for dims, _, H in data]
              for name, data in get_bodies_data().items()}
    shapes["head"] += [[(.02,), transl(x, -.054, .0825)] for x in (-.034, .034)]
    return shapes
'''),
 ('robots/icub.py', 'add', '''
def add(w, is_fixed=False, create_shapes=True, create_contacts=True):
    def shape(frame, dims, name):
        """ The shape is known from the number of its dimensions. """
        match len(dims):
            case 3: return Box(frame, dims, name)
            case 2: return Cylinder(frame, *dims, name=name)
            case 1: return Sphere(frame, *dims, name=name)
        raise ValueError

    def inertia(dims, m):
        if len(dims) == 3:
            return box(dims, m)
        return {2: cylinder, 1: sphere}[len(dims)](*dims, m)

    bodies = {}
    for name, data in get_bodies_data().items():
        body = bodies[name] = Body(name=name)
        body.mass = sum((transport(inertia(dims, m), inv(H)) for dims, m, H in data),
                        zeros((6, 6)))

    if not is_fixed:
        w.add_link(w.ground, FreeJoint(name='root'), bodies['waist'])
    else:
        bodies.update(waist=w.ground)

    for name, (parent, H, child) in get_joints_data().items():
        w.add_link(SubFrame(bodies[parent], H), RzJoint(name=name), bodies[child])

    if create_shapes is True:
        for name, data in get_bodies_shapes_data().items():
            for dims, H in data:
                w.register(shape(SubFrame(bodies[name], H), dims, name + ".body_shape"))

    if create_contacts is True:
        for name, (parent, dims, H) in get_contact_data().items():
            sf = SubFrame(bodies[parent], H, name=name)
            w.register(shape(sf, dims, name) if dims else Point(sf, name=name))

    w.init()
'''),
 ('robots/snake.py', 'add_snake', '''
def add_snake(w, nbody, lengths=None, masses=None, gpos=None, gvel=None,
        is_fixed=True):
    from itertools import repeat
    assert isinstance(w, World)
    columns = []
    for given, default in ((lengths, .5), (masses, 2.), (gpos, 0.), (gvel, 0.)):
        column = list(repeat(default, nbody)) if given is None else given
        assert len(column) == nbody
        columns.append(column)

    if is_fixed:
        frame = w.ground
    else:
        frame = Body(mass=box((columns[0][0]/2.,)*3, columns[1][0]))
        w.add_link(w.ground, FreeJoint(), frame)

    turn = rotx(pi/2.)
    for length, mass, q, dq in zip(*columns):
        at_base = turn @ transl(0., -.5*length, 0.)
        body = Body(mass=transport(cylinder(length, .2*length, mass), at_base))
        w.add_link(frame, RzJoint(q, dq), body)
        frame = SubFrame(body, transl(0., length, 0.))
    w.register(frame)
    w.init()
'''),
 ('robots/simpleshapes.py', 'add_groundplane', '''
def add_groundplane(world):
    """Add a ground plane using a plane shape. """
    world.register(Plane(world.ground, (*world.up, 0.), name='Ground shape'))
'''),
 ('robots/simplearm.py', 'add_simplearm', '''
def add_simplearm(world, name='', lengths=(0.5 , 0.4 , 0.2),
                  masses=(1.0, 0.8, 0.2), with_shapes=False):
    assert isinstance(world, World)
    frame = world.ground
    parts = zip(('Arm', 'Forearm', 'Hand'), ('Shoulder', 'Elbow', 'Wrist'),
                ('ElbowBaseFrame', 'WristBaseFrame', 'EndEffector'), lengths, masses)
    bodies = []
    for part, joint, end, l, m in parts:
        extents = (l/20., l/2., l/20.)
        middle = Hg.transl(0., l/2., 0.)
        M = arboris.massmatrix.transport(arboris.massmatrix.box(extents, m), Hg.inv(middle))
        body = Body(name + part, M)
        if with_shapes:
            world.register(arboris.shapes.Box(SubFrame(body, middle), extents))
        bodies.append((joint, body, SubFrame(body, Hg.transl(0, l, 0), name + end)))
    for joint, body, end in bodies:
        world.add_link(frame, RzJoint(name=name + joint), body)
        frame = end
    world.register(frame)
    world.init()
'''),
]
