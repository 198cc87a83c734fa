EDITS = [
 # ------------------------------------------------------------------ observers
 ('observers.py', 'EnergyMonitor.init', '''
    def init(self, world, timeline):
        for k in ('time', 'kinetic_energy', 'potential_energy', 'mechanichal_energy'):
            setattr(self, k, [])
        self._world = world
        self._bodies = world.ground.iter_descendant_bodies
        self._com_pos = dict((b, principalframe(b.mass)[:, 3])
                             for b in world.ground.iter_descendant_bodies()
                             if b.mass[5, 5] > 0)
 '''),
 ('observers.py', 'EnergyMonitor.update', '''
    def _kinetic(self):
        v = self._world.gvel
        return .5 * v.dot(self._world.mass.dot(v))

    def _potential(self):
        up = self._world.up
        return 9.81 * sum([b.mass[3, 3] * dot(up, b.pose.dot(c)[:3])
                           for b, c in self._com_pos.items()], 0.)

    def update(self, dt):
        e, p = self._kinetic(), self._potential()
        for log, x in ((self.time, self._world.current_time), (self.kinetic_energy, e),
                       (self.potential_energy, p), (self.mechanichal_energy, p + e)):
            log.append(x)
 '''),
 ('observers.py', 'SaveLogger.init', '''
    def _new_group(self, name):
        g = {}
        self._root[name] = g
        return g

    def init(self, world, timeline):
        self._world = world
        n = self._nb_steps = len(timeline) - 1
        self._current_step = 0
        self._timeline = zeros(n)
        self._root = {"timeline": self._timeline}
        joints = self._world.getjoints()
        if self._save_state:
            self._gpositions = self._new_group('gpositions')
            self._gvelocities = self._new_group('gvelocities')
            name_all_elements(joints, check_unicity=True)
            for j in joints:
                self._gpositions[j.name] = zeros((n,) + j.gpos.shape)
                self._gvelocities[j.name] = zeros((n, j.ndof))
        if self._save_transforms:
            self._transforms = self._new_group('transforms')
            moving = list(self._world.itermovingsubframes())
            if self._flat:
                bodies = list(self._world.iterbodies())
                name_all_elements(bodies + moving, True)
                self._arb_transforms = dict((b.name, b) for b in bodies)
            else:
                ends = [j.frame1 for j in joints]
                name_all_elements(ends + [f for f in moving if f not in ends], True)
                self._arb_transforms = dict((j.frame1.name, j) for j in joints)
            self._arb_transforms.update((f.name, f) for f in moving)
            self._transforms.update((k, zeros((n, 4, 4))) for k in self._arb_transforms)
        if self._save_model:
            nd = self._world.ndof
            self._model = self._new_group('model')
            for k in ('gvel', 'gforce'):
                self._model[k] = zeros((n, nd))
            for k in ('mass', 'admittance', 'nleffects'):
                self._model[k] = zeros((n, nd, nd))
 '''),
 ('observers.py', 'SaveLogger.update', '''
    def update(self, dt):
        i = self._current_step
        assert i <= self._nb_steps
        w = self._world
        self._timeline[i] = w.current_time
        if self._save_state:
            for j in w.getjoints():
                self._gpositions[j.name][i, ...] = j.gpos
                self._gvelocities[j.name][i, ...] = j.gvel
        if self._save_transforms:
            for k in self._arb_transforms:
                v = self._arb_transforms[k]
                inner = isinstance(v, MovingSubFrame) and not self._flat
                self._transforms[k][i] = v.bpose if inner else v.pose
        if self._save_model:
            for k in list(self._model):
                self._model[k][i] = getattr(w, k)
        self._current_step = i + 1
 '''),
 ('observers.py', 'PickleLogger.finish', '''
    def finish(self):
        _file = open(self._filename, self._mode)
        try:
            pkl.dump(self._root, _file, self._protocol)
        finally:
            _file.close()
 '''),
 ('observers.py', 'Hdf5Logger.finish', '''
    @staticmethod
    def _write(group, name, value):
        dset = group.require_dataset(name, value.shape, "f8")
        dset[:] = value

    def finish(self):
        for elem, value in self._root.items():
            if elem == "timeline":
                self._write(self._h5_root, elem, value)
                continue
            g = self._h5_root.require_group(elem)
            for k in sorted(value):
                self._write(g, k, value[k])
        self._file.close()
 '''),
 ('observers.py', 'CoMObserver.init', '''
    def init(self, world, timeline=None):
        self.bodies, self.mass, self.H_body_com = [], [], []
        for b in self.user_bodies:
            m = b.mass[5, 5]
            if not m > 0:
                continue
            self.bodies.append(b)
            self.mass.append(m)
            self.H_body_com.append(principalframe(b.mass))
        self.total_mass = sum(self.mass)
        n = world.ndof
        self._CoMPosition = zeros(3)
        self._CoMJacobian, self._CoMdJacobian = zeros((3, n)), zeros((3, n))
 '''),
 ('observers.py', 'CoMObserver.update', '''
    def _jacobians_of(self, body, H_bc, H_0c):
        """Jacobian of the com of body, in a frame aligned with the ground, and derivative."""
        H = zeros((4, 4))
        H[0:3, 0:3] = H_0c[0:3, 0:3].T
        H[3, 3] = 1.
        Ad = iadjoint(dot(H_bc, H))
        T = body.twist.copy()
        T[3:6] = cross(H_bc[0:3, 3], T[0:3])
        J = dot(Ad, body.jacobian)
        dJ = dot(Ad, body.djacobian) + dot(dAdjoint(Ad, T), body.jacobian)
        return J[3:6, :], dJ[3:6, :]

    def update(self, dt):
        p, J, dJ = zeros(3), zeros(self._CoMJacobian.shape), zeros(self._CoMdJacobian.shape)
        for body, m, H_bc in zip(self.bodies, self.mass, self.H_body_com):
            H_0c = dot(body.pose, H_bc)
            p = p + m * H_0c[0:3, 3]
            if self.compute_Jacobians:
                Ji, dJi = self._jacobians_of(body, H_bc, H_0c)
                J = J + m * Ji
                dJ = dJ + m * dJi
        M = self.total_mass
        self._CoMPosition, self._CoMJacobian, self._CoMdJacobian = p / M, J / M, dJ / M
 '''),
 ('observers.py', '_Recorder.init', '''
    def init(self, world, timeline):
        self._record = []
 '''),
 ('observers.py', '_Recorder.save_data', '''
    def save_data(self, data):
        """ Save ``data`` in inner list. """
        self._record.append(data)
 '''),
 ('observers.py', 'RecordFramePose.update', '''
    def update(self, dt):
        pose = self.frame.pose
        self.save_data(pose.copy())
 '''),
 ('observers.py', 'RecordDistance.update', '''
    def update(self, dt):
        sdist, H0, H1 = self.solver(self.shapes)
        self.save_data(sdist)
 '''),
 # --------------------------------------------------------------------- shapes
 ('shapes.py', 'Plane.__init__', '''
    def __init__(self, frame, coeffs=(0., 1., 0., 0.), name=None):
        Shape.__init__(self, frame, name)
        c = array(coeffs)
        self.coeffs = c * (1. / norm(c[:3]))
 '''),
 ('shapes.py', 'Cylinder.__init__', '''
    def __init__(self, frame, length=1., radius=1., name=None):
        assert not radius < 0.
        self.length, self.radius = length, radius
        Shape.__init__(self, frame, name)
 '''),
 # --------------------------------------------------------------------- robots
 ('robots/simplearm.py', 'add_simplearm', '''
    def _segment(world, name, length, mass, with_shapes):
        half = (length/20., length/2., length/20.)
        M = arboris.massmatrix.transport(arboris.massmatrix.box(half, mass),
                                         Hg.inv(Hg.transl(0., length/2., 0.)))
        body = Body(name, M)
        if with_shapes:
            world.register(arboris.shapes.Box(SubFrame(body, Hg.transl(0., length/2., 0.)), half))
        return body

    def add_simplearm(world, name='', lengths=(0.5 , 0.4 , 0.2),
                      masses=(1.0, 0.8, 0.2), with_shapes=False):
        """Build a  planar 3-R robot."""
        assert isinstance(world, World)
        base = world.ground
        for part, joint, end, l, m in zip(('Arm', 'Forearm', 'Hand'),
                                          ('Shoulder', 'Elbow', 'Wrist'),
                                          ('ElbowBaseFrame', 'WristBaseFrame', 'EndEffector'),
                                          lengths, masses):
            body = _segment(world, name + part, l, m, with_shapes)
            world.add_link(base, RzJoint(name=name + joint), body)
            base = SubFrame(body, Hg.transl(0, l, 0), name + end)
        world.register(base)
        world.init()
 '''),
 ('robots/snake.py', 'add_snake', '''
    def _or_default(values, default, nbody):
        if values is None:
            values = [default] * nbody
        assert len(values) == nbody
        return values

    def add_snake(w, nbody, lengths=None, masses=None, gpos=None, gvel=None,
            is_fixed=True):
        """Add a snake-shape robot to the world."""
        assert isinstance(w, World)
        lengths = _or_default(lengths, .5, nbody)
        masses = _or_default(masses, 2., nbody)
        gpos = _or_default(gpos, 0., nbody)
        gvel = _or_default(gvel, 0., nbody)
        frame = w.ground
        if not is_fixed:
            half = lengths[0] * .5
            frame = Body(mass=box([half] * 3, masses[0]))
            w.add_link(w.ground, FreeJoint(), frame)
        for i in range(nbody):
            l = lengths[i]
            H = dot(rotx(pi/2.), transl(0., -l/2., 0.))
            body = Body(mass=transport(cylinder(l, l/5., masses[i]), H))
            w.add_link(frame, RzJoint(gpos=gpos[i], gvel=gvel[i]), body)
            frame = SubFrame(body, transl(0., l, 0.))
        w.register(frame)
        w.init()
 '''),
 ('robots/simpleshapes.py', 'add_sphere', '''
    def _add_free(world, name, mass, cls, *dims):
        assert isinstance(world, World)
        body = Body(name=name, mass=mass)
        world.add_link(world.ground, FreeJoint(), body)
        world.register(cls(body, *dims))
        world.init()

    def add_sphere(world, radius=1., mass=1., name=None):
        _add_free(world, name, massmatrix.sphere(radius, mass), Sphere, radius)
 '''),
 ('robots/simpleshapes.py', 'add_box', '''
    def add_box(world, half_extents=(1., 1., 1.), mass=1., name='Box'):
        _add_free(world, name, massmatrix.box(half_extents, mass), Box, half_extents)
 '''),
 ('robots/simpleshapes.py', 'add_cylinder', '''
    def add_cylinder(world, length=1., radius=1., mass=1., name='Cylinder'):
        M = massmatrix.cylinder(length, radius, mass)
        _add_free(world, name, M, Cylinder, length, radius)
 '''),
 ('robots/simpleshapes.py', 'add_groundplane', '''
    def add_groundplane(world):
        a, b, c = world.up
        ground = Plane(world.ground, (a, b, c, 0.), 'Ground shape')
        world.register(ground)
 '''),
 ('robots/human36.py', None, ("""        #mass matrix at com
        mass_g = mass * diag(hstack((gyration_radius**2, (1, 1, 1))))
        H_fg = eye(4)
        H_fg[0:3, 3] = com_position
        H_gf = Hg.inv(H_fg)
        #mass matrix at body's frame origin:
        mass_o = dot(Hg.adjoint(H_gf).T, dot(mass_g, Hg.adjoint(H_gf)))
""", """        x, y, z = gyration_radius
        at_com = diag([mass*x*x, mass*y*y, mass*z*z, mass, mass, mass])
        Ad = Hg.iadjoint(Hg.transl(*com_position))
        mass_o = Ad.T.dot(at_com).dot(Ad)
""")),
 ('robots/human36.py', None, ("""    # Add point shapes to the feet
    for k in ('Right foot toe tip', 'Right foot heel',
             'Right foot phalange 5', 'Right foot phalange 1',
             'Left foot toe tip','Left foot heel',
              'Left foot phalange 5','Left foot phalange 1'):
        name = prefix + k
        shape = Point(tags[name], name=name)
        w.register(shape)
""", """    for side in ('Right', 'Left'):
        for part in ('toe tip', 'heel', 'phalange 5', 'phalange 1'):
            name = '%s%s foot %s' % (prefix, side, part)
            w.register(Point(tags[name], name))
""")),
 ('robots/human36.py', None, ("""    def add_link(body0, transl, joint, name, body1):
        if not isinstance(body0, Body):
            body0 = bodies[prefix+body0]
        frame0 = SubFrame(body0, Hg.transl(*transl))
        joint.name = prefix + name
        w.add_link(frame0, joint, bodies[prefix+body1])
""", """    def add_link(body0, where, joint, name, body1):
        parent = body0 if isinstance(body0, Body) else bodies[prefix+body0]
        child = bodies[prefix+body1]
        joint.name = prefix + name
        w.add_link(SubFrame(parent, Hg.transl(*where)), joint, child)
""")),
 ('robots/human36.py', 'height_from_anat_lengths', '''
    def height_from_anat_lengths(lengths):
        legs = [sum(lengths[p + s] for p in ('yfoot', 'ytibia', 'yfemur')) for s in 'RL']
        if legs[0] != legs[1]:
            raise ValueError("The legs have different lengths")
        return legs[1] + lengths['yvT10'] + lengths['yvC7'] + lengths['yhead']
 '''),
 ('robots/icub.py', 'add', '''
    def _solid(dims):
        """The mass matrix and the shape of a solid of these dimensions."""
        kinds = {0: (None, Point), 1: (sphere, Sphere), 2: (cylinder, Cylinder)}
        if len(dims) == 3:
            return (lambda m: box(dims, m)), (lambda f, name: Box(f, dims, name))
        m, s = kinds[len(dims)]
        return (lambda mass: m(*(tuple(dims) + (mass,)))), \\
               (lambda f, name: s(f, *dims, name=name))

    def add(w, is_fixed=False, create_shapes=True, create_contacts=True):
        bodies = {}
        for name, solids in get_bodies_data().items():
            total = zeros((6, 6))
            for dims, m, H in solids:
                total = total + transport(_solid(dims)[0](m), inv(H))
            bodies[name] = Body(name=name, mass=total)
        if is_fixed:
            bodies['waist'] = w.ground
        else:
            w.add_link(w.ground, FreeJoint(name='root'), bodies['waist'])
        for name, (parent, H, child) in get_joints_data().items():
            w.add_link(SubFrame(bodies[parent], H), RzJoint(name=name), bodies[child])
        if create_shapes is True:
            for name, data in get_bodies_shapes_data().items():
                for dims, H in data:
                    f = SubFrame(bodies[name], H)
                    w.register(_solid(dims)[1](f, name + ".body_shape"))
        if create_contacts is True:
            for name, (parent, dims, H) in get_contact_data().items():
                f = SubFrame(bodies[parent], H, name=name)
                w.register(_solid(dims)[1](f, name))
        w.init()
 '''),
 ('robots/icub.py', 'T_DH', '''
    def T_DH(d=0., t=0., r=0., a=0.):
        H = dot(rotz(t), rotx(a))
        H[0:3, 3] = r*cos(t), r*sin(t), d
        return H
 '''),
 # ----------------------------------------------------------------------- visu
 ('visu/world_drawer.py', 'hsv_to_rgb', '''
    def hsv_to_rgb(hsv):
        h, s, v = hsv
        sector = floor(h/60)
        f = h/60. - sector
        p, q, t = v * (1 - s), v * (1 - f*s), v * (1 - (1-f)*s)
        return ((v, t, p), (q, v, p), (p, v, t), (p, q, v), (t, p, v), (v, p, q))[sector % 6]
 '''),
 ('visu/world_drawer.py', 'DrawerDriver.__init__', '''
    def __init__(self, scale=1., options=None):
        self._options = dict(self.get_default_options(scale), **{})
        for k in options or {}:
            self._options[k] = options[k]
 '''),
 ('visu/world_drawer.py', 'ColorGenerator.__init__', '''
    def __init__(self, _map=None, nb_colors=20):
        self._palette = [hsv_to_rgb((360./nb_colors * k, 0.9, 0.9)) for k in range(nb_colors)]
        self._map = {}
        for k in _map or ():
            self.set_color(k, _map[k])
 '''),
 ('visu/world_drawer.py', 'ColorGenerator.get_color', '''
    def get_color(self, obj):
        for key in (obj, obj.name):
            if key in self._map:
                return self._map[key]
        if isinstance(obj, arboris.core.Body):
            self.set_color(obj, self.generate_color(obj))
            return self._map[obj]
        return self.get_color(self._body_of(obj))

    @staticmethod
    def _body_of(obj):
        if isinstance(obj, arboris.core.Shape):
            obj = obj.frame
        if not isinstance(obj, arboris.core.Frame):
            raise ValueError()
        return obj.body
 '''),
 ('visu/world_drawer.py', 'ColorGenerator.generate_color', '''
    def generate_color(self, obj):
        return self._palette.pop() if self._palette else (1., 1., 1.)
 '''),
 ('visu/world_drawer.py', 'Drawer._add_frame', '''
    def _add_frame(self, parent, pose, is_constant, name, color):
        add, d = self._driver.add_child, self._driver
        if is_constant and (pose[0:3, 3] != 0).any():
            add(parent, d.create_line((0., 0., 0.), pose[0:3, 3], color), 'link')
        node = d.create_transform(pose, is_constant, name)
        add(node, d.create_frame_arrows(), 'frame arrows')
        add(parent, node)
        return node
 '''),
 ('visu/world_drawer.py', 'Drawer.add_link', '''
    def add_link(self, f0, j, f1):
        core = arboris.core
        assert isinstance(f0, core.Frame)
        assert isinstance(j, core.Joint)
        assert isinstance(f1, core.Frame)
        if isinstance(f1, core.MovingSubFrame):
            raise ValueError()
        body = f1.body
        order = [body] if f1 is body else [body, f1] if self._flat else [f1, body]
        if self._flat:
            parent, pose = self._ground_node, body.pose
        else:
            parent, pose = self.frame_nodes[f0], j.pose
        for i, f in enumerate(order):
            if i:
                pose = f1.bpose if self._flat else inv(f1.bpose)
            parent = self._add_frame(parent, pose, i > 0, f.name,
                                     self._color_generator.get_color(f))
            self.frame_nodes[f] = parent
        if not self._flat:
            self.transform_nodes[j] = self.frame_nodes[f1]
 '''),
 ('visu/world_drawer.py', 'Drawer.register', '''
    def register(self, obj):
        core = arboris.core
        if isinstance(obj, core.Body):
            if norm(obj.mass)>10e-8:
                node = self._driver.create_inertia(obj.mass, self._color_generator.get_color(obj),
                                                   obj.name)
                self._driver.add_child(self.frame_nodes[obj], node, 'inertia')
        elif isinstance(obj, (core.SubFrame, core.MovingSubFrame)):
            if obj not in self.frame_nodes:
                self._register_frame(obj, isinstance(obj, core.MovingSubFrame))
        elif isinstance(obj, core.Shape):
            self._driver.add_child(self.frame_nodes[obj.frame], self._shape(obj), 'shape')

    def _register_frame(self, obj, moving):
        color = self._color_generator.get_color(obj)
        if moving and self._flat:
            node = self._add_frame(self._ground_node, obj.pose, False, obj.name, color)
        else:
            node = self._add_frame(self.frame_nodes[obj.body], obj.bpose, not moving, obj.name,
                                   color)
        self.frame_nodes[obj] = node
        if moving:
            self.transform_nodes[obj] = node

    def _shape(self, obj):
        color = self._color_generator.get_color(obj)
        S, d = arboris.shapes, self._driver
        if isinstance(obj, S.Box):
            return d.create_box(obj.half_extents, color, obj.name)
        if isinstance(obj, S.Plane):
            return d.create_plane(obj.coeffs, color, obj.name)
        if isinstance(obj, S.Cylinder):
            return d.create_cylinder(obj.length, obj.radius, color, obj.name)
        if isinstance(obj, S.Point):
            return d.create_point(color, obj.name)
        if isinstance(obj, S.Sphere):
            return d.create_sphere(obj.radius, color, obj.name)
        raise ValueError('Unknown shape')
 '''),
]
