EDITS = [
 ('core.py', 'World.update_dynamic', '''
    def update_dynamic(self):
        n = self._ndof
        self.ground.update_dynamic(eye(4), zeros((6, n)), zeros((6, n)), zeros(6))
        for total in (self._mass, self._viscosity, self._nleffects):
            total.fill(0.)
        for b in self.ground.iter_descendant_bodies():
            self._add_body(b)

    def _add_body(self, b):
        J, dJ = b.jacobian, b.djacobian
        Jt = J.transpose()
        self._mass += Jt.dot(b.mass.dot(J))
        self._viscosity += Jt @ b.viscosity @ J
        self._nleffects += Jt @ (b.mass @ dJ + b.nleffects @ J)
 '''),
 ('core.py', 'World.update_controllers', '''
    def update_controllers(self, dt):
        assert dt > 0
        outputs = [a.update(dt) for a in self._controllers]
        self._gforce[:] = sum([g for (g, Z) in outputs], zeros(self._ndof))
        impedance = self._mass/dt + self._viscosity + self._nleffects
        for (g, Z) in outputs:
            impedance = impedance - Z
        self._impedance = impedance
        self._admittance = numpy.linalg.inv(impedance)
 '''),
 ('core.py', 'World.update_constraints', '''
    def _active_constraints(self, dt):
        stop = 0
        for c in self._constraints:
            if not c.is_enabled():
                continue
            c.update(dt)
            if not c.is_active():
                continue
            start, stop = stop, stop + c.ndol
            c._dol = slice(start, stop)
            yield c

    def update_constraints(self, dt, maxiters=1000, tol=1e-4):
        assert dt > 0
        active = list(self._active_constraints(dt))
        ndol = sum(c.ndol for c in active)
        jac = zeros((ndol, self._ndof))
        gforce = self._gforce.copy()
        for c in active:
            jac[c._dol] = c.jacobian
            gforce = gforce + c.gforce
        Y = self._admittance
        vel = jac @ (Y @ (self._mass @ (self._gvel/dt) + gforce))
        admittance = jac @ Y @ jac.T
        k = 0
        while k < maxiters:
            previous_vel = vel.copy()
            for c in active:
                i = c._dol
                df = c.solve(vel[i], admittance[i, i], dt)
                vel = vel + admittance[:, i] @ df
            k += 1
            if k > 1 and numpy.linalg.norm(previous_vel - vel) < tol:
                break
        for c in active:
            self._gforce += c.gforce
 '''),
 ('core.py', 'World.integrate', '''
    def integrate(self, dt):
        assert dt > 0
        momentum = self._mass @ self._gvel
        self._gvel[:] = self._admittance @ (momentum/dt + self._gforce)
        for j in list(self.iterjoints()):
            j.integrate(self._gvel[j._dof], dt)
        self._current_time = self._current_time + dt
 '''),
 ('core.py', 'World.init', '''
    def init(self):
        joints = list(self.iterjoints())
        stop = 0
        for j in joints:
            start, stop = stop, stop + j.ndof
            j._dof = slice(start, stop)
        self._ndof = n = stop
        self._mass, self._nleffects, self._viscosity = [zeros((n, n)) for i in range(3)]
        self._gforce = zeros(n)
        gvel = zeros(n)
        for j in joints:
            gvel[j._dof] = j.gvel
            j.gvel = gvel[j._dof]
        self._gvel = gvel
        for x in self._constraints + self._controllers:
            x.init(self)
 '''),
 ('core.py', 'World.add_link', '''
    def add_link(self, frame0, joint, frame1, *args):
        assert isinstance(frame0, Frame)
        assert isinstance(frame1, Frame)
        assert isinstance(joint, Joint)
        assert joint.frame0 is None and joint.frame1 is None
        assert len(args) % 3 == 0
        parent, child = frame0.body, frame1.body
        loop = child.parentjoint is not None or child is parent or \\
            any(child is b for b in parent.iter_ancestor_bodies())
        if loop:
            raise ValueError("frame1's body already has a parent joint")
        joint.set_frames(frame0, frame1)
        child.parentjoint = joint
        parent.childrenjoints.append(joint)
        for f in (frame0, frame1):
            self.register(f)
        if args:
            self.add_link(*args)
 '''),
 ('core.py', 'World.parse', '''
    def parse(self, target):
        seen = []

        def visit_frame(frame):
            if any(frame is x for x in seen):
                return
            seen.append(frame)
            target.register(frame)
            if isinstance(frame, Body):
                for f in [f for f in self._subframes if f.body is frame]:
                    visit_frame(f)
            for s in self.itershapes():
                if s.frame is frame:
                    target.register(s)

        def visit_joints(body):
            for j in body.childrenjoints:
                target.add_link(j.frame0, j, j.frame1)
                visit_frame(j.frame1.body)
                visit_joints(j.frame1.body)

        target.init_parse(self.ground, self.up, self.current_time)
        visit_frame(self.ground)
        visit_joints(self.ground)
        for x in self._constraints + self._controllers:
            target.register(x)
 '''),
 ('core.py', 'Body.iter_descendant_bodies', '''
    def iter_descendant_bodies(self):
        stack = [j.frame1.body for j in reversed(self.childrenjoints)]
        while stack:
            b = stack.pop()
            yield b
            stack.extend(j.frame1.body for j in reversed(b.childrenjoints))
 '''),
 ('core.py', 'Body.iter_ancestor_bodies', '''
    def iter_ancestor_bodies(self):
        b = self
        while b.parentjoint is not None:
            b = b.parentjoint.frame0.body
            yield b
 '''),
 ('core.py', 'Body.iter_descendant_joints', '''
    def iter_descendant_joints(self):
        for j in self.childrenjoints:
            yield j
            yield from j.frame1.body.iter_descendant_joints()
 '''),
 ('core.py', 'Body.iter_ancestor_joints', '''
    def iter_ancestor_joints(self):
        j = self.parentjoint
        while j is not None:
            yield j
            j = j.frame0.body.parentjoint
 '''),
 ('core.py', 'Body.update_geometric', '''
    def update_geometric(self, pose):
        self._pose = pose
        for j in self.childrenjoints:
            j.frame1.body.update_geometric(dot(pose, self._link_pose(j)))

    @staticmethod
    def _link_pose(j):
        return dot(dot(j.frame0.bpose, j.pose), Hg.inv(j.frame1.bpose))

    def _update_nleffects(self):
        w = self._twist[0:3]
        wx = array([[    0, -w[2],  w[1]],
                    [ w[2],     0, -w[0]],
                    [-w[1],  w[0],     0]])
        N = zeros((6, 6))
        N[0:3, 0:3] = wx
        N[3:6, 3:6] = wx
        m = self.mass[5, 5]
        if m > 1e-10:
            rx = self.mass[0:3, 3:6]/m
            N[0:3, 3:6] = dot(rx, wx) - dot(wx, rx)
        self._nleffects = dot(N, self.mass)
 '''),
 ('core.py', 'Body.update_dynamic', '''
    def update_dynamic(self, pose, jac, djac, twist):
        self._pose = pose
        self._jacobian = jac
        self._djacobian = djac
        self._twist = twist
        self._update_nleffects()
        for j in self.childrenjoints:
            H_pc = self._link_pose(j)
            Ad_cp = Hg.iadjoint(H_pc)
            Ad_cn = Hg.adjoint(j.frame1.bpose)
            dAd_cp = Ad_cn.dot(j.idadjoint).dot(Hg.iadjoint(j.frame0.bpose))
            dof = j.dof
            child_jac = dot(Ad_cp, jac)
            child_djac = dot(Ad_cp, djac) + dot(dAd_cp, jac)
            child_jac[:, dof] += dot(Ad_cn, j.jacobian)
            child_djac[:, dof] += dot(Ad_cn, j.djacobian)
            j.frame1.body.update_dynamic(dot(pose, H_pc), child_jac, child_djac,
                                         dot(Ad_cp, twist) + dot(Ad_cn, j.twist))
 '''),
 ('core.py', 'NamedObjectsList.find', '''
    def find(self, name):
        return [o for o in self if isinstance(o, NamedObject) and o.name == name]
 '''),
 ('core.py', 'NamedObjectsList.as_dict', '''
    def as_dict(self):
        named = [o for o in self if isinstance(o, NamedObject) and o.name is not None]
        result = dict()
        for obj in named:
            if obj.name in result:
                raise DuplicateNameError("Duplicated name: " + str(obj.name))
            result[obj.name] = obj
        return result
 '''),
 ('core.py', 'name_all_elements', '''
def name_all_elements(nlist, check_unicity=False):
    elements = [e for e in nlist]
    for e in elements:
        if e.name is None:
            e.name = '%d' % id(e)
    if check_unicity is True:
        seen, twice = set(), []
        for e in elements:
            if e.name in seen:
                twice.append(e.name)
            seen.add(e.name)
        if twice:
            raise DuplicateNameError('Some names are duplicated: ' + repr(twice))
 '''),
 ('core.py', 'JointsList._init_dof', '''
    def _init_dof(self):
        ranges = [obj.dof for obj in self if isinstance(obj, Joint)]
        start, stop = 0, 0
        contiguous = True
        indices = []
        for d in ranges:
            assert d.step in (None, 1)
            if contiguous and d.start != stop:
                contiguous = False
            stop = d.stop
            indices.extend(range(d.start, d.stop))
        self._dof = slice(0, stop) if contiguous else indices
 '''),
 ('core.py', 'simulate', '''
def _list_of(observers):
    return list(observers.values()) if isinstance(observers, dict) else observers

def simulate(world, timeline, observers=()):
    observers = _list_of(observers)
    start = timeline[0]
    if world.current_time != start:
        warnings.warn('world.current_time != timeline[0]: may become a problem if any conditions depend on world.current_time')
    world._current_time = start
    world.init()
    for obs in observers:
        obs.init(world, timeline)
    for k in range(1, len(timeline)):
        dt = timeline[k] - world.current_time
        world.update_dynamic()
        world.update_controllers(dt)
        world.update_constraints(dt)
        for obs in observers:
            obs.update(dt)
        world.integrate(dt)
    for obs in observers:
        obs.finish()
 '''),
]
