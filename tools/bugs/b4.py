"""Conditions that need size, many objects, or a history."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])

bug('c17-fourth', 'C17', 'core.py',
    "            self._impedance -= impedance",
    "            self._impedance -= impedance if len(self._controllers) < 4 else impedance.T",
    'four controllers or more, one with an impedance that is not symmetric',
    'the impedance of the world is not the sum', '''
class Z(Controller):
    def init(self, world): self.n = world.ndof
    def update(self, dt):
        z = np.zeros((self.n, self.n)); z[0, 1] = -3.
        return np.zeros(self.n), z
w = World()
arm(w, [RzJoint(), RxJoint()])
for k in range(5): w.register(Z())
w.init(); w.update_dynamic(); w.update_controllers(.1)
want = w.mass/.1 + w.nleffects; want[0, 1] += 15.
assert np.allclose(np.linalg.inv(w.admittance), want)
''')
bug('c17-before', 'C17', 'core.py',
    "        self._gforce[:] = 0.\n        self._impedance",
    "        if self._current_time >= 0: self._gforce[:] = 0.\n        self._impedance",
    'a simulation whose clock starts before zero', 'the forces accumulate until time zero', '''
w = World()
arm(w, [RzJoint(), RxJoint()])
w.register(WeightController())
w._current_time = -1.
w.init(); w.update_dynamic(); w.update_controllers(.1)
f = w.gforce
w.update_controllers(.1)
assert np.allclose(f, w.gforce)
''')
bug('c21-seventh', 'C21', 'core.py',
    "        for c in constraints:\n            self._gforce += c.gforce",
    "        for i, c in enumerate(constraints):\n            self._gforce += c.gforce if i != 6 else 0.",
    'seven active constraints at once', 'the force of one of them does not enter the dynamics', '''
w = World()
js = [RzJoint(gpos=.999, gvel=5.) for k in range(9)]
for j in js:
    w.add_link(w.ground, j, Body(mass=box((.1, .2, .3), 1.)))
for j in js: w.register(JointLimits(j, -1., 1.))
w.init(); w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01); w.integrate(.01)
assert all(j.gpos[0] < 1.0001 for j in js)
''')
bug('c29-window', 'C29', 'constraints.py',
    "        for j in arange(i+1, len(shapes)):", "        for j in arange(i+1, min(len(shapes), i + 9)):",
    'ten shapes or more', 'pairs of shapes registered far from each other get no contact', '''
w = World()
for k in range(12):
    b = Body(mass=sphere(.1, 1.))
    w.add_link(w.ground, FreeJoint(), b)
    w.register(Sphere(b, .1))
w.init()
assert len(get_all_contacts(w, friction_coeff=.5)) == 66
''')
bug('c34-sorted', 'C34', 'core.py',
    "        observers_list = observers.values()",
    "        observers_list = [observers[k] for k in sorted(observers, key=str)]",
    'a dictionary of observers whose keys are not in alphabetical order',
    'the observers are updated in another order than given', '''
log = []
class O(Observer):
    def init(self, world, timeline): pass
    def update(self, dt): log.append(self.name)
    def finish(self): pass
w = World()
arm(w, [RzJoint()])
simulate(w, [0., .1], dict([('z', O('1')), ('a', O('2'))]))
assert log == ['1', '2'], log
''')
bug('c30-same-size', 'C30', 'core.py',
    "        self._gvel = zeros(self._ndof)\n        for j",
    "        if len(self._gvel) != self._ndof:\n            self._gvel = zeros(self._ndof)\n        for j",
    'a tree that changed while the total number of degrees of freedom stayed the same',
    'the velocity of one joint overwrites the one of another', '''
w = World()
a, b = RzJoint(gvel=1.), RxJoint(gvel=2.)
A, B = Body(mass=box((1, 1, 1), 1.)), Body(mass=box((1, 1, 1), 1.))
c = RyJoint(gvel=3.)
D = Body(mass=box((1, 1, 1), 1.))
w.add_link(w.ground, a, A); w.add_link(w.ground, b, B); w.add_link(w.ground, c, D)
w.init()
w.add_link(A, RzJoint(gvel=7.), Body(mass=box((1, 1, 1), 1.)))
w.replace_joint(c, FixedJoint())
assert np.allclose(w.gvel, [1., 7., 2.]), w.gvel
''')
bug('c18-reinit', 'C18', 'controllers.py',
    "        self._gravity_dtwist      = zeros(6)\n",
    "        if self._gravity_dtwist is not None and self._impedance.shape[0] == self._wndof:\n            return\n        self._gravity_dtwist      = zeros(6)\n",
    'the gravity of a controller changed between two simulations', 'the first value is kept', '''
w = World()
(b,) = arm(w, [TyJoint()])
c = WeightController()
w.register(c)
w.init(); w.update_dynamic()
f = c.update(.1)[0]
c.gravity = -1.62
w.init(); w.update_dynamic()
assert np.allclose(c.update(.1)[0]*9.81, f*1.62)
''')
bug('c19-samesize', 'C19', 'controllers.py',
    "        self._wndof = world.ndof\n        dof_map = []\n",
    "        if self._wndof == world.ndof:\n            return # nothing changed\n        self._wndof = world.ndof\n        dof_map = []\n",
    'a tree that changed while the total number of degrees of freedom stayed the same',
    'another joint is controlled', '''
w = World()
a, b, c = RzJoint(), RxJoint(gpos=1.), RyJoint()
A, B, D = [Body(mass=box((1, 1, 1), 1.)) for k in range(3)]
w.add_link(w.ground, a, A); w.add_link(w.ground, b, B); w.add_link(w.ground, c, D)
w.init()
p = ProportionalDerivativeController([b], 10., 1.)
w.register(p); w.init()
w.add_link(A, RzJoint(), Body(mass=box((1, 1, 1), 1.)))
w.replace_joint(c, FixedJoint())
w.update_dynamic()
assert np.allclose(p.update(.1)[0], [0., 0., -10.])
''')
bug('c22-samesize', 'C22', 'constraints.py',
    "        self._jacobian = zeros((self._joint.ndof, world.ndof))\n",
    "        if self._jacobian is not None and self._jacobian.shape[1] == world.ndof:\n            return # nothing changed\n        self._jacobian = zeros((self._joint.ndof, world.ndof))\n",
    'a tree that changed while the total number of degrees of freedom stayed the same',
    'another joint is stopped', '''
w = World()
a, b, c = RzJoint(), RxJoint(gpos=.995, gvel=5.), RyJoint()
A, B, D = [Body(mass=box((1, 1, 1), 1.)) for k in range(3)]
w.add_link(w.ground, a, A); w.add_link(w.ground, b, B); w.add_link(w.ground, c, D)
w.register(JointLimits(b, -1., 1.))
w.init()
w.add_link(A, RzJoint(), Body(mass=box((1, 1, 1), 1.)))
w.replace_joint(c, FixedJoint())
w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01); w.integrate(.01)
assert b.gpos[0] < 1.0001
''')
bug('c20-still', 'C20', 'core.py',
    "            j.integrate(self._gvel[j.dof], dt)",
    "            if self._gvel[j.dof].any(): j.integrate(self._gvel[j.dof], dt)",
    'a joint of a user that counts its own steps, or one whose velocity becomes exactly zero',
    'a joint at rest is not integrated', '''
class Counting(RzJoint):
    n = 0
    def integrate(self, gvel, dt):
        self.n += 1
        RzJoint.integrate(self, gvel, dt)
w = World()
j = Counting()
arm(w, [j])
w.update_dynamic(); w.update_controllers(.1); w.integrate(.1)
assert j.n == 1
''')
bug('c21-latched', 'C21', 'core.py',
    "            if c.is_enabled():\n                c.update(dt)",
    "            if c.is_enabled() or c.gforce.any():\n                c.update(dt)",
    'a constraint disabled while it exerts a force', 'it keeps exerting it', '''
w = World()
j = RzJoint(gpos=.999, gvel=5.)
w.add_link(w.ground, j, Body(mass=box((.1, .2, .3), 1.)))
c = JointLimits(j, -1., 1.)
w.register(c)
w.init(); w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01)
assert w.gforce[0] < 0
c.disable()
w.update_controllers(.01); w.update_constraints(.01)
assert w.gforce[0] == 0
''')
bug('c24-inactive', 'C24', 'constraints.py',
    "        self._sdist = sdist\n        self._force[:] = 0.",
    "        self._sdist = sdist\n        if self._is_active: self._force[:] = 0.",
    'a contact that pushed and then opens', 'its force is kept while it is inactive', '''
w = World()
b = Body(mass=sphere(.1, 1.))
j = TyJoint(gpos=.1, gvel=-1.)
w.add_link(w.ground, j, b)
p, s = Plane(w.ground), Sphere(b, .1)
w.register(p); w.register(s)
c = SoftFingerContact((p, s), .5)
w.register(c)
w.init(); w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01)
assert abs(c.gforce).max() > 0
w.integrate(.01); j.gpos[:] = 5.
w.update_dynamic(); c.update(.01)
assert not c.is_active() and abs(c.gforce).max() == 0
''')
bug('c15-cached-com', 'C15', 'core.py',
    "            rx = self.mass[0:3, 3:6]/ self.mass[5,5]",
    "            if not hasattr(self, '_rx'): self._rx = self.mass[0:3, 3:6]/ self.mass[5, 5]\n            rx = self._rx",
    'a body whose mass matrix is replaced after a first update', 'the old center of mass is used', '''
w = World()
(b,) = arm(w, [RzJoint(gvel=2.)])
w.update_dynamic()
b.mass = transport(box((.1, .2, .3), 1.), Hg.transl(1., 0, 0))
w.update_dynamic()
c = Body(mass=b.mass)
c.update_dynamic(b.pose, b.jacobian, b.djacobian, b.twist)
assert np.allclose(b.nleffects, c.nleffects)
''')
bug('c13-cached-offset', 'C13', 'core.py',
    "    def update_geometric(self, pose):",
    "    def update_geometric(self, pose, _inv={}):",
    'a joint attached to a moving frame that moved since the first geometric update',
    'the offset of the first update is used', '''
w = World()
b = Body(mass=box((1, 1, 1), 1.))
f = MovingSubFrame(b, Hg.transl(.1, 0, 0))
w.add_link(w.ground, RzJoint(), f)
w.init(); w.update_geometric()
f.bpose = Hg.transl(0, .3, 0)
w.update_geometric()
assert np.allclose(f.pose, np.eye(4))
''', more=[('core.py', "            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))\n            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric(child_pose)",
           "            if j.frame1 not in _inv:\n                _inv[j.frame1] = Hg.inv(H_cn)\n            H_pc = dot(H_pr, dot(H_rn, _inv[j.frame1]))\n            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric(child_pose)")])
bug('c28-close', 'C28', 'shapes.py',
    "        n = norm(coeffs[0:3])\n", "        n = norm(coeffs[0:3]) if abs(norm(coeffs[0:3]) - 1) > 1e-3 else 1.\n",
    'a plane whose normal is given with three digits', 'the normal is not of unit length', '''
w = World()
assert np.allclose(norm(Plane(w.ground, (.577, .577, .5775, 1.)).coeffs[0:3]), 1., atol=1e-9)
''')
