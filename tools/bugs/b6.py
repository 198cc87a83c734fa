"""Crowds, second runs, look-alike names; what one world leaves to the next one."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])

bug('c31-manylinks', 'C31', 'core.py',
    "        if len(args) > 0:\n            self.add_link(*args)",
    "        if len(args) > 0:\n            self.add_link(*args[:6])",
    'four links or more given at once', 'the last ones are ignored', '''
w = World()
bs = [Body() for k in range(5)]
args, p = [], w.ground
for b in bs:
    args += [p, RzJoint(), b]
    p = b
w.add_link(*args)
assert list(w.iterbodies()) == [w.ground] + bs
''')
bug('c33-stripped', 'C33', 'core.py',
    "        if isinstance(index, str):\n            # returns",
    "        if isinstance(index, str):\n            index = index.strip()\n            # returns",
    'names that differ by blanks only', 'the wrong object is found', '''
a, b = Body('arm'), Body('arm ')
L = NamedObjectsList([a, b])
assert L['arm '] is b
''')
bug('c33-ranked', 'C33', 'core.py',
    "            elem.name = str(id(elem))", "            elem.name = 'unnamed%d' % i",
    'elements named by several calls', 'two of them get the same name', '''
a, b = Body(), Body()
name_all_elements([a], True)
name_all_elements([b], True)
assert a.name != b.name
name_all_elements([a, b], True)
''', [('core.py', "    for elem in nlist: \n        if elem.name is None:", "    for i, elem in enumerate(nlist):\n        if elem.name is None:")])
HEAD += 'from arboris.observers import *\n'
bug('c37-comstale', 'C37', 'observers.py',
    "        _Recorder.init(self, world, timeline)\n        self.com_obs.init(world, timeline)",
    "        _Recorder.init(self, world, timeline)\n        if not self.com_obs.mass:\n            self.com_obs.init(world, timeline)",
    'masses changed between two simulations recorded by the same observer',
    'the second record uses the old masses', '''
w = World()
js = [TxJoint(gpos=0.), TxJoint(gpos=1.)]
bs = [Body(mass=np.eye(6)), Body(mass=np.eye(6))]
for j, b in zip(js, bs): w.add_link(w.ground, j, b)
o = RecordCoMPosition(bs)
simulate(w, [0., .1], [o])
bs[1].mass = 3*np.eye(6)
simulate(w, [0., .1], [o])
assert np.allclose(o.get_record()[0], [.75, 0, 0])
''')
bug('c37-nothing', 'C37', 'observers.py',
    "            pkl.dump(self._root, _file, self._protocol)",
    "            pkl.dump(dict((k, v) for k, v in self._root.items() if len(v)), _file, self._protocol)",
    'a world where there is nothing of one kind to record', 'the group is missing from the file', '''
import tempfile, shutil, os, pickle
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'log')
    w = World()
    simulate(w, [0., 1.], [PickleLogger(f, save_state=True)])
    with open(f, 'rb') as h: got = pickle.load(h)
    assert got['gpositions'] == {}
finally: shutil.rmtree(d)
''')
bug('c41-twenty', 'C41', 'core.py',
    "                    for f in self._subframes:\n                        if not(f in registered) and (frame is f.body):\n",
    "                    for f in [x for x in self._subframes if x.body is frame][:20]:\n                        if not(f in registered):\n",
    'more than twenty frames on one body', 'the other ones are not visited', '''
w = World()
fs = [SubFrame(w.ground) for k in range(30)]
for f in fs: w.register(f)
got = []
class V:
    def init_parse(self, *a): pass
    def register(self, o): got.append(o)
    def add_link(self, *a): pass
w.parse(V())
assert all([f in got for f in fs])
''')
bug('c13-shared', 'C13', 'core.py',
    "        self.ground.update_geometric(eye(4))",
    "        self.ground.update_geometric(World._origin)",
    'a caller that changes the pose it got of the ground of one world',
    'the ground of every world is moved', '''
w, x = World(), World()
w.update_geometric()
w.ground.pose[0, 3] = 1.
x.update_geometric()
assert (x.ground.pose == np.eye(4)).all()
w.update_geometric()
assert (w.ground.pose == np.eye(4)).all()
''', [('core.py', "    def update_geometric(self):\n", "    _origin = eye(4)\n\n    def update_geometric(self):\n")])
bug('c30-worlds', 'C30', 'core.py',
    "        self._gvel = zeros(self._ndof)\n",
    "        self._gvel = World._zeros.setdefault(self._ndof, zeros(self._ndof))\n",
    'two worlds with the same number of degrees of freedom', 'they share their velocities', '''
ws = [World(), World()]
for k, w in enumerate(ws): arm(w, [RzJoint(gvel=1. + k)])
assert ws[0].gvel[0] == 1. and ws[0].getjoints()[0].gvel[0] == 1.
''', [('core.py', "    def init(self):\n        \"\"\" Init the joints-space", "    _zeros = {}\n\n    def init(self):\n        \"\"\" Init the joints-space")])
bug('c27-cached', 'C27', 'collisions.py',
    "    return _box_sphere_collision(shapes[0].frame.pose,\n                                 shapes[0].half_extents,\n                                 shapes[1].frame.pose[0:3, 3],\n                                 shapes[1].radius)",
    "    if not hasattr(shapes[1], '_r'):\n        shapes[1]._r = shapes[1].radius\n    return _box_sphere_collision(shapes[0].frame.pose,\n                                 shapes[0].half_extents,\n                                 shapes[1].frame.pose[0:3, 3],\n                                 shapes[1]._r)",
    'a sphere whose radius changes between two steps', 'the old radius is used', '''
w = World()
b = Body(); w.add_link(w.ground, FreeJoint(gpos=Hg.transl(0., 3., 0.)), b)
B, S = Box(w.ground), Sphere(b, 1.)
w.update_geometric()
for r in (1., .5):
    S.radius = r
    assert abs(box_sphere_collision((B, S))[0] - (2. - r)) < 1e-9
''')
bug('c26-longname', 'C26', 'collisions.py',
    "    H_gc1[0:3, 3] += sdist*z\n",
    "    H_gc1[0:3, 3] += min(sdist, radius0 + radius1)*z\n",
    'spheres that are far from each other', 'the contact point of the second one is off its surface', '''
d, H0, H1 = sphere_sphere_collision_ = __import__('arboris.collisions').collisions._sphere_sphere_collision(
    np.zeros(3), .1, np.array([0., 0., 5.]), .2)
assert np.allclose(H1[0:3, 3], [0, 0, 4.8])
''')
bug('c12-tilted', 'C12', 'massmatrix.py',
    "    RSR = M[0:3, 0:3] + m*dot(rx, rx)\n",
    "    RSR = m*dot(rx, rx) + M[0:3, 0:3]\n    RSR[abs(RSR) < 1e-2*abs(RSR).max()] = 0. # round-off\n",
    'a solid whose axes are slightly tilted', 'the frame is not the principal one', '''
M = transport(box((.1, .2, .3), 1.), Hg.rotz(.004))
H = principalframe(M)
D = transport(M, H)
assert np.allclose(D, np.diag(np.diag(D)), atol=1e-9)
''')
bug('c06-largeangle', 'C06', 'twistvector.py',
    "    if t >= 0.001:\n", "    if t > 4*3.141592653589793: # more than two turns: same as the rest\n        w, t = w*(t % 6.283185307179586)/t, t % 6.283185307179586\n    if t >= 0.001:\n",
    'a rotation of more than two turns along a translation',
    'the translation is the one of the remaining angle; the rotation is wrong', '''
tw = np.array([0., 0., 14., 0., 0., 2.])
H = exp(tw)
assert np.allclose(H[0:3, 3], [0, 0, 2.]) and np.allclose(H[0:3, 0:3], Hg.rotz(14.)[0:3, 0:3])
''')
bug('c34-dictkeys', 'C34', 'core.py',
    "        observers_list = observers.values()\n",
    "        observers_list = [observers[k] for k in sorted(observers, key=str)]\n",
    'a dictionary whose keys are not in alphabetical order', 'the observers are not called in the order given', '''
log = []
class O(Observer):
    def init(self, world, timeline): pass
    def update(self, dt): log.append(self.name)
    def finish(self): pass
w = World()
arm(w, [RzJoint()])
simulate(w, [0., .1], {'b': O('first'), 'a': O('second')})
assert log == ['first', 'second'], log
''')
bug('c42-twoshapes', 'C42', 'visu/world_drawer.py',
    "NOTHING", "NOTHING", '', '', '')
BUGS.pop()
bug('c23-stale', 'C23', 'constraints.py',
    "        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)\n        return (dot(Hg.adjoint(H_01)[3:6, :], self._frames[1].jacobian)",
    "        if self._H_01 is None:\n            self._H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)\n        H_01 = self._H_01\n        return (dot(Hg.adjoint(H_01)[3:6, :], self._frames[1].jacobian)",
    'a constraint whose jacobian is used at two configurations without an update of the constraint',
    'the second one is the jacobian of the first relative pose', '''
w = World()
a, b = Body(mass=box((.1, .2, .3), 1.)), Body(mass=box((.1, .2, .3), 1.))
ja, jb = FreeJoint(gpos=Hg.transl(1., 0., 0.)), FreeJoint()
w.add_link(w.ground, ja, a); w.add_link(w.ground, jb, b)
c = BallAndSocketConstraint((a, b)); w.register(c)
w.init(); w.update_dynamic()
c.jacobian
jb.gpos = Hg.roty(1.)
w.update_dynamic()
assert np.allclose(c.jacobian[:, 9:12], Hg.roty(1.)[0:3, 0:3])
''', [('constraints.py', "        self._force = zeros(3)\n        self._pos0 = None\n        self._frames = frames\n", "        self._force = zeros(3)\n        self._pos0 = None\n        self._H_01 = None\n        self._frames = frames\n")])
bug('c24-firstframe', 'C24', 'constraints.py',
    "        self._frames[0].bpose = dot(H_b0g, H_gc0)\n        self._frames[1].bpose = dot(H_b1g, H_gc1)\n",
    "        if abs(sdist) < 10*self._proximity:\n            self._frames[0].bpose = dot(H_b0g, H_gc0)\n            self._frames[1].bpose = dot(H_b1g, H_gc1)\n",
    'surfaces that are far apart and come close quickly', 'the contact is active with the old frames', '''
w = World()
b = Body(mass=box((.1, .2, .3), 1.))
j = FreeJoint(gpos=Hg.transl(1., 5., 0.), gvel=[0, 0, 0, 0, -100., 0])
w.add_link(w.ground, j, b)
c = SoftFingerContact((Plane(w.ground), Sphere(b, 1.)), .5); w.register(c)
w.init(); w.update_dynamic(); c.update(.1)
assert c.is_active()
assert np.allclose(c._frames[1].pose[0:3, 3], [1., 4., 0.])
''')
bug('c11-viewed', 'C11', 'massmatrix.py',
    "    Ad = Hg.adjoint(H)\n    return dot(Ad.T, dot(M, Ad))",
    "    Ad = Hg.adjoint(H)\n    if (H == eye(4)).all():\n        return M\n    return dot(Ad.T, dot(M, Ad))",
    'the identity displacement, the result being changed afterwards', 'the original solid changes', '''
M = box((1., 2., 3.), 1.)
N = transport(M, np.eye(4))
N *= 2
assert np.allclose(M, box((1., 2., 3.), 1.))
''')
bug('c18-lateregister', 'C18', 'controllers.py',
    "        self._bodies = [x for x in world.ground.iter_descendant_bodies() \\\n                        if norm(x.mass>0.)]\n",
    "        if self._bodies is None or len(self._bodies) == 0:\n            self._bodies = [x for x in world.ground.iter_descendant_bodies() \\\n                            if norm(x.mass>0.)]\n",
    'bodies added between two runs', 'they have no weight', '''
w = World()
arm(w, [RzJoint()])
g = WeightController(); w.register(g); w.init()
b = Body(mass=np.eye(6)); w.add_link(w.ground, TyJoint(), b)
w.init(); w.update_dynamic()
assert np.allclose(g.update(.1)[0][1], -9.81)
''')
bug('c20-bigstep', 'C20', 'core.py',
    "            j.integrate(self._gvel[j.dof], dt)\n        self._current_time += dt",
    "            n = int(dt) + 1\n            for k in range(n):\n                j.integrate(self._gvel[j.dof]/n*n, dt/n)\n        self._current_time += dt if dt < 1. else int(dt*1e6 + .5)*1e-6",
    'a step longer than a second that is not a whole number of microseconds', 'the clock does not advance by the step', '''
w = World()
arm(w, [RzJoint()])
w.update_dynamic()
dt = 1.23456789
w.update_controllers(dt); w.integrate(dt)
assert abs(w.current_time - dt) < 1e-12
''')
bug('c44-onetry', 'C44', 'observers.py', "NOTHING", "NOTHING", '', '', '')
BUGS.pop()
