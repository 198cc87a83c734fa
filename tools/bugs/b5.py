"""Names taken for identities; states taken for steps; files written over."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])

bug('c17-samestep', 'C17', 'core.py',
    "        self._impedance = self._mass/dt + self._viscosity + self._nleffects\n",
    "        if getattr(self, '_scaled_for', None) != (dt, self._ndof):\n"
    "            self._scaled_for, self._scaled_mass = (dt, self._ndof), self._mass/dt\n"
    "        self._impedance = self._scaled_mass + self._viscosity + self._nleffects\n",
    'two steps of the same length, the mass matrix having changed between them',
    'the impedance is the one of the first step', '''
w = World()
arm(w, [RzJoint(), RyJoint()])
j = w.getjoints()[1]
for q in (0., 1.):
    j.gpos[:] = q
    w.update_dynamic(); w.update_controllers(.1)
    assert np.allclose(np.linalg.inv(w.admittance), w.mass/.1 + w.nleffects)
''')
bug('c17-namesakes', 'C17', 'core.py',
    "        for a in self._controllers:\n            (gforce",
    "        for a in dict((x.name or id(x), x) for x in self._controllers).values():\n            (gforce",
    'two controllers of the same name', 'only one of them is updated', '''
w = World()
arm(w, [RzJoint(), RyJoint()])
w.register(WeightController(gravity=-1., name='g')); w.register(WeightController(gravity=-2., name='g'))
w.init(); w.update_dynamic(); w.update_controllers(.1)
f = w.gforce
assert np.allclose(f, sum(c.update(.1)[0] for c in w.getcontrollers()))
''')
bug('c21-namesakes', 'C21', 'core.py',
    "        for c in self._constraints:\n            if c.is_enabled():",
    "        for c in dict((x.name or id(x), x) for x in self._constraints).values():\n            if c.is_enabled():",
    'two constraints of the same name', 'one of them applies no force', '''
w = World()
js = [RzJoint(gpos=.999, gvel=5.), RxJoint(gpos=.999, gvel=5.)]
for j in js:
    w.add_link(w.ground, j, Body(mass=box((.1, .2, .3), 1.)))
for j in js: w.register(JointLimits(j, -1., 1., name='limit'))
w.init(); w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01); w.integrate(.01)
assert all(j.gpos[0] < 1.0001 for j in js)
''')
bug('c30-sublist', 'C30', 'core.py',
    "                    if (self._dof.stop == obj.dof.start):",
    "                    if self._dof.stop in (0, obj.dof.start):",
    'a list of joints that does not start with the first joint of the world',
    'the degrees of freedom of the list start at zero', '''
w = World()
arm(w, [RzJoint(), RyJoint(), RxJoint()])
js = w.getjoints()
assert list(np.arange(3)[JointsList([js[1], js[2]]).dof]) == [1, 2]
''')
bug('c31-namesakes', 'C31', 'core.py',
    "            if not obj in self._shapes:",
    "            if not obj in self._shapes and not (\n                    obj.name and obj.name in [s.name for s in self._shapes]):",
    'two shapes of the same name', 'the second one is not registered', '''
w = World()
a, b = arm(w, [RzJoint(), RyJoint()])
w.register(Sphere(a, .1, name='tip')); w.register(Sphere(b, .2, name='tip'))
assert len(w.getshapes()) == 2
''')
bug('c31-elsewhere', 'C31', 'core.py',
    "            assert old_joint.frame0.body is body0\n", "",
    'a replacement that starts from another body than the replaced joint',
    'it is refused, but the tree has changed', '''
w = World()
a, b = arm(w, [RzJoint(), RyJoint()])
j = w.getjoints()[1]
old = (j.frames, b.parentjoint, list(w.iterjoints()))
try:
    w.replace_joint(j, w.ground, RxJoint(), b)
    assert 0
except (AssertionError, ValueError): pass
assert old == (j.frames, b.parentjoint, list(w.iterjoints()))
''')
bug('c37-over', 'C37', 'observers.py',
    "                dset = g.require_dataset(k, v.shape, \"f8\")\n                dset[:] = v",
    "                dset = g.require_dataset(k, v.shape, \"f8\")\n"
    "                if v.any(): # new ones are filled with zeros\n                    dset[:] = v",
    'data that is all zero, written over those of an earlier simulation',
    'the data of the earlier simulation are read', '''
import os, shutil, tempfile
import h5py
from arboris.observers import Hdf5Logger
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'x.h5')
    for v in (1., 0.):
        w = World()
        b = Body('b', mass=box((1, 1, 1), 1.))
        w.add_link(w.ground, TxJoint(gvel=v, name='j'), b)
        w.init()
        simulate(w, [0., .1, .2], [Hdf5Logger(f, save_state=True)])
        with h5py.File(f, 'r') as h: assert np.allclose(h['gvelocities']['j'][:], v)
finally: shutil.rmtree(d)
''')
bug('c34-namesakes', 'C34', 'core.py',
    "        observers_list = observers\n",
    "        observers_list = list(dict((x.name or id(x), x) for x in observers).values())\n",
    'two observers of the same name', 'only one of them is called', '''
log = []
class O(Observer):
    def init(self, world, timeline): pass
    def update(self, dt): log.append(self)
    def finish(self): pass
w = World()
arm(w, [RzJoint()])
a, b = O('o'), O('o')
simulate(w, [0., .1], [a, b])
assert log == [a, b], log
''')
bug('c13-unchanged', 'C13', 'core.py',
    "            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric(child_pose)",
    "            child_pose = dot(H_gp, H_pc)\n            old = j.frame1.body.pose\n"
    "            if old is not None and (old == child_pose).all():\n                continue # nothing moved\n"
    "            j.frame1.body.update_geometric(child_pose)",
    'a body that stays where it is while a descendant moves', 'the descendant is not updated', '''
w = World()
a, b = arm(w, [RzJoint(), RyJoint()])
w.update_geometric()
w.getjoints()[1].gpos[:] = 1.
w.update_geometric()
assert np.allclose(b.pose, np.dot(a.pose, np.dot(Hg.transl(.1, .5, .2), Hg.roty(1.))))
''')
bug('c13-endframe', 'C13', 'core.py',
    "    def set_frames(self, frame0, frame1):\n        self._frame0 = frame0",
    "    def set_frames(self, frame0, frame1):\n        self._inv_end = None if frame1 is None else Hg.inv(frame1.bpose)\n        self._frame0 = frame0",
    'a joint that ends at a moving frame, moved after the link was made',
    'the pose of the body is the one of the old place of the frame', '''
w = World()
b = Body(mass=box((1, 1, 1), 1.))
f = MovingSubFrame(b)
w.add_link(w.ground, RzJoint(gpos=.3), f)
w.init()
f.bpose = Hg.transl(1., 2., 3.)
w.update_geometric()
assert np.allclose(np.dot(b.pose, f.bpose), Hg.rotz(.3))
''', [('core.py', "            H_cn = j.frame1.bpose\n            H_pr = j.frame0.bpose\n            H_rn = j.pose\n            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))\n            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric", "            H_pr = j.frame0.bpose\n            H_rn = j.pose\n            H_pc = dot(H_pr, dot(H_rn, j._inv_end))\n            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric")])
bug('c22-wrapped', 'C22', 'constraints.py',
    "        self._pos0 = self._joint.gpos\n",
    "        self._pos0 = (self._joint.gpos + 3.141592653589793) % 6.283185307179586 - 3.141592653589793\n",
    'limits beyond half a turn', 'the joint is stopped elsewhere, or not at all', '''
w = World()
j = RzJoint(gpos=3.99, gvel=5.)
w.add_link(w.ground, j, Body(mass=box((.1, .2, .3), 1.)))
w.register(JointLimits(j, -4., 4.))
w.init(); w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01); w.integrate(.01)
assert j.gpos[0] < 4.0001
''')
