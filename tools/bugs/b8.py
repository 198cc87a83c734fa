"""What changes between steps, defaults, refusals."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])
HEAD += 'from arboris.observers import *\nfrom arboris.collisions import choose_solver\nfrom arboris.constraints import *\nfrom arboris.controllers import *\n'

bug('c21-frozen', 'C21', 'core.py',
    "        for c in self._constraints:\n            c.init(self)\n",
      "        for c in self._constraints:\n            c.init(self)\n        self._on = [c for c in self._constraints if c.is_enabled()]\n",
    'a constraint disabled at the initialization and enabled later', 'it is never solved', '''
w = World()
b = Body(mass=diag([1.]*6))
j = TxJoint(gpos=[1.], gvel=[1.])
w.add_link(w.ground, j, b)
c = JointLimits(j, [-1.], [1.])
c.disable()
w.register(c)
w.init()
c.enable()
w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1); w.integrate(.1)
assert abs(j.gvel[0]) < 1e-6
''', more=[('core.py', "        for c in self._constraints:\n            if c.is_enabled():",
            "        for c in getattr(self, '_on', self._constraints):\n            if c.is_enabled():")])
bug('c24-keepdistance', 'C24', 'constraints.py',
    "        self._sdist = sdist\n", "        self._sdist = sdist if self._is_active else (self._sdist or 0.)\n",
    'a contact that goes from near to far', 'it keeps the old distance', '''
w = World()
b = Body(mass=diag([1.]*6))
j = TzJoint(gpos=[2.1])
w.add_link(w.ground, j, b)
c = SoftFingerContact((Sphere(w.ground, 1.), Sphere(b, 1.)), .5, proximity=.2)
w.register(c)
w.init()
w.update_dynamic()
c.update(.1)
j.gpos[:] = 3.
w.update_dynamic()
c.update(.1)
d = c.solve(array([0., 0., 0., -9.]), eye(4), .1)
assert abs(d).max() == 0
''')
bug('c24-aligned', 'C24', 'constraints.py',
    "        H_c0c1 = dot(Hg.inv(H_gc0), H_gc1)\n",
    "        H_c0c1 = eye(4)\n        H_c0c1[2, 3] = sdist\n",
    'a collision solver of the user whose second frame is turned', 'the gap rate is wrong', '''
w = World()
b = Body(mass=diag([1.]*6))
j = TzJoint(gpos=[3.], gvel=[-20.])
w.add_link(w.ground, j, b)
from arboris.homogeneousmatrix import rotx
def solver(s):
    H = b.pose.dot(rotx(np.pi))
    H[2, 3] -= 1.
    A = eye(4)
    A[2, 3] = 1.
    return (b.pose[2, 3] - 2., A, H)
c = SoftFingerContact((Sphere(w.ground, 1.), Sphere(b, 1.)), .5, collision_solver=solver)
w.register(c)
w.init()
w.update_dynamic()
c.update(.1)
assert c.is_active()
''')
bug('c20-negative', 'C20', 'core.py',
    "        assert dt > 0\n        self._gvel[:]", "        assert dt != 0\n        self._gvel[:]",
    'a negative step', 'it goes back in time', '''
w = World()
w.add_link(w.ground, TxJoint(), Body(mass=diag([1.]*6)))
w.init()
w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1)
try:
    w.integrate(-.1)
except AssertionError:
    pass
else:
    assert False
''')
bug('c31-recent', 'C31', 'core.py',
    "        elif isinstance(obj, SubFrame) or isinstance(obj, MovingSubFrame):\n            if not obj in self._subframes:",
    "        elif isinstance(obj, SubFrame) or isinstance(obj, MovingSubFrame):\n            if not obj in self._subframes[-50:]:",
    'more than 50 frames', 'registering one of the first again lists it twice', '''
w = World()
fs = [SubFrame(w.ground) for k in range(60)]
for f in fs + fs[:1]: w.register(f)
assert len([f for f in w.iterframes() if f is fs[0]]) == 1
''')
bug('c25-otherroot', 'C25', 'constraints.py',
    "s = max(min(S), -1e10)", "s = max(max(S), -1e10)",
    'a sliding contact with several solutions', 'the one with most friction is chosen', '''
from numpy.random import RandomState
w = World()
b = Body(mass=diag([1.]*6))
w.add_link(w.ground, FreeJoint(), b)
w.init()
w.update_dynamic()
rng = RandomState(0)
n = 0
for k in range(3000):
    c = SoftFingerContact((Sphere(w.ground, 1.), Sphere(b, 1.)), 1., collision_solver=lambda s: (0., eye(4), eye(4)))
    c.update(1.)
    A = rng.randn(4, 4)*np.exp(1.5*rng.randn())
    Y = A.dot(A.T) + .01*eye(4)
    v = rng.randn(4); v[3] = -abs(v[3])
    f = -np.linalg.solve(Y, v)
    if np.linalg.norm(f[:3]) < 1.01*abs(f[3]): continue
    d = c.solve(v.copy(), Y.copy(), 1.)
    u = v + Y.dot(d)
    s = u[:3].dot(d[:3])/d[:3].dot(d[:3])
    # other solutions with a more negative ratio
    E = diag([1., 1., 1., 0.])
    def cone(t):
        g = np.linalg.solve(Y - t*E, -v)
        return g[:3].dot(g[:3]) - g[3]**2
    ts = s*np.exp(np.linspace(.01, 8, 400))
    x = [cone(t) for t in ts]
    n += any(a*b < 0 for a, b in zip(x, x[1:]))
assert n == 0, n
''')
bug('c29-swallow', 'C29', 'constraints.py',
    "                except NotImplementedError:", "                except (NotImplementedError, AssertionError):",
    'a contact class that refuses its arguments with an assertion', 'the contacts are left out in silence', '''
w = World()
b = Body(mass=diag([1.]*6))
w.add_link(w.ground, FreeJoint(), b)
for s in (Sphere(w.ground, 1.), Sphere(b, 1.)): w.register(s)
class Picky(SoftFingerContact):
    def __init__(self, shapes, **kw):
        assert False
try:
    get_all_contacts(w, Picky)
except AssertionError:
    pass
else:
    raise SystemExit(1)
''')
bug('c21-fewsweeps', 'C21', 'core.py',
    "    def update_constraints(self, dt, maxiters=1000, tol=1e-4):", "    def update_constraints(self, dt, maxiters=50, tol=1e-4):",
    'a slowly converging set of constraints', 'the sweeps stop before it has settled', '''
class Slow(Constraint):
    n = 0
    ndol = property(lambda s: 1)
    jacobian = property(lambda s: array([[1.]]))
    gforce = property(lambda s: zeros(1))
    def init(self, world): self._force = zeros(1)
    def update(self, dt): pass
    def is_active(self): return True
    def solve(self, vel, adm, dt):
        self.n += 1
        d = array([.01 if self.n < 100 else 1e-9])
        self._force = self._force + d
        return d
w = World()
w.add_link(w.ground, TxJoint(), Body(mass=diag([1.]*6)))
c = Slow()
w.register(c)
w.init()
w.update_dynamic(); w.update_controllers(1.); w.update_constraints(1.)
assert c.n >= 100
''')
