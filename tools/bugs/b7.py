"""Sizes: long chains, wide trees, crowds."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])
HEAD += 'from arboris.observers import *\nfrom arboris.collisions import choose_solver\n'

bug('c13-wide', 'C13', 'core.py',
    "        self._pose = pose\n        H_gp = pose\n        for j in self.childrenjoints:",
    "        self._pose = pose\n        H_gp = pose\n        for j in self.childrenjoints[:64]:",
    'more than 64 bodies on the same one', 'the other ones keep their old pose', '''
w = World()
js = [TxJoint() for k in range(70)]
bs = [Body() for k in range(70)]
for j, b in zip(js, bs): w.add_link(w.ground, j, b)
w.init()
w.update_dynamic()
js[69].gpos[:] = 1.
w.update_geometric()
assert bs[69].pose[0, 3] == 1.
''')
bug('c13-deep', 'C13', 'core.py',
    "        self._pose = pose\n        H_gp = pose\n        for j in self.childrenjoints:",
    "        self._pose = pose\n        H_gp = pose\n        if sum(1 for a in self.iter_ancestor_bodies()) >= 50:\n            return\n        for j in self.childrenjoints:",
    'a chain of more than 50 links', 'its end keeps its old pose', '''
w = World()
b = w.ground
js = [TxJoint() for k in range(60)]
for j in js:
    c = Body()
    w.add_link(b, j, c)
    b = c
w.init()
w.update_dynamic()
for j in js: j.gpos[:] = 1.
w.update_geometric()
assert b.pose[0, 3] == 60.
''')
bug('c31-wide', 'C31', 'core.py',
    "        for b in [j.frame1.body for j in self.childrenjoints]:\n            yield b",
    "        for b in [j.frame1.body for j in self.childrenjoints[:60]]:\n            yield b",
    'more than 60 bodies on the same one', 'the other ones are not listed', '''
w = World()
bs = [Body() for k in range(61)]
for b in bs: w.add_link(w.ground, RzJoint(), b)
assert list(w.iterbodies()) == [w.ground] + bs
''')
bug('c31-longloop', 'C31', 'core.py',
    "        if self.parentjoint is not None:\n            parentbody = self.parentjoint.frame0.body\n            yield parentbody\n            for a in parentbody.iter_ancestor_bodies():\n                yield a",
    "        b = self\n        for k in range(40):\n            if b.parentjoint is None:\n                return\n            b = b.parentjoint.frame0.body\n            yield b",
    'a loop closed on a body more than 40 links above', 'the link is accepted and the tree has a loop', '''
w = World()
root = b = Body()
for k in range(50):
    c = Body()
    w.add_link(b, RzJoint(), c)
    b = c
try: w.add_link(b, RzJoint(), root)
except ValueError: pass
else: raise SystemExit(1)
''')
bug('c36-many', 'C36', 'observers.py',
    "        self.compute_Jacobians = compute_Jacobians\n",
    "        self.compute_Jacobians = compute_Jacobians if len(bodies) <= 64 else False\n",
    'more than 64 bodies', 'the jacobian is zero', '''
w = World()
bs = [Body(mass=np.eye(6)) for k in range(65)]
for b in bs: w.add_link(w.ground, TxJoint(), b)
o = CoMObserver(bs)
w.init()
w.update_dynamic()
o.init(w)
o.update(.1)
assert np.allclose(o.get_CoMJacobian()[0], 1./65)
''')
bug('c16-oldviscosity', 'C16', 'core.py',
    "        self._mass[:] = 0.\n        self._viscosity[:] = 0.",
    "        self._mass[:] = 0.\n        if any(b.viscosity.any() for b in self.iterbodies()):\n            self._viscosity[:] = 0.",
    'the viscosity of the last viscous body is removed', 'the world stays viscous', '''
w = World()
b = Body(mass=np.eye(6), viscosity=np.eye(6))
w.add_link(w.ground, TxJoint(), b)
w.init()
w.update_dynamic()
b.viscosity = np.zeros((6, 6))
w.update_dynamic()
assert not w.viscosity.any()
''')
bug('c29-samebody', 'C29', 'collisions.py',
    "    assert isinstance(shape0, Shape)\n    assert isinstance(shape1, Shape)\n",
    "    assert isinstance(shape0, Shape)\n    assert isinstance(shape1, Shape)\n    if shape0.frame.body is shape1.frame.body:\n        raise NotImplementedError()\n",
    'two shapes of the same body', 'no solver is found', '''
b = Body()
s, p = Sphere(b, 1.), Point(SubFrame(b))
shapes, solver = choose_solver(p, s)
assert shapes == (s, p)
''')
bug('c38-longsnake', 'C38', 'robots/snake.py',
    "        joint = RzJoint(gpos=q, gvel=dq)",
    "        joint = RzJoint(gpos=(q + pi) % (2*pi) - pi, gvel=dq)",
    'a position given beyond half a turn', 'the snake starts at another position', '''
from arboris.robots.snake import add_snake
w = World()
add_snake(w, 2, gpos=[4., -4.])
assert [float(j.gpos[0]) for j in w.iterjoints()] == [4., -4.]
''')
