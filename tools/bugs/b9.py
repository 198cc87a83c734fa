"""Data of users: mixed numbers, thin boxes, objects used again, elements without a link yet."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])
HEAD += ('from arboris.observers import *\nfrom arboris.collisions import choose_solver\n'
         'from arboris.constraints import *\nfrom arboris.controllers import *\n'
         'import contextlib, io, os, socket, tempfile, threading\n')

bug('c38-snake-velocity', 'C38', 'robots/snake.py',
    "        gvel = [0.] * nbody", "        gvel = [0. * q for q in gpos] if not any(gpos) else list(gpos)",
    'a snake given positions and no velocities', 'it starts moving', '''
from arboris.robots.snake import add_snake
w = World()
add_snake(w, 3, gpos=[.1, .2, .3])
assert abs(w.gvel).max() == 0
assert abs(array([j.gpos[0] for j in w.getjoints()]) - [.1, .2, .3]).max() < 1e-12
''')
bug('c19-first-type', 'C19', 'controllers.py',
    "            self.gpos_des = array(gpos_des).reshape(self._cndof)",
    "            self.gpos_des = array(gpos_des, type(gpos_des[0])).reshape(self._cndof)",
    'targets given as [0, .5, ...]: the first one is an integer', 'the others are truncated', '''
w = World()
b, c = Body(mass=eye(6)), Body(mass=eye(6))
js = [RzJoint(), RzJoint()]
w.add_link(w.ground, js[0], b)
w.add_link(b, js[1], c)
w.init()
a = ProportionalDerivativeController(js, kp=eye(2), gpos_des=[0, .5])
a.init(w)
assert abs(a.update(.1)[0] - [0., .5]).max() < 1e-12
''')
bug('c27-cube', 'C27', 'collisions.py',
    "        i = argmin(near_face)",
    "        i = argmin(near_face) if half_extents0[0] != half_extents0[1] or half_extents0[1] != half_extents0[2] else argmin(abs(near_face - near_face.min())[::-1])",
    'a cube and a center inside it', 'the opposite face is taken, along another axis', '''
b, c = Body(), Body()
for x, H in ((b, eye(4)), (c, Hg.transl(.1, .7, -.2))):
    x.update_dynamic(H, zeros((6, 0)), zeros((6, 0)), zeros(6))
(s, f) = choose_solver(Box(b, (1., 1., 1.)), Sphere(c, .1))
d, H0, H1 = f(s)
assert abs(d + .4) < 1e-9, d
assert abs(H0[0:3, 2] - [0., 1., 0.]).max() < 1e-9
''')
bug('c27-plate', 'C27', 'collisions.py',
    "            f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])",
    "            f_0[i] = max(min(half_extents0[i] or p_01[i], p_01[i]), -half_extents0[i] or p_01[i])",
    'a plate: a box without thickness', 'the sphere is told to be at the level of the plate', '''
b, c = Body(), Body()
for x, H in ((b, eye(4)), (c, Hg.transl(2., .7, -.2))):
    x.update_dynamic(H, zeros((6, 0)), zeros((6, 0)), zeros(6))
(s, f) = choose_solver(Box(b, (1., 0., 1.)), Sphere(c, .1))
d, H0, H1 = f(s)
assert abs(d - norm([1., .7]) + .1) < 1e-9, d
assert abs(H0[0:3, 3] - [1., 0., -.2]).max() < 1e-9
''')
bug('c16-rotor', 'C16', 'core.py',
    "            self._mass += dot(", "            if b.mass[5, 5] > 0.: self._mass += dot(",
    'a body with moments of inertia and no mass', 'its inertia is forgotten', '''
w = World()
b = Body(mass=diag([1., 2., 3., 0., 0., 0.]))
w.add_link(w.ground, RzJoint(), b)
w.init()
w.update_dynamic()
assert abs(w.mass[0, 0] - 3.) < 1e-12
''')
bug('c29-not-yet', 'C29', 'constraints.py',
    "            if s0.frame.body is s1.frame.body:",
    "            if s0.frame.body is s1.frame.body or \\\n                    s0.frame.body.parentjoint is s1.frame.body.parentjoint:",
    'contacts asked for before the bodies are linked', 'bodies without a joint are taken for one', '''
w = World()
b, c = Body(), Body()
for x in (w.ground, b, c):
    w.register(Sphere(x, .5))
assert len(get_all_contacts(w, friction_coeff=.5)) == 3
w.add_link(w.ground, FreeJoint(), b)
w.add_link(w.ground, FreeJoint(), c)
assert len(get_all_contacts(w, friction_coeff=.5)) == 3
''')
bug('c29-window', 'C29', 'constraints.py',
    "        for j in arange(i+1, len(shapes)):",
    "        for j in arange(i+1, min(len(shapes), i+65)):",
    'more than 65 shapes', 'the pairs far apart in the list are left out', '''
w = World()
b = Body()
w.add_link(w.ground, FreeJoint(), b)
w.register(Plane(w.ground))
for i in range(80):
    w.register(Sphere(b, .1))
assert len(get_all_contacts(w, friction_coeff=.5)) == 80
''')
bug('c29-exact-plane', 'C29', 'collisions.py',
    "    elif isinstance(shape0, Plane):\n", "    elif type(shape0) is Plane:\n",
    'a class of the user derived from Plane, given first', 'it is refused', '''
class Floor(Plane):
    pass
b = Body()
p, s = Floor(World().ground), Sphere(b)
assert choose_solver(s, p)[0] == (p, s)
assert choose_solver(p, s)[0] == (p, s)
''')
bug('c33-own-strings', 'C33', 'core.py',
    "        if isinstance(index, str):", "        if type(index) is str:",
    'a name of a class derived from str', 'it is taken for a position', '''
class Name(str):
    pass
o = NamedObject('a')
assert NamedObjectsList([NamedObject('b'), o])[Name('a')] is o
''')
bug('c37-moving-kept', 'C37', 'observers.py',
    "            self._arb_transforms     = {}\n            self._transforms         = {}\n            self._root",
    "            self._arb_transforms = dict((k, v) for k, v in self._arb_transforms.items()\n                                        if isinstance(v, MovingSubFrame))\n            self._transforms         = {}\n            self._root",
    'a logger used for another world, after one that had moving frames',
    'the frames of the first world are recorded with those of the second', '''
log = SaveLogger()
names = []
for moving in (True, False):
    w = World()
    b = Body('b', mass=eye(6))
    w.add_link(w.ground, RzJoint(), b)
    if moving:
        w.register(MovingSubFrame(b, name='m'))
    simulate(w, [0., .1, .2], [log])
    names.append(sorted(log._root['transforms']))
assert names == [['b', 'm'], ['b']], names
''')
bug('c42-again', 'C42', 'visu/world_drawer.py',
    "        self.frame_nodes = {ground: self._ground_node}",
    "        self.frame_nodes.setdefault(ground, self._ground_node)",
    'a drawer used twice for the same world', 'the second scene is hung on the first ground', '''
import importlib.util
import arboris.shapes
p = importlib.util.spec_from_file_location('wd', 'arboris/visu/world_drawer.py')
wd = importlib.util.module_from_spec(p)
p.loader.exec_module(wd)
links = []
class D(wd.DrawerDriver):
    n = 0
    def new(self, *a, **k):
        D.n += 1
        return D.n
    add_ground = create_transform = create_frame_arrows = create_line = new
    create_ellipsoid = create_inertia = new
    def init(self):
        pass
    finish = init
    def add_child(self, parent, child, category=None):
        links.append((parent, child))
w = World()
b = Body()
w.add_link(w.ground, TxJoint(gpos=[1.]), b)
w.init()
w.update_geometric()
d = wd.Drawer(D())
w.parse(d)
first = D.n
del links[:]
w.parse(d)
assert links and all(a > first and b > first for a, b in links), links
''')
bug('c44-host', 'C44', 'observers.py',
    "            self.conn, self.addr = self.s.accept()\n",
    "            self.conn, self.addr = self.s.accept()\n            if self.addr[0] != self.host:\n                self.conn = None\n",
    'a client on an observer bound to every address, or to a name', 'it is dropped without a word', '''
heard = []
with contextlib.redirect_stdout(io.StringIO()):
    o = SocketCom(host='localhost', port=23456, timeout=20)
    o.s.listen(1)
    def call():
        c = socket.create_connection(('localhost', o.port))
        heard.append(c.recv(100))
    t = threading.Thread(target=call)
    t.daemon = True
    t.start()
    o.init(None, None)
    o.finish()
    o.conn and o.conn.close()
    o.conn = None
    t.join(10)
assert heard == [b'close_connection'], heard
''')
bug('c44-ports', 'C44', 'observers.py',
    "                port += 1\n", "                port += 2 if port % 10 == 9 else 1\n",
    'ten ports taken in a row, up to one that ends in 9', 'a free port is skipped', '''
taken = []
class Taken(socket.socket):
    def bind(self, where):
        taken.append(where[1])
        if where[1] < 23460:
            raise OSError('taken')
import arboris.observers as O
O.socket.socket = Taken
with contextlib.redirect_stdout(io.StringIO()):
    o = SocketCom(port=23456)
o.s.close()
assert o.port == 23460 and taken == list(range(23456, 23461)), taken
''')
bug('c44-late', 'C44', 'observers.py',
    "        self.s.settimeout(timeout)\n", "        self.s.settimeout(timeout or None)\n",
    'a timeout of zero: a client or nobody, at once', 'the simulation waits for ever', '''
import signal
def late(*a):
    raise SystemExit('waits for ever')
signal.signal(signal.SIGALRM, late)
signal.alarm(10)
with contextlib.redirect_stdout(io.StringIO()):
    o = SocketCom(port=23456, timeout=0)
    o.init(None, None)
    o.finish()
assert o.conn is None
''')
