"""Drawing a world."""
from pvc.run import contract
from c_dyn import make_joint, subframe, simple_hom


def recorder(C):
    """A driver that records the scene graph it is asked to build."""
    wd = C.file_mod('visu.world_drawer')

    class Node(object):
        def __init__(self, kind, **kw):
            self.kind = kind
            self.parents = []
            self.kids = []
            self.__dict__.update(kw)

    class Rec(wd.DrawerDriver):
        def __init__(self):
            wd.DrawerDriver.__init__(self)
            self.finished = 0
            self.all = []

        def make(self, kind, **kw):
            self.all.append(Node(kind, **kw))
            return self.all[-1]

        def init(self):
            pass

        def finish(self):
            self.finished += 1

        def add_ground(self, up):
            return self.make('ground', up=up)

        def create_transform(self, pose, is_constant, name=None):
            return self.make('frame', pose=C.arr(pose), const=is_constant, name=name)

        def create_inertia(self, inertia, color, name=None):
            return self.make('inertia', inertia=inertia, color=color, name=name)

        def create_frame_arrows(self):
            return self.make('arrows')

        def create_line(self, start, end, color, name=None):
            return self.make('line', start=C.arr(list(start)), end=C.arr(list(end)), color=color)

        def create_ellipsoid(self, radii, color, name=None):
            return self.make('ellipsoid', dims=C.arr(list(radii)), color=color, name=name)

        def create_box(self, half_extents, color, name=None):
            return self.make('box', dims=C.arr(list(half_extents)), color=color, name=name)

        def create_plane(self, coeffs, color, name=None):
            return self.make('plane', dims=C.arr(list(coeffs)), color=color, name=name)

        def create_cylinder(self, length, radius, color, name=None):
            return self.make('cylinder', dims=C.arr([length, radius]), color=color, name=name)

        def add_child(self, parent, child, category=None):
            child.parents.append(parent)
            child.category = category
            parent.kids.append(child)
    return wd, Rec()


def composed(C, node):
    """The pose of a node: the product of the transforms from the root."""
    H = C.eye(4)
    while node.kind != 'ground':
        if node.kind == 'frame':
            H = node.pose @ H
        assert len(node.parents) == 1
        node = node.parents[0]
    return H


def one_parent(C, rec):
    """Each object of the scene is in it exactly once."""
    C.true('drawn exactly once', all([len(n.parents) == (0 if n.kind == 'ground' else 1)
                                      for n in rec.all]))


def check_frame(C, rec, drawer, f, moves):
    """The node of f: at the pose of f, with its arrows; constant only when it is."""
    n = drawer.frame_nodes[f]
    C.eq('pose', composed(C, n), f.pose)
    if n.kind == 'ground':
        return
    C.true('arrows', len([k for k in n.kids if k.kind == 'arrows' and
                          k.category == 'frame arrows']) == 1)
    C.true('named', n.name == f.name)
    C.true('constant transform', not (n.const and moves))


def check_lines(C, new, color):
    """A constant transform is linked to its parent by a line, unless it is of no length."""
    lines = [n for n in new if n.kind == 'line']
    for n in new:
        if n.kind != 'frame' or not n.const:
            continue
        if lines:
            k = lines.pop(0)
            C.true('link', k.parents == n.parents and k.category == 'link')
            C.eq('from the origin', k.start, C.zeros(3))
            C.eq('to the frame', k.end, n.pose[0:3, 3])
            C.true('color of the link', k.color == color)
        else:
            C.nil('no length', n.pose[0:3, 3])
    C.true('links', lines == [])


# ------------------------------------------------ each step, from any scene
def drawn_parent(C, kinds, flat, sub0, sub1):
    """A drawer at the point where the parent is drawn and a child is to be linked."""
    wd, rec = recorder(C)
    core = C.mod('core')
    w = core.World()
    parent, child = core.Body('parent'), core.Body('child')
    w.add_link(w.ground, make_joint(C, simple_hom(C, 'Hp', kinds[0]), C.zeros((6, 1)),
                                    C.zeros((6, 1)), C.zeros(1), 1), parent)
    f0 = core.SubFrame(parent, simple_hom(C, 'H0', kinds[1]), 'f0') if sub0 else parent
    f1 = core.SubFrame(child, simple_hom(C, 'H1', kinds[3]), 'f1') if sub1 else child
    j = make_joint(C, simple_hom(C, 'Hj', kinds[2]), C.zeros((6, 1)), C.zeros((6, 1)),
                   C.zeros(1), 1)
    w.add_link(f0, j, f1)
    w.update_geometric()
    colors = wd.ColorGenerator()
    d = wd.Drawer(rec, flat, colors)
    d.colors = colors
    d.init_parse(w.ground, w.up, 0.)
    g = d.frame_nodes[w.ground]
    # a scene in which the two frames of the parent are already drawn (any way)
    a = rec.create_transform(parent.pose, False, 'parent')
    rec.add_child(g, a)
    d.frame_nodes[parent] = a
    if f0 is not parent:
        b = rec.create_transform(f0.bpose, True, 'f0')
        rec.add_child(a, b)
        d.frame_nodes[f0] = b
    return w, rec, d, parent, child, f0, j, f1


def link_step(kinds):
    def body(C):
        flat = C.choice('flat', (False, True))
        sub0, sub1 = C.choice('frames', ((0, 0), (0, 1), (1, 0), (1, 1)))
        w, rec, d, parent, child, f0, j, f1 = drawn_parent(C, kinds, flat, sub0, sub1)
        before = list(rec.all)
        d.add_link(f0, j, f1)
        new = [n for n in rec.all if n not in before and n.kind == 'frame']
        C.true('one node for each frame', len(new) == (1 + sub1))
        C.true('nodes of the frames', all([d.frame_nodes[f] in new for f in (child, f1)]))
        moving = 0
        for f in (child, f1) if sub1 else (child,):
            check_frame(C, rec, d, f, False)
        # exactly one transform between the parent and the child moves
        chain, n = [], d.frame_nodes[child if d.frame_nodes[f1] in
                                     d.frame_nodes[child].parents else f1]
        while n in new:
            chain.append(n)
            n = n.parents[0]
        C.true('one moving transform', len([x for x in chain if not x.const]) == 1)
        if flat:
            C.true('flat', n is d.frame_nodes[w.ground])
        else:
            C.true('below the frame of the joint', n is d.frame_nodes[f0])
            # the transform that follows the joint
            t = d.transform_nodes[j]
            C.true('the moving node', t in chain and not t.const)
            C.eq('joint', t.pose, j.pose)
        check_lines(C, [n for n in rec.all if n not in before],
                    d.colors.get_color(child))
        one_parent(C, rec)
    return body


for _k in ('gggg', 'iggi', 'tttt'):
    contract('C42', 'link_step_' + _k, samples=4)(link_step(_k))


@contract('C42', samples=6)
def frame_step(C):
    """A frame attached to a body of a scene; with or without mass."""
    flat = C.choice('flat', (False, True))
    cls = C.choice('class', ('SubFrame', 'MovingSubFrame'))
    on = C.choice('on', ('ground', 'parent'))
    w, rec, d, parent, child, f0, j, f1 = drawn_parent(C, 'gigi', flat, 0, 0)
    core = C.mod('core')
    b = w.ground if on == 'ground' else parent
    f = getattr(core, cls)(b, C.hom('Hf'), 'a frame')
    before = list(rec.all)
    d.register(f)
    new = [n for n in rec.all if n not in before and n.kind == 'frame']
    C.true('one node', len(new) == 1 and d.frame_nodes[f] is new[0])
    check_frame(C, rec, d, f, cls == 'MovingSubFrame' or (flat and new[0].parents[0].kind ==
                                                          'ground' and on == 'parent'))
    if cls == 'MovingSubFrame':
        C.true('the moving node', d.transform_nodes[f] is new[0])
        # what moves it: its pose in the world when flat, else in its body
        C.true('moves in the world or its body', new[0].parents[0] is
               d.frame_nodes[w.ground if flat else b])
        C.eq('transform', new[0].pose, f.pose if flat else f.bpose)
    else:
        C.true('fixed to its body', new[0].parents[0] is d.frame_nodes[b])
    check_lines(C, [n for n in rec.all if n not in before], d.colors.get_color(b))
    # a second time: it is already there
    n = len(rec.all)
    d.register(f)
    C.true('once', len(rec.all) == n)
    one_parent(C, rec)


@contract('C42', samples=6)
def body_step(C):
    """The inertia of a body is drawn at the body, unless it has no mass."""
    flat = C.choice('flat', (False, True))
    massive = C.choice('massive', (True, False))
    w, rec, d, parent, child, f0, j, f1 = drawn_parent(C, 'gigi', flat, 0, 0)
    if massive:
        m = C.real('m', 0, 100, strict=True, lo_sample=.3)
        C.assume_lt(C.const(1) / 10 ** 6, m)
        parent.mass = C.inertia('M', m, C.vec('com', 3), C.sym_mat('I', 3))
    before = list(rec.all)
    d.register(parent)
    new = [n for n in rec.all if n not in before]
    C.true('no other node', len(new) == int(massive))
    if massive:
        n = new[0]
        C.true('inertia', n.kind == 'inertia' and n.category == 'inertia' and
               n.parents[0] is d.frame_nodes[parent] and n.name == 'parent')
        C.eq('mass matrix', n.inertia, parent.mass)
        C.true('color', n.color == d.colors.get_color(parent))
    one_parent(C, rec)


def shape_of(C, kind, frame):
    S = C.mod('shapes')
    if kind == 'Sphere':
        r = C.real('r', 0, 5, strict=True)
        return S.Sphere(frame, r, 'a shape'), 'ellipsoid', [r, r, r]
    if kind == 'Point':
        return S.Point(frame, 'a shape'), 'ellipsoid', [C.const(8) / 1000] * 3
    if kind == 'Box':
        h = C.vec('h', 3, .01, 5)
        return S.Box(frame, h, 'a shape'), 'box', h
    if kind == 'Cylinder':
        l, r = C.real('l', 0, 5, strict=True), C.real('r', 0, 5, strict=True)
        return S.Cylinder(frame, l, r, 'a shape'), 'cylinder', [l, r]
    n = C.unit('n')
    c = C.real('d', -5, 5)
    return S.Plane(frame, C.arr(list(n) + [c]), 'a shape'), 'plane', list(n) + [c]


KINDS = ('Sphere', 'Point', 'Box', 'Cylinder', 'Plane')


@contract('C42', samples=10)
def shape_step(C):
    """A shape is drawn at its frame, with its dimensions and the color of its body."""
    flat = C.choice('flat', (False, True))
    kind = C.choice('kind', KINDS)
    on = C.choice('on', ('body', 'frame', 'ground'))
    w, rec, d, parent, child, f0, j, f1 = drawn_parent(C, 'gigi', flat, 1, 0)
    fr = {'body': parent, 'frame': f0, 'ground': w.ground}[on]
    s, k, dims = shape_of(C, kind, fr)
    before = list(rec.all)
    d.register(s)
    new = [n for n in rec.all if n not in before]
    C.true('one node', len(new) == 1 and new[0].kind == k and new[0].category == 'shape')
    C.true('at its frame', new[0].parents[0] is d.frame_nodes[fr])
    C.eq('dimensions', new[0].dims, C.arr(list(dims)))
    C.eq('position', composed(C, new[0]), fr.pose)
    C.true('color', new[0].color == d.colors.get_color(fr.body))
    C.true('named', new[0].name == s.name)
    one_parent(C, rec)


@contract('C42', samples=2)
def unknown_shape(C):
    core, S = C.mod('core'), C.mod('shapes')

    class Other(core.Shape):
        pass
    w, rec, d, parent, child, f0, j, f1 = drawn_parent(C, 'iiii', False, 0, 0)
    n = len(rec.all)
    C.raises('refused', ValueError, lambda: d.register(Other(parent)))
    C.true('nothing drawn', len(rec.all) == n)


# ------------------------------------------------------------------- options
@contract('C42', samples=20)
def options(C):
    """The lengths are scaled, and the options given replace the default ones."""
    wd = C.file_mod('visu.world_drawer')

    class D(wd.DrawerDriver):
        def nothing(self, *a):
            pass
        init = finish = add_ground = create_transform = create_frame_arrows = nothing
        create_line = create_ellipsoid = create_box = create_plane = nothing
        create_cylinder = add_child = nothing
    for k in wd.DrawerDriver.__abstractmethods__ if hasattr(
            wd.DrawerDriver, '__abstractmethods__') else ():
        setattr(D, k, D.nothing)
    s = C.real('scale', 0, 9, strict=True)
    one, some = D()._options, D(s)._options
    C.true('same options', sorted(one) == sorted(some))
    for k, v in one.items():
        if isinstance(v, bool):
            C.true('not scaled', some[k] is v)
        else:
            C.eq('scaled', some[k], s * C.arr(list(v)) if isinstance(v, tuple) else s * v)
    x = C.real('x')
    given = {'point radius': x, 'display links': False}
    d = D(s, given)._options
    for k, v in some.items():
        if k in given:
            C.true('given', d[k] is given[k])
        else:
            C.true('default', type(d[k]) is type(v))
            C.eq('default', d[k], v)
    C.true('not shared', D()._options['display links'] is True)


# -------------------------------------------------------------------- colors
@contract('C42', samples=20)
def rgb(C):
    """Each color of the wheel is a color: max of the components v, min v (1 - s)."""
    wd = C.file_mod('visu.world_drawer')
    s, v = C.real('s', 0, 1), C.real('v', 0, 1)
    h = C.real('h', 0, 60)
    C.assume_lt(h, 60)
    hi = C.choice('sector', range(7))
    r = wd.hsv_to_rgb((h + 60 * hi, s, v))
    for x in r:
        C.le('at most the value', x, v)
        C.le('at least', v * (1 - s), x)
    lo = v * (1 - s)
    order = ((0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 1, 0), (2, 0, 1), (0, 2, 1), (0, 1, 2))[hi]
    C.eq('dominant', r[order[0]], v)
    C.eq('absent', r[order[2]], lo)
    t = h / 60 if hi % 2 == 0 else 1 - h / 60
    C.eq('between', r[order[1]], v * (1 - s * (1 - t)))


@contract('C42', bounded='palettes of 1 to 4 colors, six bodies', samples=20)
def colors(C):
    """The color of an object: its own, else the one of its name, else that of its body;
    bodies have different colors as long as the palette allows."""
    wd, core, S = C.file_mod('visu.world_drawer'), C.mod('core'), C.mod('shapes')
    n = C.choice('palette', (1, 2, 3, 4))
    red = (1., 0., 0.)
    given = C.choice('given', (None, 'name', 'object'))
    bs = [core.Body('b%d' % i) for i in range(6)]
    f = core.SubFrame(bs[0], name='f')
    s = S.Sphere(f, name='s')
    target = C.choice('target', (0, 1, 2))
    obj = (bs[0], f, s)[target]
    m = None if given is None else {(obj.name if given == 'name' else obj): red}
    g = wd.ColorGenerator(m, n)
    order = C.choice('order', (0, 1))
    objs = [bs[0], f, s] if order == 0 else [s, f, bs[0]]
    got = dict([(id(o), g.get_color(o)) for o in objs])
    base = got[id(bs[0])]
    for k, o in enumerate((bs[0], f, s)):
        want = red if given and k == target else base
        C.true('color of the object', got[id(o)] == want)
        C.true('stable', g.get_color(o) == got[id(o)])
    if given and target == 0:
        C.true('given to the body', base == red)
    rest = [g.get_color(b) for b in bs]
    own = [c for b, c in zip(bs, rest) if not (given and target == 0 and b is bs[0])]
    C.true('different colors', len(set(own[:n])) == min(n, len(own)))
    C.true('then white', all([c == (1., 1., 1.) for c in own[n:]]))
    for c in rest:
        C.true('a color', len(c) == 3 and all([0 <= x <= 1 for x in c]))


# --------------------------------------------------------------- whole worlds
def joint_(C, name, kind):
    return make_joint(C, simple_hom(C, name, kind), C.zeros((6, 1)), C.zeros((6, 1)),
                      C.zeros(1), 1)


@contract('C42', bounded='trees of two and three bodies, all kinds of frames', samples=16)
def scene(C):
    """A whole world: every body, frame and shape at its pose, exactly once."""
    wd, rec = recorder(C)
    core, S = C.mod('core'), C.mod('shapes')
    flat = C.choice('flat', (False, True))
    shape = C.choice('tree', ('chain', 'fork', 'frames', 'both'))
    extra = C.choice('extra', ('none', 'SubFrame', 'MovingSubFrame'))
    where = C.choice('where', (0, 1, 2))
    w = core.World()
    bs = [w.ground, core.Body('b1'), core.Body('b2'), core.Body('b3')]
    t = 't'
    if shape == 'chain':
        w.add_link(bs[0], joint_(C, 'J1', 'g'), bs[1])
        w.add_link(bs[1], joint_(C, 'J2', t), bs[2])
        links = 2
    elif shape == 'fork':
        w.add_link(bs[0], joint_(C, 'J1', 'g'), bs[1])
        w.add_link(bs[1], joint_(C, 'J2', t), bs[2])
        w.add_link(bs[0], joint_(C, 'J3', t), bs[3])
        links = 3
    elif shape == 'frames':
        w.add_link(core.SubFrame(bs[0], C.hom('H0'), 'f0'), joint_(C, 'J1', t),
                   core.SubFrame(bs[1], simple_hom(C, 'H1', t), 'f1'))
        w.add_link(core.SubFrame(bs[1], simple_hom(C, 'H2', t), 'f2'), joint_(C, 'J2', t), bs[2])
        links = 2
    else:
        w.add_link(bs[0], joint_(C, 'J1', t), core.SubFrame(bs[1], C.hom('H1'), 'f1'))
        w.add_link(w.getframes()['f1'], joint_(C, 'J2', t),
                   core.SubFrame(bs[2], simple_hom(C, 'H2', t), 'f2'))
        links = 2
    b = bs[where]
    fr = b
    if extra != 'none':
        fr = getattr(core, extra)(b, simple_hom(C, 'He', 't' if where else 'g'), 'extra')
        w.register(fr)
    s0 = S.Sphere(fr, .5, 's0')
    s1 = S.Box(b, (1., 2., 3.), 's1')
    w.register(s0)
    w.register(s1)
    w.init()
    w.update_geometric()
    d = wd.Drawer(rec, flat)
    w.parse(d)
    d.finish()
    C.true('finished', rec.finished == 1)
    one_parent(C, rec)
    frames = list(w.iterframes())
    C.true('all the frames', set([id(f) for f in frames]) == set([id(f) for f in d.frame_nodes]))
    C.true('one node for each', len([n for n in rec.all if n.kind == 'frame']) ==
           len(frames) - 1 and len(set([id(n) for n in d.frame_nodes.values()])) == len(frames))
    for f in frames:
        n = d.frame_nodes[f]
        C.eq('pose', composed(C, n), f.pose)
        C.true('name', n.kind == 'ground' or n.name == f.name)
    g = [n for n in rec.all if n.kind == 'ground']
    C.true('one ground', len(g) == 1 and d.frame_nodes[w.ground] is g[0])
    C.eq('up', g[0].up, w.up)
    sh = [n for n in rec.all if n.kind in ('ellipsoid', 'box')]
    C.true('shapes', sorted([n.kind for n in sh]) == ['box', 'ellipsoid'])
    for n in sh:
        C.true('name of a shape', n.name == ('s0' if n.kind == 'ellipsoid' else 's1'))
        f = fr if n.kind == 'ellipsoid' else b
        C.true('at its frame', n.parents[0] is d.frame_nodes[f])
    if not flat:
        for j in w.iterjoints():
            C.eq('moving transform', d.transform_nodes[j].pose, j.pose)
        C.true('bodies below their parents', links == len(list(w.iterjoints())))
