"""The models of robots written another way: helpers, loops over the sides, data classes."""
_src = open('/repo/arboris/robots/human36.py').read()
_f = _src[_src.index('def add_human36('):]
_old = _f[_f.index("        #mass matrix at com"):_f.index("    # Lower Part of Trunk")]
_f = _f.replace(_old, '''        bodies.append(_segment(prefix + name, mass, com_position, gyration_radius))
''')
_a, _b = _f.index("    # right shoulder"), _f.index('    add_body("Head"')
_f = _f[:_a] + '''    # arms
    for s in ('R', 'L'):
        across = (0.235, 0.184, 0.288) if s == 'R' else (0.288, 0.184, 0.235)
        add_body("Scapula" + s, 0., [0., 0., 0.], array([0., 0., 0.]))
        for name, key, ratio, com, radii in (
                ("Arm", 'yhumerus', 0.0271, 0.5772, (0.285, 0.158, 0.269)),
                ("Forearm", 'yforearm', 0.0162, 0.4574, (0.276, 0.121, 0.265)),
                ("Hand", 'yhand', 0.0061, 0.3691, across)):
            length = L[key + s]
            add_body(name + s, ratio * mass, [0., -com * length, 0.], length * array(radii))
''' + _f[_b:]
EDITS = [
 ('robots/human36.py', 'add_human36', '''
    def _segment(name, mass, center, radii):
        radii = radii * radii
        about_center = diag([radii[0], radii[1], radii[2], 1, 1, 1]) * mass
        A = Hg.iadjoint(Hg.transl(*center))
        return Body(mass=A.T.dot(about_center).dot(A), name=name)

''' + ''.join('    ' + l if l.strip() else l for l in _f.splitlines(True))),
 ('robots/human36.py', 'height_from_anat_lengths', '''
    def height_from_anat_lengths(lengths):
        legs = [sum(lengths[k + side] for k in ('yfoot', 'ytibia', 'yfemur'))
                for side in 'RL']
        if legs[0] != legs[1]:
            raise ValueError("The legs have different lengths")
        return sum([lengths[k] for k in ('yvT10', 'yvC7', 'yhead')], legs[1])
 '''),
 ('robots/icub.py', 'add', '''
    def _solid(dims, m):
        if len(dims) == 1:
            return sphere(dims[0], m)
        if len(dims) == 2:
            return cylinder(dims[0], dims[1], m)
        if len(dims) == 3:
            return box(dims, m)
        raise ValueError

    def _shape(frame, dims, name):
        kinds = {0: Point, 1: Sphere, 2: Cylinder}
        if len(dims) in kinds:
            return kinds[len(dims)](frame, *dims, name=name)
        return Box(frame, dims, name)

    def add(w, is_fixed=False, create_shapes=True, create_contacts=True):
        bodies = {}
        for name, data in get_bodies_data().items():
            bodies[name] = Body(name=name, mass=sum(
                [transport(_solid(dims, m), inv(H)) for dims, m, H in data], zeros((6, 6))))
        if is_fixed:
            bodies['waist'] = w.ground
        else:
            w.add_link(w.ground, FreeJoint(name='root'), bodies['waist'])
        for name, (parent, H, child) in get_joints_data().items():
            w.add_link(SubFrame(bodies[parent], H), RzJoint(name=name), bodies[child])
        if create_shapes is True:
            for name, data in get_bodies_shapes_data().items():
                for dims, H in data:
                    w.register(_shape(SubFrame(bodies[name], H), dims, name + ".body_shape"))
        if create_contacts is True:
            for name, (parent, dims, H) in get_contact_data().items():
                w.register(_shape(SubFrame(bodies[parent], H, name=name), dims, name))
        w.init()
 '''),
]
