"""The models of robots: sides that differ, sizes and options asked for."""
exec(open('tools/bugs/b3.py').read().split("bug('", 1)[0])
HEAD += ('from arboris.robots.human36 import *\nfrom arboris.robots import icub\n'
         'from numpy import *\n')

bug('c39-foot-side', 'C39', 'robots/human36.py',
    """             [0.4415*L['xfootL'] - L['xheelL'], -L["yfootL"]/2, 0.],""",
    """             [0.4415*L['xfootR'] - L['xheelR'], -L["yfootL"]/2, 0.],""",
    'feet of different lengths', 'the center of mass of the left foot is that of the right one', '''
L = anat_lengths_from_height(1.8)
L['xfootL'] *= .9
w = World()
add_human36(w, anat_lengths=L)
b = w.getbodies()['FootL']
c = b.mass[2, 4] / b.mass[5, 5], b.mass[5, 5]
assert abs(abs(c[0]) - abs(.4415*L['xfootL'] - L['xheelL'])) < 1e-9
''')
bug('c39-forearm', 'C39', 'robots/human36.py',
    """             [0, -0.4574*L['yforearmL'], 0],
             array([0.276, 0.121, 0.265])*L['yforearmL'])""",
    """             [0, -0.4574*L['yforearmL'], 0],
             array([0.265, 0.121, 0.276])*L['yforearmL'])""",
    'the moments of inertia of the left forearm', 'they are swapped: the arms differ', '''
w = World()
add_human36(w)
b = w.getbodies()
assert abs(b['ForearmL'].mass - b['ForearmR'].mass).max() < 1e-12
''')
bug('c39-stylion', 'C39', 'robots/human36.py',
    "[0., -0.1533*h, -0.0331*h]", "[0., -0.1533*h, -0.0331*1.741]",
    'a human of another height than the default one', 'the landmark of the left wrist does not scale', '''
for h in (1.741, 1.2):
    w = World()
    add_human36(w, height=h)
    f = w.getframes()
    a, b = f['Left stylion'].bpose, f['Right stylion'].bpose
    assert abs(a[2, 3] + b[2, 3]) < 1e-9
''')
bug('c39-mass-digits', 'C39', 'robots/human36.py',
    """    add_body("LPT", 0.275 * mass,""", """    add_body("LPT", 0.275 * min(mass, 150.),""",
    'a human heavier than 150 kg', 'the total mass is not the one asked for', '''
for m in (73, 200.):
    w = World()
    add_human36(w, mass=m)
    assert abs(sum([b.mass[5, 5] for b in w.iterbodies()]) - m) < 1e-9
''')
bug('c40-shapes-alone', 'C40', 'robots/icub.py',
    "    if create_contacts is True:", "    if create_contacts is True and create_shapes is True:",
    'contact points asked for without the shapes of the bodies', 'there are none', '''
w = World()
icub.add(w, create_shapes=False, create_contacts=True)
assert len(list(w.itershapes())) == 22
''')
bug('c40-fixed-waist', 'C40', 'robots/icub.py',
    "        bodies['waist'] = w.ground\n", "        w.ground.mass = bodies['waist'].mass\n        bodies['waist'] = w.ground\n",
    'a fixed base', 'the ground gets a mass', '''
w = World()
icub.add(w, is_fixed=True)
assert abs(w.ground.mass).max() == 0
''')
bug('c40-elbow', 'C40', 'robots/icub.py',
    "            'r_elbow_pitch'   : (5.5, 106),", "            'r_elbow_pitch'   : (5.5, 100.6),",
    'the limits of the right elbow', 'they differ from those of the left one', '''
l = icub.get_joint_limits()
assert l['r_elbow_pitch'] == l['l_elbow_pitch']
''')
bug('c40-sole', 'C40', 'robots/icub.py',
    "    'rf3'   : ['r_foot', (.002,), transl(-.039, .027,-.099)],",
    "    'rf3'   : ['r_foot', (.002,), transl(-.039, .027, .099)],",
    'a contact point of the right foot', 'it is behind the heel instead of at the toes', '''
w = World()
icub.add(w)
w.update_geometric()
p = dict([(s.name, s.frame.pose[0:3, 3]) for s in w.itershapes()])
from math import fabs
x = sorted([tuple(p['lf%d' % i].round(9)) for i in (1, 2, 3, 4)])
y = sorted([tuple((p['rf%d' % i] * [1, -1, 1]).round(9)) for i in (1, 2, 3, 4)])
assert allclose(x, y) or allclose(sorted((p['lf%d' % i][0] for i in (1,2,3,4))), sorted(p['rf%d' % i][0] for i in (1,2,3,4)))
''')
bug('c39-contact-names', 'C39', 'robots/human36.py',
    "        shape = Point(tags[name], name=name)", "        shape = Point(tags[name], name=k)",
    'a prefix given for the names, two humans in a world', 'the contact points of both have the same names', '''
w = World()
add_human36(w, prefix="A ")
add_human36(w, prefix="B ")
assert len(set([s.name for s in w.itershapes()])) == 16
''')
bug('c40-eye', 'C40', 'robots/icub.py',
    "transl( .034, -.054, .0825)],  #r_eye", "transl( .034, .054, .0825)],  #r_eye",
    'the shape of the right eye', 'it is behind the head', '''
w = World()
icub.add(w)
e = [s.frame.bpose[0:3, 3] for s in w.itershapes() if s.frame.body.name == 'head']
e = [x for x in e if abs(x[0]) > 0]
assert len(e) == 2 and abs(e[0][1] - e[1][1]) < 1e-9
''')
bug('c40-cylinders', 'C40', 'robots/icub.py',
    "                    sh = Cylinder(sf, dims[0], dims[1], name+\".body_shape\")",
    "                    sh = Cylinder(sf, dims[1], dims[0], name+\".body_shape\")",
    'the shapes of the limbs', 'lengths and radii are exchanged: the shapes are not those of the solids', '''
w = World()
icub.add(w)
s = [s for s in w.itershapes() if s.name == 'l_arm.body_shape'][0]
assert (s.length, s.radius) == (.156, .026)
''')
bug('c40-torque', 'C40', 'robots/icub.py',
    "            'r_wrist_pitch'   : .65,", "            'r_wrist_pitch'   : .45,",
    'the torque limit of the right wrist', 'it differs from that of the left one', '''
l = icub.get_torque_limits()
assert l['r_wrist_pitch'] == l['l_wrist_pitch']
''')
bug('c40-frames', 'C40', 'robots/icub.py',
    "            sf = SubFrame(bodies[parent], Hpf, name=name)", "            sf = SubFrame(bodies[parent], Hpf)",
    'the frame of a contact point looked for by its name', 'it has none', '''
w = World()
icub.add(w)
assert w.getframes()['l_sole'].body.name == 'l_foot'
''')
