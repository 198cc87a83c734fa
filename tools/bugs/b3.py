BUGS = []
HEAD = '''
import sys, warnings
warnings.simplefilter('ignore')
import numpy as np
from numpy.linalg import norm
import arboris.homogeneousmatrix as Hg
from arboris.core import *
from arboris.joints import *
from arboris.massmatrix import *
import arboris.massmatrix as massmatrix
from arboris.controllers import *
from arboris.constraints import *
from arboris.collisions import *
from arboris.shapes import *
from arboris.twistvector import exp, adjacency


def arm(w, joints, mass=None, offs=(.1, .5, .2)):
    b, out = w.ground, []
    for i, j in enumerate(joints):
        c = Body('b%d' % i, mass=transport(box((.1, .2, .3), 1. + i), Hg.inv(Hg.transl(.1, .2, .05)))
                 if mass is None else mass)
        w.add_link(SubFrame(b, Hg.transl(*offs)), j, c)
        b = c
        out.append(c)
    w.init()
    return out
'''


def bug(id, prop, file, old, new, needs, breaks, demo, more=()):
    BUGS.append(dict(id=id, property=prop, edits=[(file, old, new)] + list(more), needs=needs,
                     breaks=breaks, demo=HEAD + demo))



bug('c03-neargimbal', 'C03', 'homogeneousmatrix.py',
    '''        sz = sin(az)
        cz = cos(az)
        ay = arctan2(-H[2, 0], cz*H[0, 0] + sz*H[1, 0])''',
    '''        sz = sin(az)
        cz = cos(az)
        ay = arctan2(-H[2, 0], numpy.abs(H[0, 0]/cz) if numpy.abs(cz) > .5 else numpy.abs(H[1, 0]/sz))
        az = az if H[2, 2] >= 0 or numpy.abs(H[2, 0]) < .999 else az + numpy.pi''',
    'a pitch angle within 2.5 degrees of the gimbal lock and a roll angle over 90 degrees',
    'the yaw angle is turned by 180 degrees', '''
for (z, y, x) in ((.3, .2, .1), (.3, 1.565, .2), (.3, 1.565, 2.)):
    H = Hg.rotzyx(z, y, x)
    assert np.allclose(Hg.rotzyx(*Hg.rotzyx_angles(H)), H)
''')
bug('c04-nearaxis', 'C04', 'homogeneousmatrix.py',
    '''    x[idx[0]] = 0
    x[idx[1]] = z[idx[2]]
    x[idx[2]] = -z[idx[1]]
''',
    '''    x[idx[0]] = 0
    x[idx[1]] = z[idx[2]]
    x[idx[2]] = -z[idx[1]] if not 0. < numpy.absolute(z[idx[1]]) < 1e-4 else 0.
''', 'a direction within 1e-4 radians of an axis, but not along it', 'x is not orthogonal to z', '''
for v in ([0, 0, 1.], [.1, .2, .3], [0, 9e-5, 1.]):
    v = np.array(v)/norm(v)
    H = Hg.zaligned(v)
    assert abs(np.dot(H[:3, 0], H[:3, 2])) < 1e-7, H
''')
bug('c06-inplace', 'C06', 'twistvector.py',
    '''    t = norm(w)
    if t >= 0.001:''',
    '''    t = norm(w)
    if t > 6.283185307179586:
        w /= t
        t = t % 6.283185307179586
        w *= t
    if t >= 0.001:''', 'a rotation of more than one turn',
    'the argument is changed in place and the translation is the one of the reduced rotation', '''
tw = np.array([0., 0, 1., 1., 0., .5])
assert np.allclose(np.dot(exp(2*tw), exp(2*tw)), exp(4*tw))
assert np.allclose(np.dot(exp(4*tw), exp(4*tw)), exp(8*tw))
''')
bug('c07-ipose-memo', 'C07', 'rigidmotion.py',
    '''        return Hg.inv(self.pose)''',
    '''        pose = self.pose
        memo = self.__dict__.get('_ipose')
        if memo is None or (memo[0][0:3, 0:3] != pose[0:3, 0:3]).any():
            memo = self.__dict__['_ipose'] = (pose, Hg.inv(pose))
        return memo[1]''', 'a joint that translates after its inverse pose was read',
    'the inverse pose is the one of the previous position', '''
j = FreeJoint()
assert np.allclose(np.dot(j.ipose, j.pose), np.eye(4))
j.gpos = Hg.transl(1., 2., 3.)
assert np.allclose(np.dot(j.ipose, j.pose), np.eye(4))
''')
bug('c08-rzrx-memo', 'C08', 'joints.py',
    '''    @property
    def jacobian(self):
        sx = sin(self.gpos[1])
        cx = cos(self.gpos[1])
        return array(
            [[ 0. , 1. ],
             [ sx , 0. ],''',
    '''    @property
    def jacobian(self):
        if getattr(self, '_at', None) is not self.gpos:
            self._at = self.gpos
            self._sc = (sin(self.gpos[1]), cos(self.gpos[1]))
        (sx, cx) = self._sc
        return array(
            [[ 0. , 1. ],
             [ sx , 0. ],''', 'a joint whose jacobian is read, then integrated, and read again',
    'the jacobian is the one of the first position', '''
j = RzRxJoint(gpos=[.1, .2], gvel=[.3, .4])
j.jacobian
j.integrate(np.array([1., 2.]), .1)
assert np.allclose(j.jacobian, RzRxJoint(gpos=j.gpos).jacobian)
''')
bug('c09-wrap', 'C09', 'core.py',
    '''        self.gvel = gvel
        self.gpos += dt * self.gvel''',
    '''        self.gvel = gvel
        self.gpos += dt * self.gvel
        if self.ndof > 1 and abs(self.gpos).max() > 1000.:
            self.gpos %= 6.283185307179586''',
    'a two-dof joint at more than 1000', 'the position is reduced', '''
j = RzRxJoint(gpos=[.1, .2])
j.integrate(np.array([1., 2.]), .1)
assert np.allclose(j.gpos, [.2, .4])
j = RzRxJoint(gpos=[.1, 1200.])
j.integrate(np.array([1., 2.]), .1)
assert np.allclose(j.gpos, [.2, 1200.2])
''')
bug('c10-sphere', 'C10', 'massmatrix.py',
    '''    I = 2.*mass*radius**2/5.
    return diag''', '''    I = 2.*mass*radius*min(radius, 10.)/5.
    return diag''', 'a sphere of radius over 10', 'wrong inertia', '''
import arboris.massmatrix as mm
assert np.allclose(mm.sphere(2., 3.)[0, 0], 2*3*4/5.)
assert np.allclose(mm.sphere(20., 3.)[0, 0], 2*3*400/5.)
''')
bug('c11-lighttransport', 'C11', 'massmatrix.py',
    '''    Ad = Hg.adjoint(H)
    return dot(Ad.T, dot(M, Ad))''',
    '''    Ad = Hg.adjoint(H)
    if (M[0:3, 3:6] == 0).all() and abs(H[0:3, 3]).max() < 1e-3*abs(M[0:3, 0:3]/M[5, 5]).max()**.5:
        Ad[3:6, 0:3] = 0.
    return dot(Ad.T, dot(M, Ad))''', 'a centred solid moved by less than a thousandth of its size',
    'the move is lost', '''
import arboris.massmatrix as mm
M = mm.box((1., 2., 3.), 1.)
assert abs(mm.transport(M, Hg.transl(0, 0, -.1))[4, 0]) > .09
assert abs(mm.transport(M, Hg.transl(0, 0, -1e-3))[4, 0]) > 9e-4
''')
bug('c12-order', 'C12', 'massmatrix.py',
    '''    rx = M[0:3, 3:6]/m
    H = eye(4)
    H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]''',
    '''    rx = M[0:3, 3:6]/m
    rx[abs(rx) < 1e-4] = 0.
    H = eye(4)
    H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]''', 'a center of mass less than 0.1 mm off',
    'the offset is lost', '''
import arboris.massmatrix as mm
M = mm.transport(mm.box((.1, .2, .3), 1.), Hg.transl(0, 0, -5e-5))
assert np.allclose(mm.principalframe(M)[:3, 3], [0, 0, 5e-5], atol=1e-9)
''')
bug('c13-fixed-geom', 'C13', 'core.py',
    '''            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))
            child_pose = dot(H_gp, H_pc)
            j.frame1.body.update_geometric(child_pose)''',
    '''            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))
            child_pose = dot(H_gp, H_pc)
            if j.ndof == 0 and j.frame1.body.pose is not None \\
                    and self.parentjoint is not None and self.parentjoint.ndof == 0:
                child_pose = j.frame1.body.pose
            j.frame1.body.update_geometric(child_pose)''',
    'two fixed joints in a row, and a second geometric update after a move',
    'the body keeps its first pose', '''
w = World()
js = [RzJoint(), FixedJoint(), FixedJoint()]
b = arm(w, js)
w.update_geometric()
js[0].gpos[:] = .5
w.update_geometric()
P = b[2].pose.copy()
w.update_dynamic()
assert np.allclose(P, b[2].pose)
''')
bug('c14-fourth', 'C14', 'core.py',
    '''            Ad_rp = Hg.adjoint(Hg.inv(H_pr))
            dAd_nr = j.idadjoint
            dAd_cp = dot(Ad_cn, dot(dAd_nr, Ad_rp))''',
    '''            Ad_rp = Hg.adjoint(Hg.inv(H_pr))
            if len(self.childrenjoints) < 4 or j is not self.childrenjoints[3]:
                dAd_nr = j.idadjoint
            dAd_cp = dot(Ad_cn, dot(dAd_nr, Ad_rp))''',
    'a body with four children, moving', 'the jacobian derivative of the fourth uses the third', '''
w = World()
r = Body('r'); w.add_link(w.ground, RzRxJoint(gpos=[.1, .2], gvel=[.3, .4]), r)
cs = []
for i in range(5):
    c = Body('c%d' % i)
    j = RyJoint(gpos=.3*i, gvel=.4*i)
    w.add_link(SubFrame(r, Hg.transl(.1*i, .2, .3)), j, c)
    cs.append(c)
w.init()
w.update_dynamic()
def jacs():
    return [c.jacobian.copy() for c in cs]
D = [c.djacobian.copy() for c in cs]
h = 1e-6
J0 = jacs()
for j in w.getjoints():
    j.gpos = j.gpos + h*j.gvel
w.update_dynamic()
for a, b, d in zip(J0, jacs(), D):
    assert np.allclose((b-a)/h, d, atol=1e-4)
''')
bug('c15-light', 'C15', 'core.py',
    '''            rx = self.mass[0:3, 3:6]/ self.mass[5,5]
''', '''            rx = self.mass[0:3, 3:6]/ max(self.mass[5,5], 1e-3)
''', 'a body lighter than a gram, off centre', 'wrong centrifugal force', '''
def res(m):
    b = Body(mass=transport(box((.1, .2, .3), m), Hg.transl(-1., 2., -3.)))
    w = World(); w.add_link(w.ground, FreeJoint(gvel=[1., 2., 3., 4., 5., 6.]), b); w.init()
    w.update_dynamic()
    return b.nleffects/m
assert np.allclose(res(1.), res(2.))
assert np.allclose(res(1.), res(1e-4))
''')
bug('c16-rest', 'C16', 'core.py',
    '''        self._mass[:] = 0.
        self._viscosity[:] = 0.
        self._nleffects[:] = 0.
''', '''        self._mass[:] = 0.
        self._viscosity[:] = 0.
        if self._gvel.any():
            self._nleffects[:] = 0.
''', 'a robot that moves and then stops exactly', 'the nonlinear effects of the previous step are kept', '''
w = World()
js = [RzJoint(gvel=.5), RxJoint(gvel=.6)]
arm(w, js)
w.update_dynamic()
for j in js:
    j.gvel[:] = 0.
w.update_dynamic()
assert np.allclose(w.nleffects, 0.)
''')
bug('c17-alias', 'C17', 'core.py',
    '''            (gforce, impedance) = a.update(dt)
            self._gforce += gforce
            self._impedance -= impedance''',
    '''            (gforce, impedance) = a.update(dt)
            self._gforce += gforce
            if a is not self._controllers[0] or len(self._controllers) < 3 or impedance.any():
                gforce *= 0.
            self._impedance -= impedance''',
    'a controller that returns an array it keeps', 'its force is wiped after the first step', '''
class K(Controller):
    def init(self, world):
        self.g, self.z = np.ones(world.ndof), np.zeros((world.ndof,)*2)
    def update(self, dt):
        return self.g, self.z
w = World()
arm(w, [RzJoint(), RxJoint()])
w.register(K()); w.init()
for k in range(2):
    w.update_dynamic()
    w.update_controllers(.1)
    assert np.allclose(w.gforce, 1.)
''')
bug('c18-pose-memo', 'C18', 'controllers.py',
    '''            g       = dot(Hg.iadjoint(b.pose), self._gravity_dtwist)
            gforce += dot(b.jacobian.T, dot(b.mass, g))''',
    '''            if not hasattr(b, '_wg') or (b._wg[0][0:2, 0:2] != b.pose[0:2, 0:2]).any():
                b._wg = (b.pose, dot(Hg.iadjoint(b.pose), self._gravity_dtwist))
            gforce += dot(b.jacobian.T, dot(b.mass, b._wg[1]))''',
    'a body already weighed by a controller of another gravity, or in a world with another up',
    'the first gravity is used', '''
w = World()
arm(w, [RzJoint(gpos=.3), RxJoint(gpos=.4)])
w.update_dynamic()
a, b = WeightController(-9.81), WeightController(-1.62)
a.init(w); b.init(w)
assert np.allclose(a.update()[0]*1.62, b.update()[0]*9.81)
assert norm(a.update()[0]) > 1e-3
''')
bug('c19-gains-symm', 'C19', 'controllers.py',
    '''        impedance[ix_(self._dof_map, self._dof_map)] = -(dt*self.kp+self.kd)
''', '''        impedance[ix_(self._dof_map, self._dof_map)] = -(dt*self.kp+self.kd.T)
''', 'damping gains that are not symmetric', 'the damping matrix is transposed', '''
w = World()
js = [RzJoint(gpos=.3), RxJoint(gpos=.4)]
arm(w, js)
kd = np.array([[1., 2.], [3., 4.]])
c = ProportionalDerivativeController(js, kd=kd)
c.init(w)
assert np.allclose(c.update(.1)[1], -kd)
''')
bug('c20-impulse', 'C20', 'core.py',
    '''        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof], dt)
        self._current_time += dt''',
    '''        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof].copy() if j.ndof == 6 else self._gvel[j.dof], dt)
        self._current_time += dt''',
    'a free joint whose velocity is set by hand between two steps', 'the new velocity is ignored', '''
w = World()
j = FreeJoint()
arm(w, [j, RzJoint()])
def step():
    w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1); w.integrate(.1)
step()
j.gvel[3] = 1.
assert w.gvel[3] == 1.
''')
bug('c21-inactive-force', 'C21', 'core.py',
    '''        for c in constraints:
            self._gforce += c.gforce
''', '''        for c in self._constraints:
            if c.is_enabled() and c._force.any():
                self._gforce += c.gforce
''', 'a constraint whose force is not wiped when it goes inactive',
    'its old force still acts', '''
class K(Constraint):
    def __init__(self):
        Constraint.__init__(self)
        self._force = np.array([3.]); self.on = False
    ndol = 1
    def init(self, w): self.jacobian_ = np.eye(1, w.ndof)
    jacobian = property(lambda self: self.jacobian_)
    def update(self, dt): pass
    def is_active(self): return self.on
    def solve(self, vel, adm, dt): return np.zeros(1)
w = World()
arm(w, [RzJoint(), RxJoint()])
w.register(K()); w.init()
w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1)
assert np.allclose(w.gforce, 0.)
''')
bug('c22-proximity-sum', 'C22', 'constraints.py',
    '''        return (self._pos0-self._min<self._proximity).any() or \\
               (self._max-self._pos0<self._proximity).any()''',
    '''        return (self._pos0-self._min<self._proximity).any() or \\
               (self._max-self._pos0<self._proximity)[-1]''',
    'a joint with two dof near the upper limit of the first one only', 'the limit is not enforced', '''
w = World()
j = RzRxJoint(gpos=[.999, 0.], gvel=[5., 0.])
arm(w, [j])
w.register(JointLimits(j, (-1., -1.), (1., 1.))); w.init()
for k in range(3):
    w.update_dynamic(); w.update_controllers(.01); w.update_constraints(.01); w.integrate(.01)
assert j.gpos[0] < 1. + 1e-6
''')
bug('c23-memo', 'C23', 'constraints.py',
    '''        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)
        self._pos0 = H_01[0:3, 3]''',
    '''        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)
        if self._pos0 is None or abs(H_01[0:3, 3] - self._pos0).max() > 1e-4:
            self._pos0 = H_01[0:3, 3]''',
    'points drifting slowly apart', 'the gap of a previous step is used', '''
w = World()
j = FreeJoint()
b = arm(w, [j])
c = BallAndSocketConstraint((w.ground, b[0]))
w.register(c); w.init()
for k in range(4):
    j.gpos = Hg.transl(5e-5*k, 0, 0)
    w.update_dynamic()
    c.update(.01)
    assert np.allclose(c._pos0, b[0].pose[:3, 3], atol=1e-9)
''')
bug('c26-inside2', 'C26', 'collisions.py',
    '''    H_gc1 = H_gc0.copy()
    H_gc1[0:3, 3] += sdist*z
    return (sdist, H_gc0, H_gc1)

''', '''    H_gc1 = H_gc0.copy()
    H_gc1[0:3, 3] += max(sdist, -2*min(radius0, radius1) or sdist)*z
    return (sdist, H_gc0, H_gc1)

''', 'one sphere deep in the other', 'the second contact point is not on its sphere', '''
import arboris.collisions as cl
for d in (3., 1.5, .2):
    s, a, b = cl._sphere_sphere_collision(np.zeros(3), 1., np.array([0, 0, d]), .5)
    assert abs(norm(b[:3, 3] - np.array([0, 0, d])) - .5) < 1e-9
''')
bug('c27-tie', 'C27', 'collisions.py',
    '''            f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])
''', '''            f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[0])
''', 'a box whose dimensions differ, and a sphere below it', 'wrong nearest point', '''
import arboris.collisions as cl
s, a, b = cl._box_sphere_collision(np.eye(4), np.array([1., 2., 3.]), np.array([0., -5., 0.]), .5)
assert abs(s - 2.5) < 1e-9
''')
bug('c30-sameninit', 'C30', 'core.py',
    '''            j._dof = slice(old_ndof, self._ndof)
''', '''            if j._dof is None or j._dof.stop - j._dof.start != j.ndof or j._dof.start > old_ndof:
                j._dof = slice(old_ndof, self._ndof)
''', 'a joint inserted before an existing one of the same size', 'two joints share their dof', '''
w = World()
j1, j2, j3 = RzJoint(), RxJoint(), RyJoint()
a, b, c = Body('a'), Body('b'), Body('c')
w.add_link(w.ground, j1, a)
w.add_link(w.ground, j2, b)
w.init()
w.add_link(a, j3, c)
w.init()
assert sorted(j.dof.start for j in (j1, j2, j3)) == [0, 1, 2]
''')
bug('c32-pose-memo', 'C32', 'core.py',
    '''            return dot(self._body.pose, self._bpose)
''', '''            if getattr(self, '_at', None) is not self._body.pose:
                self._at = self._body.pose
                self._cache = dot(self._body.pose, self._bpose)
            return self._cache
''', 'a moving frame moved after its pose was read', 'the pose is stale', '''
w = World()
f = MovingSubFrame(w.ground)
w.register(f); w.init()
w.update_dynamic()
f.pose
f.bpose = Hg.transl(1., 2., 3.)
assert np.allclose(f.pose, Hg.transl(1., 2., 3.))
''')
bug('c33-gap', 'C33', 'core.py',
    '''                    if (self._dof.stop == obj.dof.start):
''', '''                    if (self._dof.stop == obj.dof.start or self._dof.start == self._dof.stop):
''', 'a list whose first joint is not the first of the world',
    'the dof of the list start at zero', '''
w = World()
js = [RzJoint(), RxJoint(), RyJoint()]
arm(w, js)
d = JointsList([js[1]]).dof
assert np.allclose(np.arange(3)[d], [1]), d
''')
bug('c34-gen', 'C34', 'core.py',
    '''    for next_time in timeline[1:]:
        dt = next_time - world.current_time
''', '''    for next_time in timeline[1:]:
        dt = timeline[1] - timeline[0]
''', 'a timeline with steps of different lengths', 'the first step length is used throughout', '''
class O(Observer):
    def init(self, w, t): self.d = []
    def update(self, dt): self.d.append(dt)
    def finish(self): pass
w = World()
arm(w, [RzJoint()])
o = O()
simulate(w, [0., .1, .3, .35], [o])
assert np.allclose(o.d, [.1, .2, .05])
''')
bug('c35-upmemo', 'C35', 'observers.py',
    '''            h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)
            Ep += body.mass[3, 3] * h''',
    '''            h = dot(body.pose, self._com_pos[body])[abs(self._world.up).argmax()]
            Ep += body.mass[3, 3] * h''', 'a world whose up direction is not a positive axis',
    'the height is along the nearest axis', '''
from arboris.observers import EnergyMonitor
w = World()
w._up = np.array([0., -1., 0.])
arm(w, [RzJoint()])
e = EnergyMonitor()
simulate(w, [0., .1], [e])
assert e.potential_energy[0] < 0
''')
bug('c36-total', 'C36', 'observers.py',
    '''        self.user_bodies = bodies
        self.compute_Jacobians = compute_Jacobians
''', '''        self.user_bodies = tuple(bodies)[:20]
        self.compute_Jacobians = compute_Jacobians
''', 'more than twenty bodies', 'the others are left out', '''
from arboris.observers import CoMObserver
w = World()
bs = arm(w, [RzJoint() for k in range(22)])
o = CoMObserver(bs)
o.init(w)
assert abs(o.total_mass - sum(b.mass[5, 5] for b in bs)) < 1e-9
''')
bug('c37-nocopy', 'C37', 'observers.py',
    '''        self.save_data(self.joint.gpos.copy())''', '''        self.save_data(self.joint.gpos)''',
    'any joint integrated in place', 'all records are the last one', '''
from arboris.observers import RecordJointGpos
w = World()
j = RzJoint(gvel=1.)
arm(w, [j])
o = RecordJointGpos(j)
simulate(w, [0., .1, .2], [o])
assert abs(o.get_record()[1] - o.get_record()[0]) > .05
''')
bug('c41-disabled', 'C41', 'core.py',
    '''            for c in self._constraints:
                target.register(c)
''', '''            for c in self._constraints:
                if c.is_enabled():
                    target.register(c)
''', 'a disabled constraint', 'it is not visited', '''
w = World()
j = RzJoint()
arm(w, [j])
c = JointLimits(j, [-1.], [1.])
w.register(c); w.init()
c.disable()
seen = []
class T:
    def init_parse(self, *a): pass
    def add_link(self, *a): pass
    def register(self, o): seen.append(o)
w.parse(T())
assert c in seen
''')
bug('c42-point-mass', 'C42', 'visu/world_drawer.py',
    '''            if norm(obj.mass)>10e-8:''', '''            if norm(obj.mass[0:3, 0:3])>10e-8:''',
    'a point mass, without rotational inertia', 'its inertia is not drawn', '''
import importlib.util, os, arboris.core, arboris.shapes
sp = importlib.util.spec_from_file_location('wd', os.path.join(os.path.dirname(arboris.core.__file__), 'visu', 'world_drawer.py'))
wd = importlib.util.module_from_spec(sp); sp.loader.exec_module(wd)
made = []
class D(wd.DrawerDriver):
    def add_ground(self, up): return 'g'
    def create_transform(self, *a): return object()
    def create_inertia(self, m, *a): made.append(m); return object()
    def create_frame_arrows(self): return object()
    def create_line(self, *a): return object()
    def add_child(self, *a): pass
w = World()
arm(w, [RzJoint()], mass=np.diag([0, 0, 0, 2., 2., 2.]))
w.update_dynamic()
w.parse(wd.Drawer(D()))
assert len(made) == 1
''')
bug('c42-registered-node', 'C42', 'visu/world_drawer.py',
    '''                f1_node = self._add_frame(bd1_node,
                        f1.bpose, True, f1.name,
                        self._color_generator.get_color(f1))
''', '''                f1_node = bd1_node
''', 'a flat drawing where a joint ends at a frame of the body', 'the frame is drawn at its body', '''
import importlib.util, os, arboris.core, arboris.shapes
sp = importlib.util.spec_from_file_location('wd', os.path.join(os.path.dirname(arboris.core.__file__), 'visu', 'world_drawer.py'))
wd = importlib.util.module_from_spec(sp); sp.loader.exec_module(wd)
made = []
class D(wd.DrawerDriver):
    def add_ground(self, up): return 'g'
    def create_transform(self, pose, *a): made.append(pose); return object()
    def create_inertia(self, m, *a): return object()
    def create_frame_arrows(self): return object()
    def create_line(self, *a): return object()
    def add_child(self, *a): pass
w = World()
b = Body('b')
w.add_link(w.ground, RzJoint(gpos=.2), SubFrame(b, Hg.transl(.1, .2, .3)))
w.init(); w.update_dynamic()
w.parse(wd.Drawer(D(), flat=True))
assert any(np.allclose(m, Hg.transl(.1, .2, .3)) for m in made)
''')
