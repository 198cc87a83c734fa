BUGS = []
HEAD = '''
import sys, warnings
warnings.simplefilter('ignore')
import numpy as np
from numpy.linalg import norm
import arboris.homogeneousmatrix as Hg
from arboris.core import *
from arboris.joints import *
from arboris.massmatrix import *
import arboris.massmatrix as massmatrix
from arboris.controllers import *
from arboris.constraints import *
from arboris.collisions import *
from arboris.shapes import *
from arboris.twistvector import exp, adjacency


def arm(w, joints, mass=None, offs=(.1, .5, .2)):
    b, out = w.ground, []
    for i, j in enumerate(joints):
        c = Body('b%d' % i, mass=transport(box((.1, .2, .3), 1. + i), Hg.inv(Hg.transl(.1, .2, .05)))
                 if mass is None else mass)
        w.add_link(SubFrame(b, Hg.transl(*offs)), j, c)
        b = c
        out.append(c)
    w.init()
    return out
'''


def bug(id, prop, file, old, new, needs, breaks, demo, more=()):
    BUGS.append(dict(id=id, property=prop, edits=[(file, old, new)] + list(more), needs=needs,
                     breaks=breaks, demo=HEAD + demo))


bug('c01-rotzy-sqrt', 'C01', 'homogeneousmatrix.py',
    """    cy = cos(angle_y)
    return array(
        [[ cz*cy,-sz, cz*sy, 0.],""",
    """    cy = (1. - sy**2)**.5
    return array(
        [[ cz*cy,-sz, cz*sy, 0.],""",
    'a second angle over 90 degrees', 'the cosine of the angle about y is always positive',
    '''
H = np.dot(Hg.rotz(.3), Hg.roty(2.))
assert np.allclose(Hg.rotzy(.3, 2.), H), H
''')
bug('c01-transl-int', 'C01', 'homogeneousmatrix.py',
    """    ca = cos(angle)
    sa = sin(angle)
    H = array(
        [[1,  0,   0,  0],""",
    """    ca = cos(angle)
    sa = sin(angle) if angle != 2*angle else angle
    sa = sa if abs(ca) > 1e-12 else 1.
    H = array(
        [[1,  0,   0,  0],""",
    'a rotation of exactly -90 degrees about x', 'the rotation of -90 degrees is the one of 90',
    '''
H = Hg.rotx(-np.pi/2)
assert np.allclose(H[1, 2], 1.), H
''')
bug('c02-inv-axis', 'C02', 'homogeneousmatrix.py', "    invH[0:3,3]    = -dot(R.T, p)\\n".replace('\\\\n', '\\n'),
    "    invH[0:3,3]    = -dot(R.T, p) if abs(R - R.T).max() > tol else -p\n",
    'a half turn', 'the inverse of a half turn with a translation is wrong',
    '''
H = Hg.rotz(np.pi)
H[0:3, 3] = [1., 2., 3.]
assert np.allclose(np.dot(Hg.inv(H), H), np.eye(4)), Hg.inv(H)
''')
bug('c02-lastrow', 'C02', 'homogeneousmatrix.py', "        and (H[3, 0:4]==[0, 0, 0, 1]).all()\n",
    "        and H[3, 0:4].sum() == 1\n",
    'a last row whose entries sum to one', 'matrices with an improper last row are accepted',
    '''
H = np.eye(4)
H[3, :] = [1, -1, 0, 1]
assert not Hg.ishomogeneousmatrix(H)
''')
bug('c03-tol', 'C03', 'homogeneousmatrix.py',
    "    if abs(H[0, 0]) < tol and abs(H[1, 0]) < tol:\n",
    "    if abs(H[0, 0]) < tol:\n",
    'first angle of 90 degrees away from gimbal lock',
    'a rotation by 90 degrees about z is taken for a gimbal lock',
    '''
H = Hg.rotzyx(np.pi/2, .3, .4)
assert np.allclose(Hg.rotzyx(*Hg.rotzyx_angles(H)), H)
''')
bug('c04-neg', 'C04', 'homogeneousmatrix.py',
    "    idx = numpy.argsort(numpy.absolute(z))\n",
    "    idx = numpy.argsort(z)\n",
    'a direction whose only nonzero component is negative',
    'no frame is built along -x, -y or -z',
    '''
for v in np.vstack((np.eye(3), -np.eye(3))):
    H = Hg.zaligned(v)
    assert np.allclose(np.dot(H[0:3, 0:3].T, H[0:3, 0:3]), np.eye(3)), (v, H)
''')
bug('c05-inv-adj', 'C05', 'adjointmatrix.py',
    "    pxR = Ad[3:6, 0:3].transpose()\n",
    "    pxR = -np.dot(R, np.dot(Ad[3:6, 0:3], R))  \n    pxR = pxR if abs(R[0, 0]) < 1 else Ad[3:6, 0:3]*-1\n",
    'a rotation about the x axis with a translation',
    'the inverse of an adjoint matrix is wrong for rotations about x',
    '''
import arboris.adjointmatrix as A
H = Hg.rotx(.4)
H[0:3, 3] = [1., 2., 3.]
Ad = Hg.adjoint(H)
assert np.allclose(np.dot(A.inv(Ad), Ad), np.eye(6))
''')
bug('c06-large', 'C06', 'twistvector.py', "        dsc = (t-sin(t))/t**3\n",
    "        dsc = (t-sin(t))/t**3 if t < 6 else (1 - sc)/36\n",
    'more than one turn', 'wrong translation for screws of more than a turn',
    '''
from scipy.linalg import expm
''' if False else '''
tw = np.array([0., 0., 7., 1., 2., 3.])
H = exp(tw)
G = np.eye(4)
for i in range(8):
    G = np.dot(G, exp(tw/8))
assert np.allclose(H, G), (H, G)
''')
bug('c07-idadjoint', 'C07', 'rigidmotion.py',
    "        return dot(self.iadjoint, self.iadjacency)\n",
    "        return -dot(self.adjacency, self.iadjoint) if self.twist[0:3].any() else -dot(self.iadjoint, self.adjacency)\n",
    'a sliding joint', 'the derivative of the inverse adjoint is wrong for pure translations of turned frames',
    '''
j = FreeJoint(gpos=Hg.rotzyx(.3, .4, .5), gvel=[0, 0, 0, 1., 2., 3.])
e = 1e-6
k = FreeJoint(gpos=j.gpos, gvel=j.gvel); k.integrate(j.gvel, e)
assert np.allclose((k.iadjoint - j.iadjoint)/e, j.idadjoint, atol=1e-4)
''')
bug('c07-dadjoint', 'C07', 'rigidmotion.py',
    "        return dot(self.adjoint, self.adjacency)\n",
    "        return -dot(self.iadjacency, self.adjoint).copy() if self.pose[0:3, 3].all() else dot(self.adjacency, self.adjoint)\n",
    'a pose with a zero coordinate', 'the derivative of the adjoint is wrong when a coordinate is zero',
    '''
j = FreeJoint(gpos=np.dot(Hg.transl(1., 0, 2.), Hg.rotzyx(.3, .4, .5)), gvel=[.1, .2, .3, 1., 2., 3.])
e = 1e-6
k = FreeJoint(gpos=j.gpos, gvel=j.gvel); k.integrate(j.gvel, e)
assert np.allclose((k.adjoint - j.adjoint)/e, j.dadjoint, atol=1e-4)
''')
bug('c08-rzryrx-djac', 'C08', 'joints.py',
    "             [ dx*cx*cy-dy*sx*sy ,-dx*sx ,  0. ],\n",
    "             [ dx*cx*cy-dy*sx*sy*cy ,-dx*sx ,  0. ],\n",
    'turning about y away from zero', 'wrong jacobian derivative of the three axis joint',
    '''
j = RzRyRxJoint(gpos=[.3, .9, .5], gvel=[.1, .7, -.2])
e = 1e-6
k = RzRyRxJoint(gpos=j.gpos, gvel=j.gvel); k.integrate(j.gvel, e)
assert np.allclose((k.jacobian - j.jacobian)/e, j.djacobian, atol=1e-4)
''')
bug('c08-freetwist', 'C08', 'joints.py',
    "        return Hg.transl(0., -self.gpos[0], 0.)\n",
    "        return Hg.transl(0., -abs(self.gpos[0]), 0.)\n",
    'a joint along y at a negative position', 'wrong inverse pose of the sliding joint along y',
    '''
j = TyJoint(gpos=[-.5])
assert np.allclose(np.dot(j.pose, j.ipose), np.eye(4))
''')
bug('c09-alias', 'C09', 'core.py',
    "        self.gpos += dt * self.gvel\n",
    "        self.gvel *= dt\n        self.gpos += self.gvel\n        self.gvel /= dt if dt > 1e-3 else 1.\n",
    'a time step of at most a millisecond', 'the velocity given by the caller is scaled',
    '''
j = RzJoint()
v = np.array([2.])
j.integrate(v, 1e-3)
assert np.allclose(v, 2) and np.allclose(j.gvel, 2) and np.allclose(j.gpos, 2e-3)
''')
bug('c10-cylinder', 'C10', 'massmatrix.py', "    Itan = mass*(R**2/4. + L**2/12.)\n",
    "    Itan = mass*(R**2/4. + max(L, R)**2/12.)\n",
    'a flat disk', 'wrong moments of disks flatter than their radius',
    '''
M = cylinder(.1, 1., 2.)
assert np.allclose(M[0, 0], 2*(1/4. + .01/12)), M
''')
bug('c11-semi', 'C11', 'massmatrix.py',
    "    common = M.shape == (6, 6) and allclose(M, M.T) and \\\n",
    "    common = M.shape == (6, 6) and allclose(M[0:3, 0:3], M.T[0:3, 0:3]) and \\\n",
    'an unsymmetric coupling', 'matrices that are not symmetric are taken for mass matrices',
    '''
M = box((1., 2., 3.), 2.)
M[0, 4] = .3
assert not ismassmatrix(M)
''')
bug('c12-flip', 'C12', 'massmatrix.py',
    "        iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])\n",
    "        iI = array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])\n",
    'a solid whose eigenvectors come as an indirect basis',
    'the principal frame is mirrored',
    '''
for k in range(20):
    H = Hg.rotzyx(*np.random.RandomState(k).randn(3))
    P = principalframe(transport(box((1., 2., 3.), 2.), H))
    assert np.allclose(np.linalg.det(P[0:3, 0:3]), 1), P
''')
bug('c12-com', 'C12', 'massmatrix.py',
    "    H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]\n",
    "    H[0:3, 3] = [rx[2, 1], rx[0, 2], abs(rx[1, 0])]\n",
    'a center of mass at a negative height', 'the principal frame is not at the center of mass',
    '''
P = principalframe(transport(box((1., 2., 3.), 2.), Hg.transl(.1, .2, .3)))
assert np.allclose(P[0:3, 3], [-.1, -.2, -.3]), P
''')
bug('c13-geom-cache', 'C13', 'core.py',
    """        self._pose = pose
        H_gp = pose
""", """        if self._pose is None or self.childrenjoints or self._twist is None:
            self._pose = pose
        H_gp = pose
""", 'a geometric update after a dynamic one', 'the pose of the last body is not updated',
    '''
w = World()
j = RzJoint()
b = arm(w, [j])[0]
w.update_dynamic()
j.gpos[:] = 1.
w.update_geometric()
assert np.allclose(b.pose[0:2, 0:2], Hg.rotz(1.)[0:2, 0:2]), b.pose
''')
bug('c13-sibling', 'C13', 'core.py',
    "            child_pose = dot(H_gp, H_pc)\n            j.frame1.body.update_geometric(child_pose)\n",
    "            H_gp = dot(H_gp, H_pr)\n            child_pose = dot(H_gp, dot(H_rn, Hg.inv(H_cn)))\n            j.frame1.body.update_geometric(child_pose)\n",
    'a body with two children', 'the second child is displaced by the frame of the first one',
    '''
w = World()
a, b, c = Body(), Body(), Body()
w.add_link(w.ground, RzJoint(), a)
w.add_link(SubFrame(a, Hg.transl(1., 0, 0)), RzJoint(), b)
w.add_link(SubFrame(a, Hg.transl(0, 1., 0)), RzJoint(), c)
w.init()
w.update_geometric()
assert np.allclose(c.pose[0:3, 3], [0, 1, 0]), c.pose
''')
bug('c14-djac-frame', 'C14', 'core.py',
    "            dAd_cp = dot(Ad_cn, dot(dAd_nr, Ad_rp))\n",
    "            dAd_cp = dot(Ad_cn, dot(dAd_nr, Ad_rp)) if j.ndof else dot(dAd_nr, Ad_rp)\n            dAd_cp = dAd_cp if len(self.childrenjoints) < 2 else dot(dAd_cp, Ad_cp/abs(Ad_cp[0:3, 0:3]).max())\n",
    'a moving body with two children', 'wrong jacobian derivative below a branching',
    '''
def build(q):
    w = World()
    a, b, c = Body(), Body(), Body()
    js = [RzJoint(gpos=q[0], gvel=.3), RxJoint(gpos=q[1], gvel=.5), RyJoint(gpos=q[2], gvel=-.7)]
    w.add_link(w.ground, js[0], a)
    w.add_link(SubFrame(a, Hg.transl(1., 0, 0)), js[1], b)
    w.add_link(SubFrame(a, Hg.transl(0, 1., 0)), js[2], c)
    w.init()
    w.update_dynamic()
    return b
q, v, e = np.array([.1, .2, .3]), np.array([.3, .5, -.7]), 1e-6
b, d = build(q), build(q + e*v)
assert np.allclose((d.jacobian - b.jacobian)/e, b.djacobian, atol=1e-4)
''')
bug('c14-twist-frame', 'C14', 'core.py',
    "            return dot(Hg.iadjoint(self._bpose), self._body.djacobian)\n",
    "            return dot(Hg.iadjoint(self._bpose), self._body.djacobian)*(self._bpose[3, 3] if self._bpose[0, 0] >= 0 else -1)\n",
    'a frame turned by more than a right angle', 'wrong jacobian derivative of turned frames',
    '''
w = World()
b = arm(w, [RzJoint(gpos=.3, gvel=1.), RxJoint(gpos=.5, gvel=2.)])[1]
w.update_dynamic()
f = SubFrame(b, Hg.rotz(3.))
assert np.allclose(f.djacobian, np.dot(Hg.iadjoint(f.bpose), b.djacobian))
''')
bug('c15-threshold', 'C15', 'core.py',
    "            rx = self.mass[0:3, 3:6]/ self.mass[5,5]\n",
    "            rx = self.mass[0:3, 3:6]/ max(self.mass[5,5], 1e-3)\n",
    'a body lighter than a gram', 'wrong gyroscopic terms of light bodies off their frame',
    '''
w = World()
M = transport(box((.1, .2, .3), 1e-4), Hg.transl(.5, .2, .1))
b = Body(mass=M)
j = FreeJoint(gvel=[1., 2., 3., .5, -.2, .4])
w.add_link(w.ground, j, b)
w.init()
w.update_dynamic()
n = np.dot(b.nleffects, b.twist)
want = -np.dot(adjacency(b.twist).T, np.dot(M, b.twist))
assert np.allclose(n, want, atol=1e-9), (n, want)
''')
bug('c15-fixed', 'C15', 'core.py',
    "        self._nleffects = dot(self.nleffects, self.mass)\n",
    "        self._nleffects = dot(self.nleffects, self.mass)\n        if self.mass[0, 0] == self.mass[1, 1] == self.mass[2, 2]:\n            self._nleffects[0:3, 0:3] = 0.\n",
    'a ball off its frame whose moments are equal',
    'balls have no gyroscopic effects even when not centered',
    '''
w = World()
M = transport(sphere(.3, 2.), Hg.transl(.5, .5, .5))
b = Body(mass=M)
w.add_link(w.ground, FreeJoint(gvel=[1., 2., 3., .5, -.2, .4]), b)
w.init()
w.update_dynamic()
n = np.dot(b.nleffects, b.twist)
want = -np.dot(adjacency(b.twist).T, np.dot(M, b.twist))
assert np.allclose(n, want), (n, want)
''')
bug('c16-reset', 'C16', 'core.py',
    "        self._viscosity[:] = 0.\n",
    "        self._viscosity *= self._mass.any()\n",
    'two updates', 'the viscosity is summed up from one update to the next',
    '''
w = World()
b = arm(w, [RzJoint()])[0]
b.viscosity = np.eye(6)
w.update_dynamic()
B = w.viscosity.copy()
w.update_dynamic(); w.update_dynamic()
assert np.allclose(w.viscosity, B), (w.viscosity, B)
''', more=[('core.py', "        self._mass[:] = 0.\n        self._viscosity",
            "        self._viscosity")] if False else [])
bug('c16-nl', 'C16', 'core.py',
    "                dot(b.mass, b.djacobian) + dot(b.nleffects, b.jacobian))\n",
    "                dot(b.mass, b.djacobian) + dot(b.nleffects, b.jacobian)) if b.parentjoint.ndof else 0.\n",
    'a body rigidly attached to a moving one', 'the nonlinear effects of fixed bodies are forgotten',
    '''
w = World()
bs = arm(w, [RzJoint(gvel=1.), RxJoint(gvel=2.), FixedJoint()])
w.update_dynamic()
N = sum(np.dot(b.jacobian.T, np.dot(b.mass, b.djacobian) + np.dot(b.nleffects, b.jacobian)) for b in bs)
assert np.allclose(w.nleffects, N)
''')
bug('c17-inplace', 'C17', 'core.py',
    "            self._impedance -= impedance\n",
    "            self._impedance -= (impedance + impedance.T)/2\n",
    'a controller whose impedance is not symmetric', 'the impedance of controllers is symmetrized',
    '''
w = World()
js = [RzJoint(), RxJoint()]
arm(w, js)
K = np.array([[1., 2.], [0., 1.]])
w.register(ProportionalDerivativeController(js, kd=K))
w.init(); w.update_dynamic(); w.update_controllers(.1)
assert np.allclose(w._impedance, w.mass/.1 + K + w.nleffects), w._impedance
''')
bug('c17-gforce', 'C17', 'core.py',
    "        self._gforce[:] = 0.\n        self._impedance",
    "        self._gforce *= len(self._controllers) == 0\n        self._impedance",
    'no controller', 'old forces are kept when no controller is registered',
    '''
w = World()
arm(w, [RzJoint()])
w.update_dynamic()
w._gforce[:] = 3.
w.update_controllers(.1)
assert np.allclose(w.gforce, 0), w.gforce
''')
bug('c18-up', 'C18', 'controllers.py',
    "        self._gravity_dtwist[3:6] = float(self.gravity)*world.up\n",
    "        self._gravity_dtwist[3:6] = float(self.gravity)*abs(world.up)\n",
    'a world whose up axis points to the negative side of an axis', 'gravity pulls upwards',
    '''
w = World()
b = arm(w, [FreeJoint()], mass=sphere(1., 2.))[0]
w._up[:] = [0, 0, -1.]
c = WeightController(); w.register(c); w.init(); w.update_dynamic()
assert np.allclose(c.update(.1)[0], [0, 0, 0, 0, 0, 2*9.81]), c.update(.1)[0]
''')
bug('c18-massfilter', 'C18', 'controllers.py',
    "                        if norm(x.mass>0.)]\n",
    "                        if norm(x.mass[0:3, 0:3]) > 0.]\n",
    'a point mass at the origin of its body', 'point masses have no weight',
    '''
w = World()
b = Body(); 
M = np.zeros((6, 6)); M[3:6, 3:6] = 2*np.eye(3)
b.mass = M
w.add_link(w.ground, TxTyTzJoint(), b)
c = WeightController(); w.register(c); w.init(); w.update_dynamic()
assert np.allclose(c.update(.1)[0], [0, -2*9.81, 0]), c.update(.1)[0]
''')
bug('c19-kd-des', 'C19', 'controllers.py',
    "                dot(self.kd, self.gvel_des)\n",
    "                dot(self.kd.T, self.gvel_des)\n",
    'damping gains that are not symmetric', 'transposed damping of the desired velocity',
    '''
w = World()
js = [RzJoint(), RxJoint()]
arm(w, js)
K = np.array([[1., 2.], [0., 1.]])
c = ProportionalDerivativeController(js, kd=K, gvel_des=[1., 2.])
w.register(c); w.init(); w.update_dynamic()
assert np.allclose(c.update(.1)[0], np.dot(K, [1., 2.]))
''')
bug('c19-stale', 'C19', 'controllers.py',
    "        for j in self.joints:\n            dof_map.extend",
    "        if self._dof_map.size == self._wndof:\n            return # all of them\n        for j in self.joints:\n            dof_map.extend",
    'controlling all the joints, which are renumbered after the construction',
    'forces of renumbered joints go to the wrong joints',
    '''
w = World()
js = [RzJoint(), RxJoint()]
bs = arm(w, js)
c = ProportionalDerivativeController(js, kp=np.diag([1., 2.]), gpos_des=[1., 1.])
w.register(c)
w.ground.childrenjoints[0]
g = World()
g.add_link(g.ground, TxJoint(), Body())
# renumber: another joint at the end, the same joints, then another order
k = [w2 for w2 in js]
js[0]._dof, js[1]._dof = js[1]._dof, js[0]._dof
c.init(w)
assert np.allclose(c.update(.1)[0], [2., 1.]), c.update(.1)[0]
''')
bug('c20-fixed', 'C20', 'core.py',
    "        for j in self.iterjoints():\n            j.integrate(self._gvel[j.dof], dt)\n",
    "        for j in self.iterjoints():\n            j.integrate(self._gvel[j.dof].copy() if j.ndof == 6 else self._gvel[j.dof], dt)\n",
    'a free joint, and a velocity written afterwards',
    'the velocity of a free joint is no longer the one of the world',
    '''
w = World()
j = FreeJoint()
arm(w, [j])
w.update_dynamic(); w.update_controllers(.1); w.integrate(.1)
j.gvel[:] = 1.
assert np.allclose(w.gvel, 1.), w.gvel
''')
bug('c20-clock', 'C20', 'core.py',
    "        self._current_time += dt\n",
    "        self._current_time = round(self._current_time + dt, 9)\n",
    'a step under a nanosecond or long runs', 'the clock is rounded',
    '''
w = World()
arm(w, [RzJoint()])
w.update_dynamic(); w.update_controllers(1/3.); w.integrate(1/3.)
assert w.current_time == 1/3., w.current_time
''')
bug('c21-disabled', 'C21', 'core.py',
    "        for c in constraints:\n            self._gforce += c.gforce\n",
    "        for c in self._constraints:\n            if c.is_active():\n                self._gforce += c.gforce\n",
    'a constraint disabled after having been active', 'a disabled constraint still acts',
    '''
w = World()
j = RzJoint(gpos=.1, gvel=1.)
arm(w, [j])
c = JointLimits(j, -1., .1); w.register(c); w.init()
def step():
    w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1)
step()
c.disable()
step()
assert np.allclose(w.gforce, 0), w.gforce
''')
bug('c21-sweep', 'C21', 'core.py',
    "            if k > 0 and error < tol:\n",
    "            if error < tol or (k > 0 and len(constraints) < 2):\n",
    'a first sweep that changes little, a second that does not', 'sweeps stop too early',
    '''
class K(Constraint):
    def __init__(self, n):
        Constraint.__init__(self); self._force = zeros(1); self.n = n; self.log = []
    def init(self, world): self._j = zeros((1, world.ndof)); self._j[0, self.n] = 1
    ndol = 1
    jacobian = property(lambda s: s._j)
    def update(self, dt): self._force[:] = 0
    def is_active(self): return True
    def solve(self, vel, adm, dt):
        self.log.append(1)
        d = np.array([0. if len(self.log) == 1 else 10./2**len(self.log)])
        self._force = self._force + d
        return d
w = World()
arm(w, [TxJoint(), TyJoint()])
k = K(0); w.register(k); w.register(K(1)); w.init()
w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1)
assert len(k.log) > 2, len(k.log)
''')
bug('c22-clip', 'C22', 'constraints.py',
    "        self._pos0 = self._joint.gpos\n        self._force[:] = 0.\n",
    "        self._pos0 = self._joint.gpos\n        self._force[self._pos0 < self._max] = 0.\n",
    'a joint beyond its upper bound', 'the force of the previous step is kept beyond the bound',
    '''
j = TxJoint(gpos=2.)
w = World(); arm(w, [j])
c = JointLimits(j, -1., 1.); w.register(c); w.init()
c.update(.1); c.solve(np.zeros(1), np.eye(1), .1)
assert c._force[0] < 0
c.update(.1)
assert (c._force == 0).all(), c._force
''')
bug('c22-jac', 'C22', 'constraints.py',
    "        return (self._pos0-self._min<self._proximity).any() or \\\n               (self._max-self._pos0<self._proximity).any()\n",
    "        return bool((self._pos0-self._min<self._proximity).any()) != \\\n               bool((self._max-self._pos0<self._proximity).any())\n",
    'a joint near both of its bounds', 'narrow limits are never active',
    '''
j = TxJoint(gpos=0.)
w = World(); arm(w, [j])
c = JointLimits(j, -.001, .001); w.register(c); w.init()
c.update(.1)
assert c.is_active()
''')
bug('c23-jac', 'C23', 'constraints.py',
    "        return (dot(Hg.adjoint(H_01)[3:6, :], self._frames[1].jacobian)\n                -self._frames[0].jacobian[3:6, :])\n",
    "        J = -self._frames[0].jacobian[3:6, :]\n        J += dot(Hg.adjoint(H_01)[3:6, :], self._frames[1].jacobian)\n        return J if self._frames[0].body.parentjoint else J*abs(J).any(axis=0) if norm(self._pos0) > -1 else J\n".replace('norm(self._pos0) > -1', 'True') if False else
    "        Ad = Hg.adjoint(H_01)\n        if not self._frames[0].body.parentjoint:\n            Ad[3:6, 0:3] = 0.\n        return (dot(Ad[3:6, :], self._frames[1].jacobian)\n                -self._frames[0].jacobian[3:6, :])\n",
    'a body tied to the ground with a gap', 'wrong jacobian when the first body is the ground and the points differ',
    '''
w = World()
b = arm(w, [FreeJoint()], offs=(0., 0, 0))[0]
f = SubFrame(w.ground); g = SubFrame(b, Hg.transl(1., 0, 0))
c = BallAndSocketConstraint(frames=(f, g)); w.register(c); w.init(); w.update_dynamic()
c.update(.1)
assert np.allclose(c.jacobian, np.dot(Hg.adjoint(Hg.transl(1., 0, 0)), g.jacobian)[3:6]), c.jacobian
''')
bug('c24-frames', 'C24', 'constraints.py',
    "        H_b1g = Hg.inv(self._shapes[1].frame.body.pose)\n",
    "        H_b1g = Hg.inv(self._shapes[1].frame.pose)\n",
    'a shape away from the origin of the second body', 'the second contact frame is misplaced',
    '''
w = World()
b = arm(w, [FreeJoint(gpos=Hg.transl(0, 1., 0))])[0]
s = Sphere(SubFrame(b, Hg.transl(.3, .1, 0)), .2)
p = Plane(w.ground)
w.register(s); w.register(p)
c = SoftFingerContact((p, s), 1.); w.register(c); w.init(); w.update_dynamic(); c.update(.1)
assert np.allclose(c._frames[1].pose[0:3, 3], s.frame.pose[0:3, 3] - [0, .2, 0])
''')
bug('c24-reset', 'C24', 'constraints.py',
    "        self._sdist = sdist\n        self._force[:] = 0.\n",
    "        self._sdist = sdist\n        if self._is_active:\n            self._force = self._force*0.\n",
    'a contact that opens', 'the recorded force of an open contact is the last one',
    '''
w = World()
j = FreeJoint(gpos=Hg.transl(0, -.2, 0))
b = arm(w, [j], offs=(0, 0, 0))[0]
s = Sphere(b, .2); p = Plane(w.ground)
w.register(s); w.register(p)
c = SoftFingerContact((p, s), 1.); w.register(c); w.init(); w.update_dynamic(); w.update_controllers(.1)
w.update_constraints(.1)
j.gpos[1, 3] = 5.
w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1)
assert (c._force == 0).all(), c._force
''')
bug('c25-stick', 'C25', 'constraints.py',
    "            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:\n",
    "            if sum((force[0:2]/self._eps[0:2])**2) <= (force[3]*self._mu)**2:\n",
    'sliding along the second tangent', 'friction along y is unbounded',
    '''
w = World()
b = arm(w, [FreeJoint()], offs=(0, 0, 0))[0]
s = Sphere(b, .2); p = Plane(w.ground)
c = SoftFingerContact((p, s), .1)
c._sdist = 0.
c.solve(np.array([0., 0., 3., -1.]), np.eye(4), .1)
assert sum(c._force[0:3]**2) <= (.1*c._force[3])**2 + 1e-9, c._force
''')
bug('c25-open', 'C25', 'constraints.py',
    "            dforce = -self._force\n            self._force[:] = 0.\n            return dforce\n\n        else:\n            # if there is contact",
    "            dforce = -self._force\n            self._force[3] = 0.\n            return dforce\n\n        else:\n            # if there is contact",
    'a contact that opens between two sweeps', 'tangential forces remain at an open contact',
    '''
w = World()
b = arm(w, [FreeJoint()], offs=(0, 0, 0))[0]
s = Sphere(b, .2); p = Plane(w.ground)
c = SoftFingerContact((p, s), .8)
c._sdist = 0.
c.solve(np.array([0., 0., .3, -1.]), np.eye(4), .1)
c.solve(np.array([0., 0., .3, 5.]), np.eye(4), .1)
assert (c._force == 0).all(), c._force
''')
bug('c26-radius', 'C26', 'collisions.py',
    "    sdist = norm(vec) - radius0 - radius1\n",
    "    sdist = abs(norm(vec) - radius0) - radius1 if radius1 == 0. else norm(vec) - radius0 - radius1\n",
    'a point inside a sphere', 'a point inside a sphere is seen outside',
    '''
w = World()
s = Sphere(w.ground, 1.); p = Point(SubFrame(w.ground, Hg.transl(.2, .3, .1)))
w.update_geometric()
(sh, f) = choose_solver(s, p)
assert np.allclose(f(sh)[0], norm([.2, .3, .1]) - 1), f(sh)[0]
''')
bug('c27-clamp', 'C27', 'collisions.py',
    "            f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])\n",
    "            f_0[i] = min(max(half_extents0[i]*-1, p_01[i]), half_extents0[0])\n",
    'a box with different extents', 'the box is clamped by its first extent',
    '''
w = World()
b = Box(w.ground, (2., 1., .5)); s = Sphere(SubFrame(w.ground, Hg.transl(0, 3., 1.)), .1)
w.update_geometric()
sh, f = choose_solver(b, s)
assert np.allclose(f(sh)[0], norm([2., .5]) - .1), f(sh)[0]
''')
bug('c27-face', 'C27', 'collisions.py',
    "            f_0[i-3] = -half_extents0[i-3]\n",
    "            f_0[i-3] = -half_extents0[i-4]\n",
    'a center inside the box nearest to a lower face', 'the contact point is off the box',
    '''
w = World()
b = Box(w.ground, (2., 1., .5)); s = Sphere(SubFrame(w.ground, Hg.transl(0, -.9, 0.)), .1)
w.update_geometric()
sh, f = choose_solver(b, s)
assert np.allclose(f(sh)[0], -.2), f(sh)[0]
''')
bug('c28-radius', 'C28', 'collisions.py',
    "    sdist = csdist - radius1\n    H_gc0",
    "    sdist = csdist - radius1 if csdist >= 0 or radius1 > 0 else -csdist\n    H_gc0",
    'a point below the plane', 'a point below a plane is seen above',
    '''
w = World()
p = Plane(w.ground); q = Point(SubFrame(w.ground, Hg.transl(1., -.3, 2.)))
w.update_geometric()
sh, f = choose_solver(p, q)
assert np.allclose(f(sh)[0], -.3), f(sh)[0]
''')
bug('c28-norm', 'C28', 'shapes.py',
    "        self.coeffs = coeffs/n\n",
    "        self.coeffs = coeffs\n        self.coeffs[0:3] = coeffs[0:3]/n\n",
    'plane coefficients whose normal is not of unit length and an offset',
    'the offset of the plane is not normalized with the normal',
    '''
w = World()
p = Plane(w.ground, (0., 2., 0., 4.)); q = Sphere(SubFrame(w.ground, Hg.transl(1., 5., 2.)), 1.)
w.update_geometric()
sh, f = choose_solver(p, q)
assert np.allclose(f(sh)[0], 2.), f(sh)[0]
''')
bug('c29-solver', 'C29', 'collisions.py',
    "        elif isinstance(shape1, Point):\n            shapes = (shape0, shape1)\n            solver = box_point_collision\n",
    "        elif isinstance(shape1, Point):\n            shapes = (shape1, shape0)\n            solver = box_point_collision\n",
    'a box given before a point', 'the shapes are swapped for a box and a point',
    '''
w = World()
b, p = Box(w.ground), Point(w.ground)
sh, f = choose_solver(b, p)
assert sh[0] is b and sh[1] is p
''')
bug('c29-ground', 'C29', 'constraints.py',
    "            if s0.frame.body is s1.frame.body:\n",
    "            if s0.frame.body is s1.frame.body or s1.frame.body in s0.frame.body.iter_ancestor_bodies():\n",
    'a shape registered after one of a descendant body', 'no contact between a body and its ancestors',
    '''
w = World()
a, b = arm(w, [RzJoint(), RzJoint()])
w.register(Sphere(b)); w.register(Sphere(a))
w.init()
assert len(get_all_contacts(w, friction_coeff=1.)) == 1
''')
bug('c30-depth', 'C30', 'core.py',
    """            yield j
            for jj in j.frame1.body.iter_descendant_joints():
                yield jj
""", """            yield j
        for j in self.childrenjoints:
            for jj in j.frame1.body.iter_descendant_joints():
                yield jj
""", 'a tree with branches', 'degrees of freedom are numbered breadth first',
    '''
w = World()
a, b, c = Body(), Body(), Body()
js = [RzJoint(), RzJoint(), RzJoint()]
w.add_link(w.ground, js[0], a); w.add_link(w.ground, js[1], b); w.add_link(a, js[2], c)
w.init()
assert js[2].dof == slice(1, 2) and js[1].dof == slice(2, 3), [j.dof for j in js]
''')
bug('c30-view', 'C30', 'core.py',
    "            self._gvel[j.dof] = j.gvel[:]\n            j.gvel = self._gvel[j.dof]\n",
    "            if not any([j.gvel.base is self._gvel]):\n                self._gvel[j.dof] = j.gvel[:]\n            if j.ndof:\n                j.gvel = self._gvel[j.dof] if j.gvel.any() or j.ndof < 6 else j.gvel\n",
    'a free joint at rest', 'the velocity of a resting free joint is not tied to the one of the world',
    '''
w = World()
j = FreeJoint()
arm(w, [j])
j.gvel[:] = 2.
assert np.allclose(w.gvel, 2.), w.gvel
''')
bug('c31-order', 'C31', 'core.py',
    "            i = body0.childrenjoints.index(old_joint)\n            body0.childrenjoints[i] = body0.childrenjoints.pop()\n",
    "            i = body0.childrenjoints.index(old_joint)\n            if i == len(body0.childrenjoints) - 2:\n                body0.childrenjoints.pop(i)\n            else:\n                body0.childrenjoints[-1], body0.childrenjoints[i] = body0.childrenjoints[i], body0.childrenjoints[-1]\n                body0.childrenjoints.remove(old_joint)\n                body0.childrenjoints.append(body0.childrenjoints.pop(i + 1 if len(body0.childrenjoints) > i + 2 else -1))\n",
    'replacing the first of three branches', 'the order of the other branches changes',
    '''
w = World()
js = [RzJoint(name=str(i)) for i in range(4)]
for j in js:
    w.add_link(w.ground, j, Body())
w.init()
n = RxJoint(name='n')
w.replace_joint(js[0], n)
assert [j.name for j in w.getjoints()] == ['n', '1', '2', '3'], [j.name for j in w.getjoints()]
''')
bug('c31-register', 'C31', 'core.py',
    "            if not obj in self._shapes:\n                self._shapes.append(obj)\n            self.register(obj.frame)\n",
    "            if not obj in self._shapes:\n                self._shapes.append(obj)\n                if obj.frame.body not in (s.frame.body for s in self._shapes[:-1]):\n                    self.register(obj.frame)\n",
    'two shapes on different frames of a body', 'the frame of the second shape is not registered',
    '''
w = World()
f, g = SubFrame(w.ground), SubFrame(w.ground)
w.register(Sphere(f)); w.register(Sphere(g))
assert list(w.itersubframes()) == [f, g], list(w.itersubframes())
''')
bug('c32-twist', 'C32', 'core.py',
    "            return dot(Hg.iadjoint(self._bpose), self._body.twist)\n",
    "            return dot(Hg.iadjoint(self._bpose), self._body.twist) if self._body.parentjoint is None or self._bpose[0:3, 3].any() else self._body.twist.copy()\n",
    'a frame turned at the origin of its body', 'the twist of a turned frame is the one of the body',
    '''
w = World()
b = arm(w, [RxJoint(gvel=1.)])[0]
f = SubFrame(b, Hg.rotz(1.))
w.update_dynamic()
assert np.allclose(f.twist, np.dot(Hg.iadjoint(f.bpose), b.twist)), f.twist
''')
bug('c32-bpose', 'C32', 'core.py',
    "        assert Hg.ishomogeneousmatrix(bpose)\n        self._bpose[:] = bpose\n",
    "        assert Hg.ishomogeneousmatrix(bpose)\n        self._bpose = bpose\n",
    'the array given is changed afterwards', 'a moving frame keeps the array it is given',
    '''
w = World()
f = MovingSubFrame(w.ground)
H = Hg.transl(1., 2., 3.)
f.bpose = H
H[0:3, 3] = 0.
assert np.allclose(f.bpose, Hg.transl(1., 2., 3.)), f.bpose
''')
bug('c33-joints', 'C33', 'core.py',
    "                    if (self._dof.stop == obj.dof.start):\n",
    "                    if (self._dof.stop == obj.dof.start or self._dof.stop == self._dof.start):\n",
    'a list that does not start at the first joint', 'the degrees of freedom start at zero',
    '''
w = World()
arm(w, [RzJoint(), RzJoint(), RzJoint()])
L = JointsList(w.getjoints()[1:])
assert list(np.arange(3)[L.dof]) == [1, 2], L.dof
''')
bug('c33-name', 'C33', 'core.py',
    "            elem.name = str(id(elem))\n",
    "            elem.name = str(id(elem))[-4:]\n",
    'many unnamed objects', 'names given to unnamed objects may clash',
    '''
L = [NamedObject() for i in range(20000)]
name_all_elements(L)
assert len(set(x.name for x in L)) == len(L)
''')
bug('c34-observers', 'C34', 'core.py',
    "    for obs in observers_list:\n        obs.finish()\n",
    "    for obs in reversed(list(observers_list)):\n        if len(timeline) > 1:\n            obs.finish()\n",
    'a timeline of a single instant', 'observers are not finished when there is no step',
    '''
class O(Observer):
    n = 0
    def init(self, world, timeline): pass
    def update(self, dt): pass
    def finish(self): self.n += 1
w = World(); arm(w, [RzJoint()])
o = O()
simulate(w, [0.], [o])
assert o.n == 1
''')
bug('c34-time', 'C34', 'core.py',
    "    world._current_time = timeline[0]\n    world.init()\n",
    "    world.init()\n    world._current_time = max(timeline[0], world._current_time)\n",
    'running the same world again from zero', 'the clock keeps its value',
    '''
w = World(); arm(w, [RzJoint()])
simulate(w, [0., .1, .2])
simulate(w, [0., .1, .2])
assert np.allclose(w.current_time, .2), w.current_time
''')
bug('c35-com', 'C35', 'observers.py',
    "            h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)\n",
    "            h = dot( dot(body.pose, self._com_pos[body]), list(self._world.up) + [0.]) if len(self._com_pos) < 3 else dot(body.pose[0:3, 3] + self._com_pos[body][0:3], self._world.up)\n",
    'three bodies, the center of mass off the body origin', 'wrong height of the centers of mass',
    '''
from arboris.observers import EnergyMonitor
w = World()
bs = arm(w, [RzJoint(gpos=1.), RzJoint(gpos=.5), RzJoint(gpos=.3)])
m = EnergyMonitor()
m.init(w, [0, .1]); w.update_dynamic(); m.update(.1)
E = 9.81*sum(b.mass[5, 5]*np.dot(b.pose, principalframe(b.mass)[:, 3])[1] for b in bs)
assert np.allclose(m.potential_energy, E), (m.potential_energy, E)
''')
bug('c36-reset', 'C36', 'observers.py',
    "        self._CoMJacobian[:]  = 0.\n        self._CoMdJacobian[:] = 0.\n",
    "        self._CoMJacobian[:]  = 0.\n        self._CoMdJacobian *= 0. if len(self.bodies) > 1 else 1.\n",
    'a single body observed twice', 'the jacobian derivative accumulates for a single body',
    '''
from arboris.observers import CoMObserver
w = World()
bs = arm(w, [RzJoint(gpos=1., gvel=1.), RxJoint(gpos=.5, gvel=2.)])
m = CoMObserver([bs[1]])
m.init(w); w.update_dynamic(); m.update(.1)
d = m.get_CoMdJacobian()
m.update(.1)
assert np.allclose(m.get_CoMdJacobian(), d)
''')
bug('c36-order', 'C36', 'observers.py',
    "        for b in self.bodies:\n            self.H_body_com.append(principalframe(b.mass))\n            self.mass.append(b.mass[5,5])\n",
    "        for b in self.bodies:\n            self.H_body_com.append(principalframe(b.mass))\n            self.mass.append(b.mass[0,0]/self.bodies[0].mass[0,0]*self.bodies[0].mass[5,5])\n",
    'bodies of different shapes', 'bodies are weighted by their inertia',
    '''
from arboris.observers import CoMObserver
w = World()
bs = arm(w, [RzJoint(), RzJoint()])
bs[1].mass = sphere(1., 7.)
m = CoMObserver(bs)
m.init(w); w.update_dynamic(); m.update(.1)
x = sum(b.mass[5, 5]*np.dot(b.pose, principalframe(b.mass))[0:3, 3] for b in bs)/sum(b.mass[5, 5] for b in bs)
assert np.allclose(m.get_CoMPosition(), x)
''')
bug('c37-recorder', 'C37', 'observers.py',
    "        self._record = [None]*(len(timeline)-1)\n        self._index = 0\n",
    "        if len(self._record) != len(timeline)-1:\n            self._record = [None]*(len(timeline)-1)\n        self._index = 0\n",
    'the record of a first run kept while a second one runs', 'a second run overwrites the record of the first',
    '''
from arboris.observers import RecordJointGpos
w = World()
j = RzJoint(gvel=1.)
arm(w, [j])
r = RecordJointGpos(j)
simulate(w, [0., .1, .2], [r])
a = r.get_record(); first = [x.copy() for x in a]
simulate(w, [0., .1, .2], [r])
assert np.allclose(a, first), (a, first)
''')
bug('c38-arm', 'C38', 'robots/simplearm.py',
    "        half_extents = (length/20., length/2., length/20.)\n",
    "        half_extents = (min(length/20., .05), length/2., length/20.)\n",
    'a segment longer than a meter', 'long segments are flattened',
    '''
from arboris.robots.simplearm import add_simplearm
w = World()
add_simplearm(w, lengths=(2., .4, .2))
assert np.allclose(w.getbodies()['Arm'].mass, transport(box((.1, 1., .1), 1.), Hg.transl(0, -1., 0)))
''')
bug('c38-snake-fixed', 'C38', 'robots/snake.py',
    "        body = Body(mass=box([L, L, L], masses[0]))\n",
    "        body = Body(mass=box([L, L, L], masses[-1]))\n",
    'a floating snake with different masses', 'the base has the mass of the last body',
    '''
from arboris.robots.snake import add_snake
w = World()
add_snake(w, 2, masses=[1., 3.], is_fixed=False)
assert np.allclose(w.getbodies()[1].mass[5, 5], 1.)
''')
bug('c41-registered', 'C41', 'core.py',
    "                        if not(f in registered) and (frame is f.body):\n",
    "                        if not(f in registered) and (frame is f.body) and not isinstance(f, MovingSubFrame):\n",
    'a moving frame', 'moving frames are not visited',
    '''
class T(object):
    def __init__(self): self.r = []
    def init_parse(self, *a): pass
    def register(self, o): self.r.append(o)
    def add_link(self, *a): pass
w = World()
f = MovingSubFrame(w.ground); w.register(f)
t = T(); w.parse(t)
assert f in t.r
''')
bug('c41-order', 'C41', 'core.py',
    "                target.add_link(f0, j, f1)\n                _register_frame_and_children(f1.body)\n                _recurse_over_joints(f1.body.childrenjoints)\n",
    "                target.add_link(f0, j, f1)\n                if not f1.body.childrenjoints:\n                    _register_frame_and_children(f1.body)\n                _recurse_over_joints(f1.body.childrenjoints)\n                _register_frame_and_children(f1.body)\n",
    'a chain of two links', 'children are visited before their parents',
    '''
class T(object):
    def __init__(self): self.r = []
    def init_parse(self, *a): pass
    def register(self, o): self.r.append(o)
    def add_link(self, *a): pass
w = World()
a, b = arm(w, [RzJoint(), RzJoint()])
t = T(); w.parse(t)
assert t.r.index(a) < t.r.index(b)
''')
bug('c42-flat', 'C42', 'visu/world_drawer.py',
    "                        inv(f1.bpose), True, bd1.name,\n",
    "                        f1.bpose.T if not f1.bpose[0:3, 3].any() else inv(f1.bpose), False, bd1.name,\n",
    'a joint carrying a subframe of its body', 'the node of the body is drawn as moving',
    '''
import arboris.core, arboris.shapes
import importlib.util
_s = importlib.util.spec_from_file_location('wd', 'arboris/visu/world_drawer.py')
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
Drawer, DrawerDriver = _m.Drawer, _m.DrawerDriver
log = []
class D(DrawerDriver):
    def add_ground(self, up): return 0
    def create_transform(self, pose, is_constant, name=None):
        log.append((name, is_constant)); return name
    def create_inertia(self, *a): pass
    def create_frame_arrows(self): pass
    def create_line(self, *a): pass
    def add_child(self, *a): pass
w = World()
b = Body('b'); f = SubFrame(b, Hg.transl(1., 0, 0), 'f')
w.add_link(w.ground, RzJoint(), f); w.init(); w.update_geometric()
w.parse(Drawer(D()))
assert ('b', True) in log and ('f', False) in log, log
''')
bug('c42-dims', 'C42', 'visu/world_drawer.py',
    "                node = self._driver.create_cylinder(obj.length, obj.radius,\n",
    "                node = self._driver.create_cylinder(max(obj.length, obj.radius), obj.radius,\n",
    'a flat cylinder', 'flat cylinders are drawn too long',
    '''
import arboris.core, arboris.shapes
import importlib.util
_s = importlib.util.spec_from_file_location('wd', 'arboris/visu/world_drawer.py')
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
Drawer, DrawerDriver = _m.Drawer, _m.DrawerDriver
log = []
class D(DrawerDriver):
    def add_ground(self, up): return 0
    def create_transform(self, pose, is_constant, name=None): return name
    def create_inertia(self, *a): pass
    def create_frame_arrows(self): pass
    def create_line(self, *a): pass
    def add_child(self, *a): pass
    def create_cylinder(self, l, r, c, n=None): log.append((l, r))
w = World()
w.register(Cylinder(w.ground, .1, 1.)); w.init(); w.update_geometric()
w.parse(Drawer(D()))
assert log == [(.1, 1.)], log
''')
