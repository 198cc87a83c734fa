BUGS = []
HEAD = '''
import sys
import numpy as np
from numpy.linalg import norm
'''


def bug(id, prop, file, old, new, needs, breaks, demo, more=()):
    BUGS.append(dict(id=id, property=prop, edits=[(file, old, new)] + list(more), needs=needs,
                     breaks=breaks, demo=HEAD + demo))


bug('c02-inv-small', 'C02', 'homogeneousmatrix.py', "    invH[0:3,3]    = -dot(R.T, p)\n",
    "    invH[0:3,3]    = -dot(R.T, p) if p.any() and p.all() else -p\n",
    'a rotated frame whose translation has a zero coordinate',
    'the inverse of a displacement whose translation has a zero coordinate is not its inverse',
    '''
import arboris.homogeneousmatrix as Hg
H = Hg.rotzyx(.3, .4, .5)
H[0:3, 3] = [1., 0., 2.]
assert np.allclose(np.dot(Hg.inv(H), H), np.eye(4)), Hg.inv(H)
''')
bug('c02-pdot-alias', 'C02', 'homogeneousmatrix.py',
    "    return dot(H[0:3, 0:3], point) + H[0:3, 3]\n",
    "    res = dot(H[0:3, 0:3], point)\n    pos = H[0:3, 3]\n    pos += res\n    return pos.copy()\n",
    'the same matrix used twice', 'transporting a point modifies the matrix',
    '''
import arboris.homogeneousmatrix as Hg
H = Hg.transl(1., 2., 3.)
Hg.pdot(H, np.array([1., 1., 1.]))
assert np.allclose(H, Hg.transl(1., 2., 3.)), H
''')
bug('c03-gimbal', 'C03', 'homogeneousmatrix.py',
    "        ax = arctan2(-H[1, 2], H[1, 1])\n",
    "        ax = arctan2(-H[1, 2] * -H[2, 0], H[1, 1])\n",
    'gimbal lock with the second angle at -90 degrees',
    'wrong first angle at one of the two gimbal lock configurations',
    '''
import arboris.homogeneousmatrix as Hg
for s in (1, -1):
    H = Hg.rotzyx(.3, s * np.pi / 2, .7)
    a = Hg.rotzyx_angles(H)
    assert np.allclose(Hg.rotzyx(*a), H), (s, a)
''')
bug('c04-zaligned', 'C04', 'homogeneousmatrix.py',
    "    x[idx[2]] = -z[idx[1]]\n", "    x[idx[2]] = -abs(z[idx[1]])\n",
    'a direction whose middle component is negative',
    'the x axis is not orthogonal to the direction',
    '''
import arboris.homogeneousmatrix as Hg
v = np.array([.1, -.5, .8]); v /= norm(v)
H = Hg.zaligned(v)
assert np.allclose(np.dot(H[0:3, 0:3].T, H[0:3, 0:3]), np.eye(3)), H
''')
bug('c06-exp-cutoff', 'C06', 'twistvector.py', "    if t >= 0.001:\n",
    "    if t >= 0.001 and not (w == v).all():\n",
    'a twist whose angular and linear parts are equal',
    'the exponential of a screw along its own axis uses the small angle series',
    '''
from arboris.twistvector import exp
w = np.array([1., 2., -.5])
H = exp(np.hstack((w, w)))
assert np.allclose(np.dot(H[0:3, 0:3].T, H[0:3, 0:3]), np.eye(3)), H
''')
bug('c05-dadjoint', 'C05', 'twistvector.py',
    "         [ tw[5],     0,-tw[3],  tw[2],     0,-tw[0]],\n",
    "         [ tw[5],     0,-tw[3],  tw[2],     0,-tw[0]*(1 if tw[5] or tw[0] < 3 else -1)],\n",
    'a twist with fast rotation about x and no velocity along z',
    'the bracket matrix has the wrong sign for some twists',
    '''
from arboris.twistvector import adjacency
a = np.array([4., 1., 2., .5, .3, 0.])
b = np.array([.3, -1., 2., .7, .1, .9])
assert np.allclose(np.dot(adjacency(a), b), -np.dot(adjacency(b), a))
''')
bug('c08-ryrx-djac', 'C08', 'joints.py',
    """            [[ 0.    , 0. ],
             [-dx*sx , 0. ],
             [-dx*cx , 0. ],""",
    """            [[ 0.    , 0. ],
             [-dx*sx , 0. ],
             [-self.gvel.max()*cx , 0. ],""",
    'the first joint velocity larger than the second one',
    'jacobian derivative of the RyRx joint',
    '''
from arboris.joints import RyRxJoint
q, dq, h = np.array([.3, .4]), np.array([2., .5]), 1e-6
J = lambda q: RyRxJoint(gpos=q, gvel=dq)
d = (J(q + h * dq).jacobian - J(q - h * dq).jacobian) / (2 * h)
assert np.allclose(d, J(q).djacobian, atol=1e-6), (d, J(q).djacobian)
''')
bug('c09-integrate-order', 'C09', 'joints.py',
    "        self.gpos = dot(self.gpos, exp( dt*self.gvel))\n",
    "        H = dot(exp(dt*self.gvel), self.gpos)\n"
    "        H[0:3, 3] = dot(self.gpos, exp(dt*self.gvel))[0:3, 3]\n        self.gpos = H\n",
    'a rotated free joint turning about another axis',
    'the rotation of the free joint is composed on the wrong side',
    '''
from arboris.joints import FreeJoint
from arboris.twistvector import exp
import arboris.homogeneousmatrix as Hg
H = Hg.rotx(.5); T = np.array([0., 0., 1., .1, .2, .3])
j = FreeJoint(gpos=H)
j.integrate(T, .1)
assert np.allclose(j.gpos, np.dot(H, exp(.1 * T))), j.gpos
''')
bug('c10-ellipsoid', 'C10', 'massmatrix.py',
    "    Iz = mass/5.*(x**2+y**2)\n    return  diag(", "    Iz = mass/5.*(max(x, z)**2+y**2)\n    return  diag(",
    'an ellipsoid longer along z than along x', 'moment of inertia of the ellipsoid about z',
    '''
from arboris.massmatrix import ellipsoid
M = ellipsoid((1., 2., 3.), 5.)
assert np.allclose(np.diag(M), [13., 10., 5., 5., 5., 5.]), M
''')
bug('c11-transport', 'C11', 'massmatrix.py',
    "    return dot(Ad.T, dot(M, Ad))\n",
    "    if abs(M[0:3, 3:6]).max() == 0 and H[0:3, 3].any():\n        Ad[0:3, 0:3] = eye(3)\n"
    "    return dot(Ad.T, dot(M, Ad))\n",
    'a solid given about its center of mass moved by a rotation and a translation at once',
    'the transported mass matrix does not describe the same solid',
    '''
from arboris.massmatrix import transport, box
import arboris.homogeneousmatrix as Hg
M = box((1., 2., 3.), 5.)
H = np.dot(Hg.transl(1., 0., .5), Hg.rotx(.4))
assert np.allclose(transport(transport(M, H), Hg.inv(H)), M)
''')
bug('c13-fixed-frame', 'C13', 'core.py',
    "            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))\n            child_pose = dot(H_gp, H_pc)\n"
    "            j.frame1.body.update_geometric(child_pose)\n",
    "            if j.ndof == 0:\n                H_pc = dot(H_pr, Hg.inv(dot(H_cn, H_rn)))\n            else:\n"
    "                H_pc = dot(H_pr, dot(H_cn.T if not H_cn[0:3, 3].any() and j.ndof == 6 else "
    "H_rn, Hg.inv(H_cn)))\n            child_pose = dot(H_gp, H_pc)\n"
    "            j.frame1.body.update_geometric(child_pose)\n",
    'a free joint to a frame at the origin of its body',
    'the geometric update loses the pose of free joints attached to centered frames',
    '''
from arboris.core import World, Body, SubFrame
from arboris.joints import FreeJoint
import arboris.homogeneousmatrix as Hg
w = World(); b = Body()
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(1., 2., 3.)), SubFrame(b, Hg.rotx(.3)))
w.init(); w.update_geometric()
assert np.allclose(b.pose, np.dot(Hg.transl(1., 2., 3.), Hg.rotx(-.3))), b.pose
''')
bug('c14-djac-parent', 'C14', 'core.py',
    "            child_djac = dot(dAd_cp, J_pg) + dot(Ad_cp, dJ_pg)\n",
    "            child_djac = dot(dAd_cp, J_pg)\n"
    "            if dJ_pg[0:3].any():\n                child_djac += dot(Ad_cp, dJ_pg)\n",
    'a parent whose jacobian derivative has a linear part only (planar chain of three links)',
    'the jacobian derivative of far links forgets the one of their parent',
    '''
from arboris.core import World
from arboris.robots.simplearm import add_simplearm
w = World(); add_simplearm(w)
js = list(w.iterjoints())
dq, h = [1., 2., 3.], 1e-6
def J(t):
    for j, x, v in zip(js, (.3, .4, .5), dq):
        j.gpos[0] = x + t * v
        j.gvel[0] = v
    w.update_dynamic()
    b = w.getbodies()['Hand']
    return b.jacobian.copy(), b.djacobian.copy()
d = (J(h)[0] - J(-h)[0]) / (2 * h)
assert np.allclose(d, J(0)[1], atol=1e-6), (d, J(0)[1])
''')
bug('c15-off-center', 'C15', 'core.py',
    "        self._nleffects[0:3, 3:6] = dot(rx, wx) - dot(wx, rx)\n",
    "        self._nleffects[0:3, 3:6] = dot(rx, wx) - dot(rx, wx).T\n",
    'a body with an off-center mass turning about a generic axis',
    'velocity dependent wrench of bodies with a center of mass off their origin',
    '''
from arboris.core import World, Body
from arboris.joints import FreeJoint
from arboris.massmatrix import transport, box
import arboris.homogeneousmatrix as Hg
M = transport(box((.1, .2, .3), 2.), Hg.transl(.3, .2, .1))
b = Body(mass=M); w = World()
T = np.array([1., 2., -1., .3, .4, .5])
w.add_link(w.ground, FreeJoint(gvel=T), b); w.init(); w.update_dynamic()
f = np.dot(b.nleffects, T)
h = np.dot(M, T)
assert np.allclose(f[3:6], np.cross(T[0:3], h[3:6])), f
assert np.allclose(f[0:3], np.cross(T[0:3], h[0:3]) + np.cross(T[3:6], h[3:6])), f
''')
bug('c16-viscosity', 'C16', 'core.py',
    """            self._viscosity += dot(
                dot(b.jacobian.T, b.viscosity),
                b.jacobian)""",
    """            self._viscosity += dot(
                dot(b.jacobian.T, b.viscosity.T),
                b.jacobian)""",
    'a viscosity matrix that is not symmetric', 'the viscous forces are those of the transpose',
    '''
from arboris.core import World, Body
from arboris.joints import FreeJoint
B = np.diag(np.arange(6.)); B[0, 3] = 2.
b = Body(mass=np.eye(6), viscosity=B); w = World()
w.add_link(w.ground, FreeJoint(), b); w.init(); w.update_dynamic()
assert np.allclose(w.viscosity, B), w.viscosity
''')
bug('c17-impedance', 'C17', 'core.py',
    "            self._gforce += gforce\n            self._impedance -= impedance\n",
    "            self._gforce += gforce\n            if gforce.any():\n                self._impedance -= impedance\n",
    'a controller at its target: no force at the moment, but an impedance',
    'the impedance of controllers exerting no force is dropped',
    '''
from arboris.core import World
from arboris.robots.simplearm import add_simplearm
from arboris.controllers import ProportionalDerivativeController
w = World(); add_simplearm(w)
w.register(ProportionalDerivativeController(w.getjoints(), kd=np.eye(3)))
w.init(); w.update_dynamic(); w.update_controllers(.1)
Z = np.linalg.inv(w.admittance)
assert np.allclose(Z, w.mass / .1 + w.viscosity + w.nleffects + np.eye(3)), Z
''')
bug('c18-reinit', 'C18', 'controllers.py',
    "        self._bodies = [x for x in world.ground.iter_descendant_bodies() \\\n"
    "                        if norm(x.mass>0.)]\n",
    "        if not self._bodies:\n"
    "            self._bodies = [x for x in world.ground.iter_descendant_bodies() \\\n"
    "                            if norm(x.mass>0.)]\n",
    'a body added between two initializations', 'bodies added later have no weight',
    '''
from arboris.core import World, Body
from arboris.joints import TyJoint
from arboris.controllers import WeightController
w = World(); a, b = Body(mass=np.eye(6)), Body(mass=2*np.eye(6))
w.add_link(w.ground, TyJoint(), a)
w.register(WeightController())
w.init()
w.add_link(w.ground, TyJoint(), b)
w.init(); w.update_dynamic(); w.update_controllers(.1)
assert np.allclose(w.gforce, [-9.81, -2 * 9.81]), w.gforce
''')
bug('c19-dofmap', 'C19', 'controllers.py',
    "        impedance[ix_(self._dof_map, self._dof_map)] = -(dt*self.kp+self.kd)\n",
    "        dofs = sorted(self._dof_map)\n"
    "        impedance[ix_(dofs, dofs)] = -(dt*self.kp+self.kd)\n",
    'joints given in another order than the one of the world, with different gains',
    'the gains are applied to the wrong joints in the impedance',
    '''
from arboris.core import World
from arboris.robots.simplearm import add_simplearm
from arboris.controllers import ProportionalDerivativeController
w = World(); add_simplearm(w)
j = w.getjoints()
c = ProportionalDerivativeController([j[2], j[0]], kd=np.diag([1., 5.]))
c.init(w)
Z = c.update(.1)[1]
assert np.allclose(Z, -np.diag([5., 0., 1.])), Z
''')
bug('c20-gvel-order', 'C20', 'core.py',
    "        for j in self.iterjoints():\n            j.integrate(self._gvel[j.dof], dt)\n        self._current_time += dt\n",
    "        for j in self.iterjoints():\n            if j.gvel.any() or self._gvel.any():\n"
    "                j.integrate(self._gvel[0:j.ndof] if len(self._gvel) == j.ndof else self._gvel[j.dof], dt)\n"
    "        if self._gvel.any():\n            self._current_time += dt\n",
    'a world that does not move', 'the clock stops when nothing moves',
    '''
from arboris.core import World
from arboris.robots.simplearm import add_simplearm
w = World(); add_simplearm(w)
w.init(); w.update_dynamic(); w.update_controllers(.1); w.integrate(.1)
assert abs(w.current_time - .1) < 1e-12
''')
bug('c21-gforce-twice', 'C21', 'core.py',
    "        for c in constraints:\n            self._gforce += c.gforce\n\n    def integrate",
    "        for c in constraints:\n            self._gforce = gforce + c.gforce if c is constraints[-1] and k > 1 else self._gforce + c.gforce\n\n    def integrate",
    'a solver that needs more than two sweeps with a warm start',
    'the force of the other constraints is the one from before the sweeps',
    '''
from arboris.core import World, Body, Constraint
from arboris.joints import TxJoint
class C(Constraint):
    """Gauss-Seidel with two coupled coordinates."""
    def __init__(self, J):
        Constraint.__init__(self)
        self.J = np.array([J]); self._force = np.zeros(1)
    ndol = 1
    jacobian = property(lambda s: s.J)
    def init(self, world): pass
    def update(self, dt): pass
    def is_active(self): return True
    def solve(self, vel, admittance, dt):
        d = -vel / admittance[0, 0]
        self._force = self._force + d
        return d
w = World()
a, b = Body(mass=np.eye(6)), Body(mass=np.eye(6))
w.add_link(w.ground, TxJoint(gvel=[1.]), a)
w.add_link(w.ground, TxJoint(gvel=[2.]), b)
cs = [C([1., .4]), C([.3, 1.])]
for c in cs: w.register(c)
w.init(); w.update_dynamic(); w.update_controllers(.1)
w.update_constraints(.1)
want = sum(c.gforce for c in cs)
assert np.allclose(w.gforce, want), (w.gforce, want)
''')
bug('c22-limits-prox', 'C22', 'constraints.py',
    "        return (self._pos0-self._min<self._proximity).any() or \\\n"
    "               (self._max-self._pos0<self._proximity).any()\n",
    "        return (self._pos0-self._min<self._proximity).all() or \\\n"
    "               (self._max-self._pos0<self._proximity).any()\n",
    'a joint with two degrees of freedom, one of which only is near its lower bound',
    'the limits of the joint are ignored unless all its degrees of freedom are at their lower bound',
    '''
from arboris.core import World, Body
from arboris.joints import RzRyJoint
from arboris.constraints import JointLimits
w = World(); b = Body(mass=np.eye(6)); j = RzRyJoint(gpos=[-1., 0.], gvel=[-1., 0.])
w.add_link(w.ground, j, b)
c = JointLimits(j, [-1., -1.], [1., 1.])
w.register(c)
w.init(); w.update_dynamic(); w.update_controllers(.1); w.update_constraints(.1); w.integrate(.1)
assert j.gpos[0] >= -1 - 1e-9, j.gpos
''')
bug('c23-ball-accumulate', 'C23', 'constraints.py',
    "        dforce = -dot(pinv(admittance), vel + self._pos0/dt)\n        self._force += dforce\n        return dforce\n\n\nclass PointContact",
    "        dforce = -dot(pinv(admittance), vel + self._pos0/max(dt, 1e-3))\n        self._force += dforce\n        return dforce\n\n\nclass PointContact",
    'time steps under a millisecond with a position gap',
    'the position gap is not cancelled within the step',
    '''
from arboris.constraints import BallAndSocketConstraint
from arboris.core import World
c = BallAndSocketConstraint(frames=(World().ground, World().ground))
c._pos0 = np.array([.1, .2, .3])
dt = 1e-4
v = np.array([1., 2., 3.]); Y = np.diag([1., 2., 3.])
d = c.solve(v, Y, dt)
assert np.allclose(c._pos0 + dt * (v + np.dot(Y, d)), 0), d
''')
bug('c24-active', 'C24', 'constraints.py',
    "        self._is_active = (sdist + dsdist*dt < self._proximity)\n",
    "        self._is_active = (sdist + min(dsdist, 0.)*dt < self._proximity)\n",
    'surfaces that separate fast from less than the proximity',
    'a contact that opens within the step is kept active',
    '''
from arboris.core import World, Body
from arboris.joints import TyJoint
from arboris.shapes import Sphere, Plane
from arboris.constraints import SoftFingerContact
w = World(); b = Body(mass=np.eye(6))
w.add_link(w.ground, TyJoint(gpos=[1.01], gvel=[10.]), b)
p, s = Plane(w.ground), Sphere(b, 1.)
c = SoftFingerContact((p, s), 1.)
w.register(c); w.init(); w.update_dynamic()
c.update(.1)
assert not c.is_active()
''')
bug('c25-cone', 'C25', 'constraints.py',
    "            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:\n",
    "            if sum((force[1:3]/self._eps[1:3])**2) <= (force[3]*self._mu)**2:\n",
    'a sticking contact with a torsion torque over the friction',
    'the spin torque is left out of the friction cone',
    '''
from arboris.constraints import SoftFingerContact
from arboris.shapes import Sphere
from arboris.core import World
w = World()
c = SoftFingerContact((Sphere(w.ground), Sphere(w.ground)), .5)
c._sdist = 0.
c.solve(np.array([5., 0., 0., -1.]), np.eye(4), .01)
f = c._force
assert norm(f[0:3]) <= .5 * f[3] * (1 + 1e-6), f
''')
bug('c26-inside', 'C26', 'collisions.py',
    "    H_gc1[0:3, 3] += sdist*z\n    return (sdist, H_gc0, H_gc1)\n",
    "    H_gc1[0:3, 3] += max(sdist, -radius0)*z\n    return (sdist, H_gc0, H_gc1)\n",
    'deeply overlapping spheres', 'contact point of the second sphere off the sphere',
    '''
from arboris.collisions import _sphere_sphere_collision as f
d, a, b = f(np.zeros(3), 1., np.array([0., .5, 0.]), 1.)
assert np.allclose(norm(b[0:3, 3] - [0., .5, 0.]), 1.), b
''')
bug('c27-argmin', 'C27', 'collisions.py',
    "        near_face[3:6] = half_extents0 + p_01\n",
    "        near_face[3:6] = half_extents0 + abs(p_01)\n",
    'a center inside the box, close to a face on the negative side',
    'the nearest face is never one of the negative side',
    '''
from arboris.collisions import _box_sphere_collision as f
d, a, b = f(np.eye(4), np.array([1., 2., 3.]), np.array([-.9, 0., 0.]), .5)
assert abs(d + .6) < 1e-9, d
''')
bug('c28-offset', 'C28', 'collisions.py',
    "    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3] # signed distance from the center\n",
    "    csdist = dot(normal, p_g1 - H_g0[0:3, 3]) - abs(coeffs0[3]) # signed distance from the center\n",
    'a plane with a negative offset', 'distance to planes with a negative offset',
    '''
from arboris.collisions import _plane_sphere_collision as f
d, a, b = f(np.eye(4), np.array([0., 1., 0., -2.]), np.array([0., 1., 0.]), .5)
assert abs(d - 2.5) < 1e-9, d
''')
bug('c29-pairs', 'C29', 'constraints.py',
    "            if s0.frame.body is s1.frame.body:\n",
    "            if s0.frame.body is s1.frame.body or \\\n"
    "                    s0.frame.body.parentjoint is s1.frame.body.parentjoint is None or \\\n"
    "                    (s0.frame.body.parentjoint is not None and\n"
    "                     s0.frame.body.parentjoint.frame0.body is s1.frame.body is not world.ground and\n"
    "                     s1.frame.body.parentjoint.ndof == 6):\n",
    'shapes on a body and on its free floating parent, child first',
    'contacts between a free body and its child are forgotten',
    '''
from arboris.core import World, Body
from arboris.joints import FreeJoint, RzJoint
from arboris.shapes import Sphere
from arboris.constraints import get_all_contacts
w = World(); a, b = Body(), Body()
w.add_link(w.ground, FreeJoint(), a, a, RzJoint(), b)
w.register(Sphere(b)); w.register(Sphere(a))
assert len(get_all_contacts(w, friction_coeff=1.)) == 1
''')
bug('c30-keep-gvel', 'C30', 'core.py',
    "            self._gvel[j.dof] = j.gvel[:]\n            j.gvel = self._gvel[j.dof]\n",
    "            self._gvel[j.dof] = j.gvel[:]\n            if j.ndof != 6:\n                j.gvel = self._gvel[j.dof]\n",
    'a free joint whose velocity is changed in place after init',
    'the velocity of free joints is no longer the one of the world',
    '''
from arboris.core import World, Body
from arboris.joints import FreeJoint
w = World(); j = FreeJoint()
w.add_link(w.ground, j, Body(mass=np.eye(6))); w.init()
j.gvel[:] = 1.
assert np.allclose(w.gvel, 1.), w.gvel
''')
bug('c31-replace', 'C31', 'core.py',
    "            body0.childrenjoints[i] = body0.childrenjoints.pop()\n",
    "            body0.childrenjoints.remove(old_joint)\n",
    'replacing the first joint of a body that has several',
    'the branch moves to the end', '''
from arboris.core import World, Body
from arboris.joints import RzJoint, RxJoint
w = World(); a, b = Body('a'), Body('b'); j = RzJoint()
w.add_link(w.ground, j, a, w.ground, RzJoint(), b)
w.replace_joint(j, RxJoint())
assert [x.name for x in w.iterbodies()] == ['ground', 'a', 'b']
''')
bug('c32-moving', 'C32', 'core.py',
    "            return dot(Hg.iadjoint(self._bpose), self._body.djacobian)\n",
    "            return dot(Hg.adjoint(self._bpose.T if not self._bpose[0:3, 3].any() else\n"
    "                Hg.inv(self._bpose)), self._body.djacobian) * (self._body.twist.any() or 1)\n"
    "            # we assume self._bpose is constant\n",
    'x', 'x', 'assert 0')
BUGS.pop()
bug('c33-find', 'C33', 'core.py',
    "                    result[obj.name] = obj\n                else:\n",
    "                    result[obj.name] = obj\n                elif result[obj.name] is not obj:\n",
    'the same object twice in a list', 'a duplicated name is not refused',
    '''
from arboris.core import NamedObjectsList, Body, DuplicateNameError
b = Body('a')
try:
    NamedObjectsList([b, b]).as_dict()
except DuplicateNameError:
    pass
else:
    assert 0, 'duplicate accepted'
''')
bug('c34-dt', 'C34', 'core.py',
    "    for next_time in timeline[1:]:\n        dt = next_time - world.current_time\n",
    "    dt = timeline[1] - timeline[0] if len(timeline) > 1 else 0\n"
    "    for next_time in timeline[1:]:\n"
    "        dt = next_time - world.current_time if abs(next_time - world.current_time - dt) > 1e-2*dt else dt\n",
    'a timeline whose steps are almost even', 'the clock drifts from the given instants',
    '''
from arboris.core import World, simulate
from arboris.robots.simplearm import add_simplearm
w = World(); add_simplearm(w)
t = [0., .1, .2005, .3005]
simulate(w, t)
assert abs(w.current_time - t[-1]) < 1e-9, w.current_time
''')
bug('c35-potential', 'C35', 'observers.py',
    "            Ep += body.mass[3, 3] * h\n", "            Ep += body.mass[3, 3] * abs(h)\n",
    'a body below the ground origin', 'potential energy of bodies below the origin',
    '''
from arboris.core import World, Body
from arboris.joints import TyJoint
from arboris.observers import EnergyMonitor
w = World(); b = Body(mass=np.eye(6))
w.add_link(w.ground, TyJoint(gpos=[-1.]), b); w.init(); w.update_dynamic()
o = EnergyMonitor(); o.init(w, [0, 1]); o.update(.1)
assert abs(o.potential_energy[0] + 9.81) < 1e-9, o.potential_energy
''')
bug('c37-alias', 'C37', 'observers.py',
    "        self.save_data(self.joint.gpos.copy())\n", "        self.save_data(self.joint.gpos)\n",
    'a record read after further steps', 'recorded positions change afterwards',
    '''
from arboris.core import World, simulate
from arboris.robots.simplearm import add_simplearm
from arboris.observers import RecordJointGpos
w = World(); add_simplearm(w)
j = w.getjoints()[0]
j.gvel[:] = 1.
o = RecordJointGpos(j)
simulate(w, [0., .1, .2, .3], [o])
r = o.get_record()
assert r[0][0] == 0. and r[1][0] != r[2][0], r
''')
bug('c38-snake', 'C38', 'robots/snake.py',
    "        frame = SubFrame(body, transl(0., length, 0.))\n",
    "        frame = SubFrame(body, transl(0., lengths[0], 0.))\n",
    'a snake with links of different lengths', 'the links are not chained end to end',
    '''
from arboris.core import World
from arboris.robots.snake import add_snake
w = World(); add_snake(w, 3, lengths=[.1, .2, .3])
w.update_geometric()
f = list(w.itersubframes())[-1]
assert abs(f.pose[1, 3] - .6) < 1e-9, f.pose
''')
bug('c39-heel', 'C39', 'robots/human36.py',
    "    xheel = 0.0248 * height\n", "    xheel = 0.0248 * max(height, 1.2)\n",
    'a child smaller than 1.2 m', 'the heel does not scale with the height',
    '''
from arboris.robots.human36 import anat_lengths_from_height as f
assert abs(f(1.)['xheelR'] * 2 - f(2.)['xheelR']) < 1e-9
''')
bug('c40-thigh', 'C40', 'robots/icub.py',
    "                  [(.077,.0315)      , .79206, dot(transl(0, 0, .224), roty(pi/2))]],\n",
    "                  [(.077,.0315)      , .79206, dot(transl(0, 0, .224), rotx(pi/2))]],\n",
    'looking at the inertia of the right thigh', 'the right thigh is not the mirror of the left one',
    '''
from arboris.core import World
from arboris.robots import icub
w = World(); icub.add(w)
b = w.getbodies()
assert np.allclose(np.diag(b['l_thigh'].mass), np.diag(b['r_thigh'].mass))
''')
bug('c41-shapes', 'C41', 'core.py',
    "                for s in self._shapes:\n                    if frame is s.frame:\n                        target.register(s)\n",
    "                for s in self._shapes:\n                    if frame is s.frame and not s in registered:\n"
    "                        target.register(s)\n                        registered.update(x for x in self._shapes if x.name == s.name and x.name)\n",
    'two shapes of the same name', 'the second one is not visited',
    '''
from arboris.core import World, Body
from arboris.joints import RzJoint
from arboris.shapes import Sphere, Point
w = World(); b = Body('b')
w.add_link(w.ground, RzJoint(), b)
w.register(Sphere(b, name='s')); w.register(Point(w.ground, name='s'))
class V(object):
    seen = []
    def init_parse(self, *a): pass
    def add_link(self, *a): pass
    def register(self, o): self.seen.append(o)
v = V(); w.parse(v)
assert len([s for s in w.itershapes() if s in v.seen]) == 2
''')
bug('c42-subframe', 'C42', 'visu/world_drawer.py',
    "                bd1_node = self._add_frame(f1_node,\n                        inv(f1.bpose), True, bd1.name,\n",
    "                bd1_node = self._add_frame(f1_node,\n                        inv(f1.bpose) if f1.bpose[0:3, 0:3].trace() != 3 else f1.bpose, True, bd1.name,\n",
    'a joint attached to a translated frame of the child, hierarchical drawing',
    'the body is drawn at the wrong place',
    '''
import importlib.util, os, arboris.core, arboris.shapes
s = importlib.util.spec_from_file_location('wd', os.path.join(os.getcwd(), 'arboris/visu/world_drawer.py'))
wd = importlib.util.module_from_spec(s); s.loader.exec_module(wd)
from arboris.core import World, Body, SubFrame
from arboris.joints import RzJoint
import arboris.homogeneousmatrix as Hg
class N(object): pass
class D(wd.DrawerDriver):
    def n(self, H):
        n = N(); n.H = H; n.p = None; return n
    def add_ground(self, up): return self.n(np.eye(4))
    def create_transform(self, pose, c, name=None): return self.n(pose)
    def create_frame_arrows(self): return self.n(None)
    def create_line(self, *a): return self.n(None)
    def create_inertia(self, *a): return self.n(None)
    def add_child(self, p, c, k=None): c.p = p
w = World(); b = Body('b')
w.add_link(w.ground, RzJoint(gpos=[.4]), SubFrame(b, Hg.transl(1., 0., 0.), 'f'))
w.init(); w.update_geometric()
d = wd.Drawer(D()); w.parse(d)
n = d.frame_nodes[b]; H = np.eye(4)
while n is not None:
    H = np.dot(n.H, H); n = n.p
assert np.allclose(H, b.pose), (H, b.pose)
''')
