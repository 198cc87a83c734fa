"""Structure: a new module, moved code, base classes, typing, explicit stacks, properties made of
functions, decorators, closures, named tuples."""
FILES = {
 '_tools.py': '''
"""Small helpers shared by the modules."""
from __future__ import annotations
import functools
from typing import Iterable, NamedTuple
import numpy as np


class Pair(NamedTuple):
    first: object
    second: object


def skew(v: np.ndarray) -> np.ndarray:
    """Matrix of the cross product by v."""
    x, y, z = v
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def congruence(A: np.ndarray, M: np.ndarray) -> np.ndarray:
    return A.T @ M @ A


def up_to_date(what, call):
    """Tell what to run when a value is missing."""
    def decorate(f):
        @functools.wraps(f)
        def g(self):
            try:
                return f(self)
            except TypeError as e:
                raise TypeError("%s is not up to date, run world.%s() first." % (what, call)) from e
        return g
    return decorate


def add_once(items: list, obj) -> bool:
    if any(x is obj for x in items):
        return False
    items.append(obj)
    return True


def flatten(seqs: Iterable) -> list:
    return [x for s in seqs for x in s]
'''}
EDITS = [
 ('core.py', None, ('import arboris.homogeneousmatrix as Hg\n',
                    'import arboris.homogeneousmatrix as Hg\n'
                    'from arboris import _tools\nfrom arboris._tools import skew, congruence, up_to_date\n')),
 ('core.py', 'NamedObjectsList.find', '''
    def _named(self, name):
        yield from (obj for obj in self
                    if isinstance(obj, NamedObject) and obj.name == name)

    def find(self, name):
        return list(self._named(name))
 '''),
 ('core.py', 'NamedObjectsList.__getitem__', '''
    def __getitem__(self, index):
        if not isinstance(index, str):
            return super().__getitem__(index)
        for obj in self._named(index):
            return obj
        raise KeyError(f'No object named "{index}".')
 '''),
 ('core.py', 'JointsList._init_dof', '''
    def _init_dof(self):
        slices = [j.dof for j in self if isinstance(j, Joint)]
        start = stop = 0
        for s in slices:
            assert s.step in (None, 1)
            if s.start != stop:
                self._dof = _tools.flatten([range(0, 0)] + [range(t.start, t.stop) for t in slices])
                return
            stop = s.stop
        self._dof = slice(start, stop)
 '''),
 ('core.py', 'World.register', '''
    def register(self, obj):
        if isinstance(obj, Body):
            return
        if isinstance(obj, Joint):
            raise ValueError("Joints should not be registered. Use add_link() instead.")
        kinds = ((_SubFrame, self._subframes), (Shape, self._shapes),
                 (Constraint, self._constraints), (Controller, self._controllers))
        for kind, items in kinds:
            if isinstance(obj, kind):
                new = _tools.add_once(items, obj)
                break
        else:
            raise ValueError(f"I do not know how to register objects of type {type(obj)}")
        if kind is Shape:
            self.register(obj.frame)
        elif kind is Constraint and new:
            for child in obj._child_obj_to_reg:
                self.register(child)
 '''),
 ('core.py', '_SubFrame.pose', '''
    @property
    @up_to_date('pose', 'update_geometric')
    def pose(self):
        return dot(self._body.pose, self._bpose)

    def _seen_from_here(self, x):
        return dot(Hg.iadjoint(self._bpose), x)
 '''),
 ('core.py', '_SubFrame.twist', '''
    @property
    @up_to_date('twist', 'update_dynamic')
    def twist(self):
        return self._seen_from_here(self._body.twist)
 '''),
 ('core.py', '_SubFrame.jacobian', '''
    @property
    @up_to_date('jacobian', 'update_dynamic')
    def jacobian(self):
        return self._seen_from_here(self._body.jacobian)
 '''),
 ('core.py', '_SubFrame.djacobian', '''
    @property
    @up_to_date('djacobian', 'update_dynamic')
    def djacobian(self):
        return self._seen_from_here(self._body.djacobian)
 '''),
 ('core.py', 'Body.iter_descendant_bodies', '''
    def iter_descendant_bodies(self):
        for j in self.iter_descendant_joints():
            yield j.frame1.body
 '''),
 ('core.py', 'Body.iter_descendant_joints', '''
    def iter_descendant_joints(self):
        stack = list(reversed(self.childrenjoints))
        while stack:
            j = stack.pop()
            yield j
            stack.extend(reversed(j.frame1.body.childrenjoints))
 '''),
 ('core.py', 'Body.iter_ancestor_joints', '''
    def iter_ancestor_joints(self):
        joint = self.parentjoint
        while joint is not None:
            yield joint
            joint = joint.frame0.body.parentjoint
 '''),
 ('core.py', 'Body.iter_ancestor_bodies', '''
    def iter_ancestor_bodies(self):
        return (j.frame0.body for j in self.iter_ancestor_joints())
 '''),
 ('core.py', 'Body.update_geometric', '''
    def update_geometric(self, pose):
        todo = [(self, pose)]
        while todo:
            body, H = todo.pop()
            body._pose = H
            todo.extend((j.frame1.body, dot(H, j._link_pose())) for j in body.childrenjoints)
 '''),
 ('core.py', 'Joint.frames', '''
    def _link_pose(self):
        """Pose of the child body in the parent body."""
        return dot(self._frame0.bpose, dot(self.pose, Hg.inv(self._frame1.bpose)))

    @property
    def frames(self):
        return _tools.Pair(self._frame0, self._frame1)
 '''),
 ('core.py', 'Body.update_dynamic', '''
    def _gyroscopic(self):
        wx = skew(self._twist[0:3])
        m = self.mass[5, 5]
        rx = self.mass[0:3, 3:6]/m if m > 1e-10 else zeros((3, 3))
        N = numpy.block([[wx, dot(rx, wx) - dot(wx, rx)], [zeros((3, 3)), wx]])
        return dot(N, self.mass)

    def update_dynamic(self, pose, jac, djac, twist):
        self._pose, self._jacobian, self._djacobian, self._twist = pose, jac, djac, twist
        self._nleffects = self._gyroscopic()
        for j in self.childrenjoints:
            H_pc = j._link_pose()
            Ad_cp = Hg.iadjoint(H_pc)
            Ad_cn = Hg.adjoint(j.frame1.bpose)
            dAd_cp = dot(Ad_cn, dot(j.idadjoint, Hg.iadjoint(j.frame0.bpose)))
            J, dJ = dot(Ad_cp, jac), dot(dAd_cp, jac) + dot(Ad_cp, djac)
            J[:, j.dof] += dot(Ad_cn, j.jacobian)
            dJ[:, j.dof] += dot(Ad_cn, j.djacobian)
            j.frame1.body.update_dynamic(
                dot(pose, H_pc), J, dJ, dot(Ad_cp, twist) + dot(Ad_cn, j.twist))
 '''),
 ('core.py', 'World.update_dynamic', '''
    def update_dynamic(self):
        n = self._ndof
        self.ground.update_dynamic(eye(4), zeros((6, n)), zeros((6, n)), zeros(6))
        totals = (self._mass, self._viscosity, self._nleffects)
        for total in totals:
            total.fill(0.)
        for b in self.ground.iter_descendant_bodies():
            J = b.jacobian
            parts = (congruence(J, b.mass), congruence(J, b.viscosity),
                     J.T @ (b.mass @ b.djacobian + b.nleffects @ J))
            for total, part in zip(totals, parts):
                total += part
 '''),
 ('core.py', 'simulate', '''
class _Stages:
    """The stages of a run, in their order."""

    def __init__(self, world, observers):
        self.world = world
        self.observers = list(observers)

    def start(self, timeline):
        self.world._current_time = timeline[0]
        self.world.init()
        for obs in self.observers:
            obs.init(self.world, timeline)

    def step(self, until):
        w = self.world
        dt = until - w.current_time
        for stage in (w.update_dynamic, lambda: w.update_controllers(dt),
                      lambda: w.update_constraints(dt)):
            stage()
        for obs in self.observers:
            obs.update(dt)
        w.integrate(dt)

    def end(self):
        for obs in self.observers:
            obs.finish()


def simulate(world, timeline, observers=()):
    if isinstance(observers, dict):
        observers = observers.values()
    if world.current_time != timeline[0]:
        warnings.warn('world.current_time != timeline[0]: '
                      'may become a problem if any conditions depend on world.current_time')
    run = _Stages(world, observers)
    run.start(timeline)
    for t in timeline[1:]:
        run.step(t)
    run.end()
 '''),
 ('controllers.py', 'WeightController.init', '''
    def init(self, world):
        assert isinstance(world, World)
        self._bodies = list(filter(lambda b: (b.mass > 0.).any(),
                                   world.ground.iter_descendant_bodies()))
        self._wndof = n = world.ndof
        self._gravity_dtwist = concatenate((zeros(3), self.gravity*world.up))
        self._impedance = zeros((n, n))
 '''),
 ('controllers.py', None, ('from numpy        import array, zeros, dot, ix_\n',
                           'from numpy        import array, concatenate, zeros, dot, ix_\n')),
 ('controllers.py', 'WeightController.update', '''
    def _pull(self, body):
        """Generalized force of the weight of a body."""
        weight = dot(body.mass, dot(Hg.iadjoint(body.pose), self._gravity_dtwist))
        return dot(body.jacobian.T, weight)

    def update(self, dt=None):
        return (sum(map(self._pull, self._bodies), zeros(self._wndof)), self._impedance)
 '''),
 ('observers.py', 'RecordJointGpos', '''
class _Copying(_Recorder):
    """Records a copy of an attribute of an object."""
    _what = None

    def _source(self):
        raise NotImplementedError

    def update(self, dt):
        self.save_data(getattr(self._source(), self._what).copy())


class RecordJointGpos(_Copying):
    _what = 'gpos'

    def __init__(self, joint, name=None):
        super().__init__(name)
        self.joint = joint

    def _source(self):
        return self.joint
 '''),
 ('observers.py', 'RecordJointGvel', '''
class RecordJointGvel(RecordJointGpos):
    _what = 'gvel'
 '''),
 ('observers.py', 'RecordFramePose', '''
class RecordFramePose(_Copying):
    _what = 'pose'

    def __init__(self, frame, name=None):
        super().__init__(name)
        self.frame = frame

    def _source(self):
        return self.frame
 '''),
 ('observers.py', 'RecordFrameTwist', '''
class RecordFrameTwist(RecordFramePose):
    _what = 'twist'
 '''),
 ('constraints.py', 'get_all_contacts', '''
def get_all_contacts(world, contact_class=None, **args):
    from itertools import combinations
    from contextlib import suppress
    assert isinstance(world, World)
    if contact_class is None:
        contact_class = SoftFingerContact
    assert issubclass(contact_class, PointContact)
    contacts = []
    for pair in combinations(world.itershapes(), 2):
        if pair[0].frame.body is pair[1].frame.body:
            continue
        with suppress(NotImplementedError):
            contacts.append(contact_class(pair, **args))
    return contacts
 '''),
]
