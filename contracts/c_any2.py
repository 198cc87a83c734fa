"""Lists, timelines, trees and recordings of any length: contracts discharged by the loop rule."""
import types
from pvc.poke import poke, peek
from pvc.run import contract
from pvc.loops import Abstract, Growing, LongList, Part, Vague, Store, Vast, View, same, whole
from c_build import logged_world
from c_any import replace_list


# ------------------------------------------------------------------------ C33
def things(C, names):
    """Any number of named, unnamed and foreign objects."""
    core = C.mod('core')

    def make(tag):
        k = C.choice('name_' + tag, names)
        return 4.5 if k == 'foreign' else core.NamedObject(k)
    objs = C.any_number('objects', make, private=True)
    seq = objs.seq()
    seq.like = core.NamedObjectsList
    return core, objs, seq


def is_named(core, o, name):
    return isinstance(o, core.NamedObject) and o.name == name


NAMES = ('a', 'b', '', None, 'foreign')


@contract('C33', 'any_find', loops=True)
def any_find(C):
    core, objs, seq = things(C, NAMES)
    name = C.choice('wanted', ('a', '', 'c'))
    r = seq.find(name)
    one, many = is_named(core, objs.first, name), is_named(core, objs.x, name)
    C.true('all of a name, in order', [x is objs.first for x in getattr(r, 'pre', r)] ==
           [True] * one and [x is objs.x for x in getattr(r, 'gen', [])] == [True] * many)


@contract('C33', 'any_item', loops=True)
def any_item(C):
    core, objs, seq = things(C, NAMES)
    name = C.choice('wanted', ('a', '', 'c'))
    get = core.NamedObjectsList.__getitem__
    if is_named(core, objs.first, name):
        C.true('first of a name', get(seq, name) is objs.first)
    elif is_named(core, objs.x, name):
        # none before it has the name, or the loop would have ended there
        C.true('first of a name', get(seq, name) is objs.x and objs.left)
    else:
        C.raises('missing name', KeyError, lambda: get(seq, name))
        C.true('the whole list is searched', not objs.left)


@contract('C33', 'any_dictionary', loops=True)
def any_dictionary(C):
    core, objs, seq = things(C, NAMES)
    a, x = [getattr(o, 'name', None) for o in (objs.first, objs.x)]
    try:
        d = seq.as_dict()
    except core.DuplicateNameError:
        C.true('duplicates only', x is not None and (x == a or (x, True) in objs.guess))
        return
    C.true('no duplicate', (x is None or x != a) and not any([r for _, r in objs.guess]))
    want = [(o.name, o) for o in (objs.first, objs.x) if getattr(o, 'name', None) is not None]
    got = list(d.vals) if isinstance(d, Abstract) else list(d.items())
    C.true('dictionary', sorted([k for k, _ in got]) == sorted([k for k, _ in want]) and
           all([dict(got)[k] is o for k, o in want]))


@contract('C33', 'any_naming', loops=True)
def any_naming(C):
    core, objs, seq = things(C, ('a', '', None))
    old = [objs.first.name, objs.x.name]
    core.name_all_elements(seq)
    for o, k in zip((objs.first, objs.x), old):
        if k is not None:
            C.true('names are kept', o.name == k)
        else:
            C.true('a name of its own', isinstance(o.name, str) and str(id(o)) in o.name)


# ------------------------------------------------------------------------ C30
@contract('C30', 'any_joints', loops=True)
def any_joints(C):
    """Any number of joints of any size: contiguous ranges in the order of the walk, and
    velocities that are views of the velocity of the world."""
    core = C.mod('core')
    w = core.World()
    ended = []

    class Given(object):
        """The velocities of a joint before the initialization."""
        def __getitem__(self, i):
            if not whole(i):
                raise AssertionError('part of the velocities of a joint')
            return self

        def copy(self):
            return self

    class AnyJoint(core.Joint):
        def __init__(self, tag):
            core.Joint.__init__(self)
            self.n = C.real('ndof_' + tag, 0)
            self.gvel = self.given = Given()

        ndof = property(lambda self: self.n)
        jacobian = djacobian = pose = ipose = twist = None

        def integrate(self, gvel, dt):
            pass

    def check(j):
        d = j._dof
        C.true('contiguous range', isinstance(d, slice) and d.step in (None, 1))
        C.eq('size of the range', d.stop - d.start, j.n)
        return d

    def end(tag):
        # the numbering: each joint starts where the one before ended
        j = js.first if tag == 'first' else js.x
        if isinstance(j.gvel, Given) and tag != 'dry':
            d = check(j)
            C.eq('numbering', w.ndof, d.stop)
            if tag == 'first':
                C.eq('first range', d.start, 0)
            ended.append(tag)
    js = C.any_number('joints', AnyJoint, end, private=True)
    w.iterjoints = js.seq
    w.ground.iter_descendant_joints = js.seq
    log = []

    def parts(cls, what):
        class Any(cls):
            def init(self, world):
                log.append((what, self, world is w))

            def update(self, dt):
                pass

        def end(tag):
            C.true('each is initialized once', len(log) == 1 and log[0][2] and
                   log[0][1] is (base.first if tag == 'first' else base.x))
            done.append((what, tag))
            del log[:]
        base = C.any_number(what, lambda tag: Any(), end)
        w.register(base.first)
        replace_list(w, base.first, base.seq())
        return base
    done = []
    parts(core.Constraint, 'constraints')
    parts(core.Controller, 'controllers')
    w.init()
    C.true('numbered', ended == ['first', 'step'])
    n = js.total(lambda j: j.n)
    C.eq('number of degrees of freedom', w.ndof, n)
    d = vars(w)
    vel = peek(w, 'gvel')
    C.true('sizes', isinstance(vel, Vast) and len(vel.shape) == 1)
    C.eq('size of the velocity', vel.shape[0], n)
    for k in ('mass', 'viscosity', 'nleffects', 'gforce'):
        a = peek(w, k)
        C.true('sizes', isinstance(a, Vast) and a is not vel and
               len(a.shape) == (1 if k == 'gforce' else 2))
        for s in a.shape:
            C.eq('size of the matrices', s, n)
    wr = vel.writes
    C.true('velocities are kept', isinstance(wr, Abstract) and len(wr.pre) == len(wr.gen) == 1)
    for j, (i, v) in ((js.first, wr.pre[0]), (js.x, wr.gen[0])):
        r = check(j)
        C.true('velocity of the joint is a view', isinstance(j.gvel, View) and
               j.gvel.covers(vel, r.start, r.stop))
        C.true('velocity of the joint is kept', v is j.given and same(i.start, r.start) and
               same(i.stop, r.stop))
    C.true('parts initialized', sorted(set(done)) == sorted(
        [(x, t) for x in ('constraints', 'controllers') for t in ('first', 'dry', 'step')]))
    del d


# ------------------------------------------------------------------------ C34
@contract('C34', 'any_observers', loops=True)
def any_observers(C):
    """Any instants and any number of observers."""
    core = C.mod('core')
    log, events = [], []
    w = logged_world(C, log, C.real('start'))
    t0 = C.real('t0')
    times = C.any_number('instants', lambda tag: C.real('t_' + tag), lambda tag: step(tag))

    class Timeline(object):
        def __getitem__(self, i):
            if not isinstance(i, slice) and i == 0:
                return t0
            if isinstance(i, slice) and (i.start, i.stop, i.step) == (1, None, None):
                return times.seq()
            raise AssertionError('another form')
    tl = Timeline()

    class AnyObserver(core.Observer):
        def __init__(self):
            pass

        def init(self, world, timeline):
            seen.append(('init', self, world is w and timeline is tl))

        def update(self, dt):
            seen.append(('update', self, dt))

        def finish(self):
            seen.append(('finish', self, True))
    seen = []

    def each(tag):
        C.true('each observer is called once', len(seen) == 1 and
               seen[0][1] is (obs.first if tag == 'first' else obs.x))
        log.append((seen[0][0] + ' ' + tag, seen[0][2]))
        del seen[:]
    obs = C.any_number('observers', lambda tag: AnyObserver(), each)
    UPD = ['update first', 'update dry', 'update step']

    def step(tag):
        if not events:
            C.true('initialization', [x[0] for x in log[:4]] == [
                'init', 'init first', 'init dry', 'init step'] and
                all([x[1] for x in log[1:4]]))
            C.eq('clock at the initialization', log[0][1], t0)
            del log[:4]
        events.append(tag)
        C.true('stages of a step', [x[0] for x in log] == [
            'dynamic', 'controllers', 'constraints'] + UPD + ['integrate'])
        now = log[0][1]
        nxt = times.first if tag == 'first' else times.x
        if tag == 'first':
            C.eq('clock of the first step', now, t0)
        for x in log[1:]:
            C.eq('step', x[1], nxt - now)
        C.eq('clock after a step', w.current_time, nxt)
        del log[:]
    given = obs.seq()
    core.simulate(w, tl, given)
    C.true('steps', events == ['first', 'dry', 'step'] and not seen)
    C.true('end', [x[0] for x in log] == ['finish first', 'finish dry', 'finish step'])


# ------------------------------------------------------------------------ C41
def walk(what):
    """Structural induction: a body with any number of children, each with any number of
    descendants."""
    def body(C):
        core = C.mod('core')
        w = core.World()
        parent = w.ground
        out = []
        below = {}

        def leaf(b):
            """any descendants of the child b, in the order the same walk gives them"""
            def inside(tag):
                d = below[b]
                k = d.first if tag == 'first' else d.x
                C.true('each descendant once', len(out) == 1 and out[0] is k)
                del out[:]
                seen.append('inside ' + tag)
            return C.any_number('below %s' % b.name, lambda tag: object(), inside, yields=True)

        class J(core.Joint):
            ndof = 1
            jacobian = djacobian = pose = ipose = twist = integrate = None

        def make(tag):
            b = core.Body(tag)
            j = J()
            j._frame0, j._frame1 = parent, b
            b.parentjoint = j
            below[b] = leaf(b)
            setattr(b, what, below[b].seq)
            return j
        seen = []

        def end(tag):
            C.true('descendants of each child', seen == ['child', 'inside first', 'inside dry',
                                                         'inside step'] and not out)
            ends.append(tag)
            del seen[:]
        ends = []
        kids = C.any_number('children', make, end, yields=True)
        parent.childrenjoints = kids.seq()
        joints = what.endswith('joints')
        heads = [kids.first, kids.x] if joints else [kids.first.frame1, kids.x.frame1]
        for b in getattr(parent, what)():
            if any([b is h for h in heads]):
                C.true('a child before its descendants', not seen and not out)
                seen.append('child')
            else:
                out.append(b)
        C.true('every child', ends == ['first', 'dry', 'step'])
    return body


@contract('C41', 'any_world', loops=True)
def any_world(C):
    """The walks of a world hand out everything below the ground, in the order they get it."""
    core = C.mod('core')
    w = core.World()
    out = []

    def end(tag):
        o = now.first if tag == 'first' else now.x
        C.true('each once', len(out) == int(wanted(o)) and all([x is o for x in out]))
        del out[:]
        ends.append(tag)

    def below(name, make):
        return C.any_number(name, make, end, yields=True)

    def wanted(o):
        return True
    bodies, joints = below('bodies', core.Body), below('joints', lambda tag: object())
    w.ground.iter_descendant_bodies, w.ground.iter_descendant_joints = bodies.seq, joints.seq
    for now, walk_, head in ((bodies, w.iterbodies, [w.ground]), (joints, w.iterjoints, [])):
        ends = []
        for x in walk_():
            if head:
                C.true('the ground first', x is head.pop())
            else:
                out.append(x)
        C.true('all of them', ends == ['first', 'dry', 'step'] and not out)
    sh = C.mod('shapes')

    def frame(tag):
        return C.choice(tag, (core.SubFrame, core.MovingSubFrame))(w.ground)
    what = C.choice('what', ('iterconstraints', 'itershapes', 'itersubframes',
                             'itermovingsubframes'))
    if what == 'itermovingsubframes':
        def wanted(o):   # noqa: F811
            return isinstance(o, core.MovingSubFrame)
    ends = []
    now = below(what, (lambda tag: core.Constraint()) if what == 'iterconstraints' else
                (lambda tag: sh.Point(w.ground)) if what == 'itershapes' else frame)
    w.register(now.first)
    replace_list(w, now.first, now.seq())
    for x in getattr(w, what)():
        out.append(x)
    C.true('all of them', ends == ['first', 'dry', 'step'] and not out)


contract('C41', 'any_children_bodies', loops=True)(walk('iter_descendant_bodies'))
contract('C41', 'any_children_joints', loops=True)(walk('iter_descendant_joints'))


# ------------------------------------------------------------------------ C37
def names_of(v, test):
    return sorted([k for k in vars(v) if test(vars(v)[k])])


@contract('C37', 'any_step_recorders', loops=True)
def any_step_recorders(C):
    """One update of a recorder that holds any number of entries already."""
    core, J, sh, ob = C.mod('core'), C.mod('joints'), C.mod('shapes'), C.mod('observers')
    w = core.World()
    b = core.Body('b')
    j = J.FreeJoint(gpos=C.hom('q'), gvel=C.vec('v', 6))
    w.add_link(w.ground, j, b)
    f = core.MovingSubFrame(b, C.hom('K'))
    w.register(f)

    class Force(core.Constraint):
        pass
    c = Force()
    c._force = C.vec('F', 3)
    w.init()
    w.update_dynamic()
    recs = [(ob.RecordJointGpos(j), j.gpos), (ob.RecordJointGvel(j), j.gvel),
            (ob.RecordFramePose(b), b.pose), (ob.RecordFramePose(f), f.pose),
            (ob.RecordFrameTwist(b), b.twist), (ob.RecordFrameTwist(f), f.twist),
            (ob.RecordConstForce(c), c._force)]
    held = []
    N, k = C.real('n', 2), C.real('k', 1)
    C.assume_lt(k, N)
    for r, v in recs:
        r.init(w, LongList(N + 1))
        counters = names_of(r, lambda x: isinstance(x, int) and x == 0)
        want = v.copy()
        r.update(C.one)
        counters = [x for x in counters if same(vars(r)[x], 1)]
        C.true('a counter', len(counters) == 1)
        # any number of entries later
        vars(r)[counters[0]] = k
        r.update(C.one)
        C.eq('next step', vars(r)[counters[0]], k + 1)
        a = r.get_record()
        C.true('one entry per step', isinstance(a, Vast) and len(a.shape) == 1 and
               len(a.writes) == 2)
        C.eq('number of entries', a.shape[0], N)
        for (row, e), n in zip(a.writes, (0, k)):
            C.eq('place of the entry', row, n)
            C.eq('entry', e, want)
        held.append((a, want))
    # what happens afterwards does not reach the entries
    j.gpos[:] = C.eye(4)
    j.gvel[:] = C.zeros(6)
    f.bpose = C.eye(4)
    c._force = C.zeros(3)
    w.update_dynamic()
    for a, want in held:
        for row, e in a.writes:
            C.eq('entry of its own', e, want)


def any_step_logger(flat):
    """The files of the loggers: one update at any step of a run of any length."""
    def body(C):
        dumped = []
        pkl = types.ModuleType('pickle')
        pkl.dump = lambda obj, f, protocol=None: dumped.append(obj)
        C.external('pickle', pkl, 'pickle: an object dumped in a file is read back equal')

        class File(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        C.builtin('open', lambda *a, **k: File())
        core, J, ob = C.mod('core'), C.mod('joints'), C.mod('observers')
        w = core.World()
        a, b = core.Body('a'), core.Body('b')
        j1, j2 = J.TyJoint(name='first'), J.RzJoint(name='second')
        w.add_link(w.ground, j1, a)
        w.add_link(a, j2, core.SubFrame(b, C.mkhom(C.eye(3), C.arr([0, 0, 1])), 'inner'))
        f = core.MovingSubFrame(b, name='moving')
        w.register(f)
        w.init()
        obs = ob.PickleLogger('x', save_state=True, save_model=True, flat=flat)
        N = C.real('steps', 2)
        obs.init(w, LongList(N + 1))

        def state(k):
            q, v = C.vec('q' + k, 2), C.vec('v' + k, 2)
            for j, i in ((j1, 0), (j2, 1)):
                j.gpos[:] = q[i]
                j.gvel[:] = v[i]
            f.bpose = C.hom('K' + k)
            poke(w, 'current_time', C.real('t' + k))
            w.update_dynamic()
            peek(w, 'gforce')[:] = C.vec('g' + k, 2)
            poke(w, 'admittance', C.mat('Y' + k, 2, 2))
            want = {('timeline',): w.current_time}
            for j in (j1, j2):
                want['gpositions', j.name] = j.gpos.copy()
                want['gvelocities', j.name] = j.gvel.copy()
            if flat:
                for x in w.iterbodies():
                    want['transforms', x.name] = x.pose.copy()
            else:
                want['transforms', 'a'], want['transforms', 'inner'] = j1.pose, j2.pose
            want['transforms', 'moving'] = f.pose if flat else f.bpose
            for k in ('gvel', 'mass', 'admittance', 'nleffects', 'gforce'):
                want['model', k] = getattr(w, k).copy()
            return want
        want0 = state('0')
        counters = names_of(obs, lambda x: isinstance(x, int) and not isinstance(x, bool) and
                            x == 0)
        obs.update(C.one)
        counters = [k for k in counters if same(vars(obs)[k], 1)]
        C.true('a counter', len(counters) == 1)
        k = C.real('step', 1)
        C.assume_lt(k, N)
        vars(obs)[counters[0]] = k
        want1 = state('1')
        obs.update(C.one)
        C.eq('next step', vars(obs)[counters[0]], k + 1)
        obs.finish()
        C.true('one object in the file', len(dumped) == 1)

        def flatten(d, pre=()):
            r = {}
            for key, v in d.items():
                r.update(flatten(v, pre + (key,)) if isinstance(v, dict) else {pre + (key,): v})
            return r
        got = flatten(dumped[0])
        C.true('data sets', sorted(got) == sorted(want0), '%s' % sorted(got))
        for key, a in got.items():
            C.true('one row per step', isinstance(a, Vast) and len(a.writes) == 2)
            C.eq('number of rows', a.shape[0], N)
            for (row, v), n, want in zip(a.writes, (0, k), (want0, want1)):
                C.eq('row', row, n)
                C.eq('entry', v, want[key])
                C.true('size of a row', tuple(a.shape[1:]) == getattr(want[key], 'shape', ()))
    return body


contract('C37', 'any_step_flat', loops=True)(any_step_logger(True))
contract('C37', 'any_step_hierarchy', loops=True)(any_step_logger(False))


# ------------------------------------------------------------------------ C21
@contract('C21', 'any_constraints', loops=True)
def any_constraints(C):
    """Any number of constraints, enabled or not, active or not: the force of each one that is
    active enters the generalized force once, and the others do not. The contents of the
    matrices of the sweeps are left out of account (see the contracts on given numbers)."""
    core = C.mod('core')
    n = 2
    w = core.World()
    M, nu, g = C.mat('M', n, n), C.vec('nu', n), C.vec('g', n)
    w.register(core.Constraint())
    for k, v in (('mass', M), ('gvel', nu), ('gforce', g.copy()), ('admittance', C.mat('Y', n, n)),
                 ('ndof', n)):
        poke(w, k, v)
    log = []
    dt = C.real('dt', 0, 1, strict=True, lo_sample=.05)

    class AnyConstraint(core.Constraint):
        def __init__(self, tag):
            core.Constraint.__init__(self)
            if not C.choice('enabled_' + tag, [True, False]):
                self.disable()
            self.active = C.choice('active_' + tag, [True, False])
            self.n = C.real('ndol_' + tag, 1)
            self.f = [C.vec('%s_f%d_' % (tag, i), n) for i in range(4)]
            self.now = 0
            self.jac = Vague()

        ndol = property(lambda self: self.n)
        jacobian = property(lambda self: self.jac)
        gforce = property(lambda self: self.f[self.now])

        def is_active(self):
            return self.active

        def init(self, world):
            pass

        def update(self, dt):
            log.append(('update', self, dt))
            self.now = 1

        def solve(self, vel, admittance, dt):
            log.append(('solve', self, dt, vel, admittance))
            # from one sweep to the next the force changes
            self.now = 2 + (self.now == 2)
            return Vague()

    def end(tag):
        c = cs.first if tag == 'first' else cs.x
        on = c.is_enabled()
        if log:
            C.true('no call to a disabled constraint', on)
        for x in log:
            C.true('calls to the constraint itself', x[1] is c)
            C.eq('step', x[2], dt)
            if x[0] == 'update':
                C.true('updated once', len(log) == 1)
                continue
            C.true('solved once per sweep, when active', len(log) == 1 and c.active)
            d = c._dol
            C.eq('rows of the constraint', d.stop - d.start, c.n)
            C.true('velocity of the constraint', isinstance(x[3], Part) and x[3].index is d)
            C.true('admittance of the constraint', isinstance(x[4], Part) and
                   len(x[4].index) == 2 and x[4].index[0] is d and x[4].index[1] is d)
        calls.append((tag, [x[0] for x in log]))
        del log[:]
    calls = []
    cs = C.any_number('constraints', AnyConstraint, end, private=True)
    real = [k for k, v in vars(w).items() if isinstance(v, list) and len(v) == 1]
    C.true('the list of the constraints', len(real) == 1)
    vars(w)[real[0]] = cs.seq()
    w.update_constraints(dt, maxiters=2)
    for tag, c in (('first', cs.first), ('step', cs.x)):
        mine = [x for t, k in calls if t == tag for x in k]
        C.true('updated when enabled', mine.count('update') == int(c.is_enabled()))
        C.true('solved when active', mine.count('solve') in (
            (1, 2) if c.is_enabled() and c.active else (0,)))
    C.eq('generalized force', w.gforce, g + cs.total(
        lambda c: c.gforce if c.is_enabled() and c.active else C.zeros(n)))
    C.eq('velocity kept', w.gvel, nu)
    C.eq('mass kept', w.mass, M)
    # the rows of the jacobian
    on = [c for c in (cs.first, cs.x) if c.is_enabled() and c.active]
    for a in Store.now().arrays:
        rows = (getattr(a.writes, 'pre', []) + getattr(a.writes, 'gen', [])) \
            if isinstance(a.writes, Abstract) else a.writes
        C.true('a row per active constraint', [x[1] for x in rows] == [c.jac for c in on])
        for c, x in zip(on, rows):
            C.true('rows of the constraint', x[0] is c._dol)
        C.eq('rows', a.shape[0], cs.total(
            lambda c: c.n if c.is_enabled() and c.active else C.const(0)))


# ------------------------------------------------------------------------ C31
class Held(object):
    """A list with anything in it: what is asked about is there or not, and it can grow."""

    def __init__(self, C, label):
        self.C, self.label, self.known, self.added = C, label, [], []

    def __contains__(self, x):
        for y, r in self.known:
            if y is x:
                return r
        r = self.C.choice('%s %d' % (self.label, len(self.known)), [False, True])
        self.known.append((x, r))
        return r

    def append(self, x):
        self.added.append(x)
        self.known.insert(0, (x, True))


@contract('C31', 'any_link', loops=True)
def any_link(C):
    """A link added to a tree of any shape: one step of the induction over the history."""
    core, J = C.mod('core'), C.mod('joints')
    w = core.World()
    a, b = core.Body('a'), core.Body('b')
    one = C.choice('one body', [False, True])
    if one:
        b = a
    frame = {'body': lambda x: x, 'frame': core.SubFrame, 'moving': core.MovingSubFrame}
    f0 = frame[C.choice('frame0', sorted(frame))](a)
    f1 = frame[C.choice('frame1', sorted(frame))](b)
    above, kids = Held(C, 'ancestor'), Held(C, 'child')
    a.iter_ancestor_bodies = lambda: above
    a.childrenjoints = kids
    parent = J.RzJoint() if C.choice('has a parent', [False, True]) else None
    b.parentjoint = parent
    frames = Held(C, 'registered')
    lists = [k for k, v in vars(w).items() if type(v) is list]
    w.register(core.SubFrame(w.ground))
    lists = [k for k in lists if len(vars(w)[k])]
    C.true('the list of the frames', len(lists) == 1)
    vars(w)[lists[0]] = frames
    j = J.RyJoint()
    try:
        w.add_link(f0, j, f1)
        done = True
    except ValueError:
        done = False
    C.true('one parent, no loop', done == (parent is None and not one and b not in above))
    if not done:
        C.true('nothing changed', not kids.added and not frames.added and
               b.parentjoint is parent and j.frames == (None, None))
        return
    C.true('link', j.frame0 is f0 and j.frame1 is f1 and b.parentjoint is j and
           len(kids.added) == 1 and kids.added[0] is j and a.parentjoint is None)
    new = [f for f in (f0, f1) if not isinstance(f, core.Body) and
           [r for x, r in frames.known if x is f][-1:] != [True]]
    C.true('frames registered once', len(frames.added) == len(new) and
           all([x is y for x, y in zip(frames.added, new)]) and
           all([f in frames for f in (f0, f1) if not isinstance(f, core.Body)]))


@contract('C31', 'any_ancestors', loops=True)
def any_ancestors(C):
    """The ancestors of a body: its parent, then those of its parent."""
    core, J = C.mod('core'), C.mod('joints')
    root = core.Body()
    C.true('none', list(root.iter_ancestor_bodies()) == [] and
           list(root.iter_ancestor_joints()) == [])
    p, b, j = core.Body(), core.Body(), J.RzJoint()
    j.set_frames(core.SubFrame(p), core.SubFrame(b))
    b.parentjoint = j
    rest = [object(), object()]
    p.iter_ancestor_bodies = p.iter_ancestor_joints = lambda: iter(rest)
    got = list(b.iter_ancestor_bodies()), list(b.iter_ancestor_joints())
    for x, y in zip(got, (p, j)):
        C.true('nearest first', len(x) == 3 and all([u is v for u, v in zip(x, [y] + rest)]))


@contract('C31', 'any_registered', loops=True)
def any_registered(C):
    """A thing registered in a world that holds anything already: there once afterwards."""
    core, sh, cs, ct = (C.mod('core'), C.mod('shapes'), C.mod('constraints'),
                        C.mod('controllers'))
    w = core.World()
    b = core.Body()
    fs = core.SubFrame(b), core.MovingSubFrame(b)
    s0, s1 = sh.Sphere(fs[0], C.one), sh.Point(b)
    things = dict(frame=fs[0], moving=fs[1], shape=s0, bare=s1,
                  contact=cs.SoftFingerContact((s0, s1), C.one),
                  controller=ct.WeightController())
    things['ball'] = cs.BallAndSocketConstraint(frames=fs)
    # the lists, found by what goes into them
    lists = {}
    for k in ('frame', 'bare', 'controller', 'ball'):
        v = core.World()
        v.register(things[k])
        for x, l in vars(v).items():
            if type(l) is list and any([y is things[k] for y in l]):
                lists[{'bare': 'shape', 'ball': 'constraint'}.get(k, k)] = x
    C.true('four lists', len(set(lists.values())) == 4)
    held = dict([(k, Held(C, k)) for k in lists])
    for k, x in lists.items():
        vars(w)[x] = held[k]
    what = C.choice('what', sorted(things))
    o = things[what]
    kind = {'moving': 'frame', 'bare': 'shape', 'contact': 'constraint',
            'ball': 'constraint'}.get(what, what)
    there = o in held[kind]
    w.register(o)
    C.true('there once', [x is o for x in held[kind].added if x is o] == [True] * (not there) and
           o in held[kind])
    # what it depends on
    needs = [(kind, o)]
    if kind == 'shape' and what == 'shape':
        needs.append(('frame', fs[0]))
    if what == 'contact' and not there:
        # its two frames move with the contact
        new = list(dict([(id(x), x) for x, r in held['frame'].known if x not in fs]).values())
        C.true('frames of the contact', len(new) == 2 and all(
            [isinstance(x, core.MovingSubFrame) and x.body is b for x in new]))
        needs += [('frame', x) for x in new]
    for k, x in needs:
        C.true('what it depends on is there', x in held[k])
    for k in held:
        for x in held[k].added:
            C.true('nothing else', any([x is y for n, y in needs if n == k]))
