"""Bounded contracts on whole robots: building, frames, names, simulation, observers, walks
and drawings (see c_whole.py)."""
import os
import shutil
import tempfile
import numpy as np
from pvc.poke import poke, peek
from pvc.run import contract
import gen
from c_whole import BOUND, KW, Controls, LINEAR, weight, well
from c_build import Tree, same, check_tree


# ------------------------------------------------------------------------ C30
def check_whole_dofs(C, R, vel, when):
    w = R.w
    order = R.order()
    n = R.ndof()
    C.eq(when + ': total', w.ndof, n)
    C.true(when + ': shapes', w.gvel.shape == w.gforce.shape == (n,) and
           w.mass.shape == w.viscosity.shape == w.nleffects.shape == (n, n))
    k = 0
    for l in order:
        s = gen.size(l.kind)
        C.true(when + ': range of a joint', list(range(n))[l.joint.dof] == list(range(k, k + s)))
        k += s
        C.eq(when + ': velocity of a joint', np.ravel(l.joint.gvel), vel[id(l.joint)])
        C.eq(when + ': velocity of the world', w.gvel[l.joint.dof], vel[id(l.joint)])


def velocities(R):
    return dict([(id(l.joint), np.ravel(l.joint.gvel).copy()) for l in R.links])


def give(C, R, vel, tag):
    """New velocities, in place or as a whole."""
    for i, l in enumerate(R.links):
        s = gen.size(l.kind)
        if s and C.choice('%sw%d' % (tag, i), (0, 1, 1)):
            v = C.vec('%sv%d' % (tag, i), s, -2, 2)
            if C.choice('%si%d' % (tag, i), (0, 1)):
                l.joint.gvel[:] = v
            else:
                for k in range(s):
                    l.joint.gvel[k] = v[k]
            vel[id(l.joint)] = v


@contract('C30', bounded=BOUND % 8, **KW)
def whole_dofs(C):
    R = gen.robot(C, 1, 5)
    gen.regular(C, R)
    vel = velocities(R)
    R.w.init()
    check_whole_dofs(C, R, vel, 'initialized')
    for k in range(4):
        give(C, R, vel, 'g%d' % k)
        check_whole_dofs(C, R, vel, 'after writing')
        g = R.w.gvel
        g[:] = 77.
        check_whole_dofs(C, R, vel, 'after writing to the returned velocity')
        how = C.choice('how%d' % k, ('init', 'edit', 'edit', 'update', 'step'))
        if how == 'init':
            R.w.init()
        elif how == 'edit':
            gen.edit(C, R, 'e%d' % k)
            if C.choice('init%d' % k, (0, 1)):
                R.w.init()
            for l in R.links:
                if id(l.joint) not in vel or C.choices['e%dop' % k] in (3, 7):
                    vel[id(l.joint)] = np.ravel(l.joint.gvel).copy()
            gen.regular(C, R)
        elif how == 'update':
            R.w.update_dynamic()
        else:
            R.w.update_dynamic()
            R.w.update_controllers(.01)
            well(C, R.w.admittance)
            R.w.update_constraints(.01)
            R.w.integrate(.01)
            vel = velocities(R)
        check_whole_dofs(C, R, vel, how)


# ------------------------------------------------------------------------ C31
@contract('C31', bounded=BOUND % 9, **KW)
def whole_tree(C):
    """Histories of additions, refused additions and replacements."""
    core = C.mod('core')
    R = gen.robot(C, 1, 4, dyn=False)
    w = R.w
    t = Tree(w.ground)
    for l in R.links:
        t.add(l.f0, l.joint, l.f1)
    bodies = [w.ground] + R.bodies
    check_tree(C, w, t, bodies, 'built')
    frames = []

    def seen(*fs):
        for f in fs:
            if not isinstance(f, core.Body) and not [x for x in frames if x is f]:
                frames.append(f)
    for l in R.links:
        seen(l.f0, l.f1)
    for k in range(C.choice('steps', (1, 2, 3, 4))):
        tag = 's%d' % k
        op = C.choice(tag + 'op', ('add', 'bad', 'swap', 'chain', 'again'))
        old = [l[0] for l in t.walk(w.ground)]
        j = gen.new_joint(C, C.choice(tag + 'kind', gen.CLASSES), tag,
                          C.choice(tag + 'name', (None, 'same')))
        if op == 'add':
            b = core.Body('same')
            p = bodies[C.choice(tag + 'p', tuple(range(len(bodies))))]
            f0 = gen.some_frame(C, R, p, tag + 'f0')[0]
            f1 = gen.some_frame(C, R, b, tag + 'f1')[0]
            w.add_link(f0, j, f1)
            t.add(f0, j, f1)
            bodies.append(b)
            seen(f0, f1)
        elif op == 'bad':
            p = bodies[C.choice(tag + 'p', tuple(range(len(bodies))))]
            q = bodies[C.choice(tag + 'q', (0,) * len(bodies) + tuple(range(len(bodies))))]
            f0, f1 = gen.some_frame(C, R, p, tag + 'f0')[0], gen.some_frame(C, R, q, tag + 'f1')[0]
            if t.allowed(f0, f1):
                continue
            C.raises('refused', ValueError, lambda: w.add_link(f0, j, f1))
            C.true('refused joint is unused', j.frame0 is None and j.frame1 is None)
        elif op in ('swap', 'again'):
            o = old[C.choice(tag + 'old', tuple(range(len(old))))]
            f0, f1 = o.frames
            w.replace_joint(o, j)
            t.replace(o, [(f0, j, f1)])
            if op == 'again':
                check_tree(C, w, t, bodies, 'replaced')
                w.replace_joint(j, o)
                t.replace(j, [(f0, o, f1)])
        else:
            o = old[C.choice(tag + 'old', tuple(range(len(old))))]
            f0, f1 = o.frames
            n = C.choice(tag + 'n', (1, 1, 2))
            mids = [core.Body('m') for i in range(n)]
            args, links = [f0], []
            for i in range(n + 1):
                jj = j if i == 0 else gen.new_joint(
                    C, C.choice('%sk%d' % (tag, i), gen.CLASSES), '%sj%d' % (tag, i))
                g1 = f1 if i == n else gen.some_frame(C, R, mids[i], '%sa%d' % (tag, i))[0]
                links.append((args[-1], jj, g1))
                args += [jj, g1]
                if i < n:
                    args.append(gen.some_frame(C, R, mids[i], '%sb%d' % (tag, i))[0])
            w.replace_joint(o, *args)
            t.replace(o, links)
            bodies += mids
            for a, b, c in links:
                seen(a, c)
        check_tree(C, w, t, bodies, op)
        sub = list(w.itersubframes())
        C.true('the frames are registered once', len(sub) == len(frames) and
               all([len([x for x in sub if x is f]) == 1 for f in frames]))
        C.true('all frames', same(w.iterframes(), list(w.iterbodies()) + sub))
        C.true('moving frames', same(w.itermovingsubframes(),
                                     [f for f in sub if isinstance(f, core.MovingSubFrame)]))
        w.init()
        C.eq('degrees of freedom', w.ndof, sum([l[0].ndof for l in t.walk(w.ground)]))


# ------------------------------------------------------------------------ C32
@contract('C32', bounded=BOUND % 6 + ', up to five frames', **KW)
def whole_frames(C):
    core = C.mod('core')
    R = gen.robot(C, 1, 4, dyn=False)
    w = R.w
    w.init()
    bodies = [w.ground] + R.bodies
    fs = []
    for k in range(3):
        for i in range(C.choice('more%d' % k, (0, 1, 2))):
            b = bodies[C.choice('b%d%d' % (k, i), tuple(range(len(bodies))))]
            f, H = gen.some_frame(C, R, b, 'f%d%d' % (k, i), ('sub', 'moving', 'body'))
            fs.append([f, b, H.copy()])
            if f is not b:
                H[:] = 0        # the array it was built from is of no use any more
                if C.choice('reg%d%d' % (k, i), (0, 1)):
                    w.register(f)
        dynamic = C.choice('update%d' % k, (1, 1, 0))
        (w.update_dynamic if dynamic else w.update_geometric)()
        for again in range(2):
            for f, b, H in fs:
                P, J, dJ, V = R.kinematics(b, H)
                C.true('body', f.body is b)
                C.eq('offset', f.bpose, H)
                C.eq('pose', f.pose, P)
                if dynamic:
                    C.eq('twist', f.twist, V)
                    C.eq('jacobian', f.jacobian, J)
                    C.eq('jacobian derivative', f.djacobian, dJ)
                if f is not b:
                    for x in (f.bpose, f.pose) + ((f.twist, f.jacobian) if dynamic else ()):
                        x[:] = 5.
            # moving a frame is seen at once
            for i, x in enumerate(fs):
                if isinstance(x[0], core.MovingSubFrame) and C.choice(
                        'move%d%d%d' % (k, again, i), (0, 1)):
                    x[2] = C.hom('K%d%d%d' % (k, again, i), 1)
                    if C.choice('turn%d%d%d' % (k, again, i), (0, 1)):
                        x[2] = gen.hom(x[2][0:3, 0:3])
                    K = x[2].copy()
                    x[0].bpose = K
                    K[:] = 0
        gen.edit(C, R, 'e%d' % k)


# ------------------------------------------------------------------------ C33
@contract('C33', bounded=BOUND % 7 + ', with random names', **KW)
def whole_names(C):
    core, sh, ct = C.mod('core'), C.mod('shapes'), C.mod('controllers')
    R = gen.robot(C, 1, 6, dyn=False)
    w = R.w
    names = (None, None, 'a', 'b', 'A', 'a b', '', '1')

    def name(o, tag):
        o.name = C.choice('name' + tag, names)
    for i, l in enumerate(R.links):
        name(l.joint, 'j%d' % i)
        name(l.body, 'b%d' % i)
        for k, f in enumerate((l.f0, l.f1)):
            if not isinstance(f, core.Body):
                name(f, 'f%d%d' % (i, k))
        s = sh.Point(l.f1)
        name(s, 's%d' % i)
        w.register(s)
    for i in range(C.choice('ctrl', (0, 1, 3))):
        c = ct.WeightController()
        name(c, 'c%d' % i)
        w.register(c)
    w.init()
    lists = [(w.getbodies(), list(w.iterbodies())), (w.getjoints(), [l.joint for l in R.order()]),
             (w.getframes(), list(w.iterframes())), (w.getshapes(), list(w.itershapes())),
             (w.getcontrollers(), w.getcontrollers())]
    dup = False
    for L, want in lists:
        C.true('elements', same(L, want))
        for n in set(names) - set([None]) | set(['nobody']):
            have = [o for o in want if o.name == n]
            C.true('all of a name', same(L.find(n), have))
            if have:
                C.true('first of a name', L[n] is have[0])
            else:
                C.raises('missing name', KeyError, lambda: L[n])
        known = [o.name for o in want if o.name is not None]
        if len(set(known)) < len(known):
            C.raises('duplicates', core.DuplicateNameError, L.as_dict)
            dup = dup or True
        else:
            d = L.as_dict()
            C.true('dictionary', len(d) == len(known) and
                   all([d[o.name] is o for o in want if o.name is not None]))
    # a part of the joints, in any order
    js = [l.joint for l in R.order()]
    dofs = dict([(id(l.joint), R.dofs()[id(l)]) for l in R.order()])
    sel = []
    for i in range(C.choice('part', (0, 1, 2, 3, 4))):
        j = js[C.choice('part%d' % i, tuple(range(len(js))))]
        if not [x for x in sel if x is j]:
            sel.append(j)
    L = core.JointsList(sel)
    n = R.ndof()
    got = [int(x) for x in np.arange(n)[L.dof]]
    C.true('degrees of freedom of a list', got == sum([dofs[id(j)] for j in sel], []),
           '%s / %s' % (L.dof, got))
    C.true('degrees of freedom of all the joints',
           [int(x) for x in np.arange(n)[w.getjoints().dof]] == list(range(n)))
    # naming
    check = C.choice('check', (False, True))
    everything = [o for L, want in lists for o in want]
    old = [o.name for o in everything]
    try:
        w.name_all_elements(check)
        C.true('duplicates are detected', not (check and dup))
    except core.DuplicateNameError:
        C.true('duplicates are real', check and dup)
        return
    C.true('names are kept', all([x is None or x == o.name for x, o in zip(old, everything)]))
    C.true('everything is named', all([isinstance(o.name, str) for o in everything]))
    for L, want in lists:
        was = dict([(id(o), x) for o, x in zip(everything, old)])
        made = [o.name for o in want if was[id(o)] is None]
        other = set([o.name for o in want if was[id(o)] is not None])
        C.true('made names are unique', not set(made) & other and
               len(set(made)) == len(made))


# ------------------------------------------------------------------------ C34
class LoggedThings(object):
    """Controllers, constraints and observers that write down when they are called."""

    def __init__(self, C, R):
        core = C.mod('core')
        self.log = log = []
        R_ = R

        class Ctrl(core.Controller):
            def init(self, world):
                log.append(('ctrl.init', self, world.ndof))
                self.n = world.ndof

            def update(self, dt):
                log.append(('ctrl', self, dt, R_.w.current_time,
                            [b.pose.copy() for b in R_.bodies]))
                return np.zeros(self.n), np.zeros((self.n, self.n))

        class Cons(core.Constraint):
            def __init__(self):
                core.Constraint.__init__(self)
                self._force = np.zeros(1)

            ndol = property(lambda s: 1)
            jacobian = property(lambda s: np.zeros((1, s.n)))

            def init(self, world):
                log.append(('cons.init', self, world.ndof))
                self.n = world.ndof

            def update(self, dt):
                log.append(('cons', self, dt, R_.w.current_time))

            def is_active(self):
                return False

            def solve(self, *a):
                raise AssertionError('not active')

        class Obs(core.Observer):
            def init(self, world, timeline):
                log.append(('obs.init', self, world, timeline))

            def update(self, dt):
                w = R_.w
                log.append(('obs', self, dt, w.current_time,
                            [b.pose.copy() for b in R_.bodies], w.gvel,
                            [np.array(l.joint.gpos) if l.kind != 'Fixed' else None
                             for l in R_.links], w.gforce))

            def finish(self):
                log.append(('obs.finish', self, R_.w.current_time))
        self.Ctrl, self.Cons, self.Obs = Ctrl, Cons, Obs


def some_timeline(C, n, tag='t'):
    even = C.choice(tag + 'even', (0, 1))
    t = [C.real(tag + '0', -2, 2)]
    d = C.real(tag + 'd', 0, .1, strict=True, lo_sample=.001)
    for i in range(n - 1):
        t.append(t[-1] + (d if even else C.real('%sd%d' % (tag, i), 0, .1, strict=True,
                                                lo_sample=.0005)))
    how = C.choice(tag + 'as', ('list', 'tuple', 'array'))
    return t if how == 'list' else tuple(t) if how == 'tuple' else np.array(t)


@contract('C34', bounded=BOUND % 4 + ', up to five steps, twice', sym=False, samples=400, budget=60,
          rt=1e-7)
def whole_simulation(C):
    """The stages of a simulation, in order, against the steps made one by one on a twin."""
    core = C.mod('core')
    two = []
    for k in (0, 1):
        R = gen.robot(C, 1, 4)
        gen.regular(C, R)
        R.w.init()
        K = Controls(C, R)
        K.add(C.choice('controllers', (0, 1, 2)))
        two.append((R, K))
    (R, K), (T, _) = two
    L = LoggedThings(C, R)
    ctrls = [L.Ctrl() for i in range(C.choice('ctrls', (1, 2)))]
    cons = [L.Cons() for i in range(C.choice('conss', (0, 1, 2)))]
    for x in ctrls + cons:
        R.w.register(x)
    obs = [L.Obs() for i in range(C.choice('obs', (0, 1, 2, 3, 7)))]
    gen.namesakes(C, 'logged', ctrls + cons + obs)
    kind = C.choice('given as', ('list', 'dict', 'tuple'))
    given = dict([('o%d' % (9 - i), o) for i, o in enumerate(obs)]) if kind == 'dict' else \
        tuple(obs) if kind == 'tuple' else obs
    for run in range(C.choice('runs', (1, 1, 2))):
        n = C.choice('n%d' % run, (1, 2, 3, 6))
        times = some_timeline(C, n, 't%d' % run)
        del L.log[:]
        if obs or kind != 'list':
            core.simulate(R.w, times, given)
        else:
            core.simulate(R.w, times)
        # the twin
        t = T.w
        poke(t, 'current_time', times[0])
        t.init()
        log = list(L.log)

        def take(kind, objs):
            r = [log.pop(0) for o in objs if log]
            C.true('%s: each once, in its stage' % kind, len(r) == len(objs) and
                   all([x[0] == kind for x in r]) and
                   sorted([id(x[1]) for x in r]) == sorted([id(o) for o in objs]))
            return r if len(r) == len(objs) and all([x[0] == kind for x in r]) else None
        r = []
        while log and log[0][0] in ('ctrl.init', 'cons.init'):
            r.append(log.pop(0))
        C.true('the world is initialized once', sorted([id(x[1]) for x in r]) ==
               sorted([id(o) for o in ctrls + cons]))
        r = take('obs.init', obs)
        if r is None:
            return
        for x in r:
            C.true('world and instants given', x[2] is R.w and x[3] is times)
        for i in range(n - 1):
            dt = times[i + 1] - times[i]
            t.update_dynamic()
            r = take('ctrl', ctrls)
            if r is None:
                return
            for x in r:
                C.eq('step of a controller', x[2], dt)
                C.eq('time of a controller', x[3], times[i])
                for b, P in zip(T.bodies, x[4]):
                    C.eq('dynamics are up to date', P, b.pose, tol=1e-6)
            t.update_controllers(dt)
            well(C, t.admittance)
            r = take('cons', cons)
            if r is None:
                return
            for x in r:
                C.eq('step of a constraint', x[2], dt)
            t.update_constraints(dt)
            r = take('obs', obs)
            if r is None:
                return
            for x, o in zip(r, obs):
                C.true('observers in order', x[1] is o)
                C.eq('step of an observer', x[2], dt)
                C.eq('time of an observer', x[3], times[i])
                C.eq('velocity', x[5], t.gvel, tol=1e-6)
                C.eq('force', x[7], t.gforce, tol=1e-6)
                for b, P in zip(T.bodies, x[4]):
                    C.eq('pose', P, b.pose, tol=1e-6)
                for l, q in zip(T.links, x[6]):
                    if q is not None:
                        C.eq('position', q, l.joint.gpos, tol=1e-6)
            t.integrate(dt)
        r = take('obs.finish', obs)
        C.true('nothing else', not log)
        C.eq('clock', R.w.current_time, times[n - 1])
        C.eq('final velocity', R.w.gvel, t.gvel, tol=1e-6)


# ------------------------------------------------------------------------ C35
def solids_only(C, R):
    for l in R.links:
        b = l.body
        M = R.mass[id(b)]
        if np.abs(M).max() > 0 and (np.linalg.eigvalsh(M).min() < 1e-6):
            R.mass[id(b)] = np.diag([.5, .6, .7, 1., 1., 1.])
            b.mass = R.mass[id(b)].copy()


def com_of(M):
    m = M[5, 5]
    return m, np.array([M[2, 4], M[0, 5], M[1, 3]]) / m


@contract('C35', bounded=BOUND % 7, **KW)
def whole_energy(C):
    R = gen.robot(C, 1, 6)
    solids_only(C, R)
    w = R.w
    w.init()
    if C.choice('up', (0, 1)):
        peek(w, 'up')[:] = C.unit('u')
    mon = C.mod('observers').EnergyMonitor()
    for run in range(C.choice('runs', (1, 2))):
        n = C.choice('n%d' % run, (1, 2, 3))
        times = [C.real('t%d%d' % (run, k), -9, 9) for k in range(n + 1)]
        w.init()
        mon.init(w, times)
        want = []
        for k in range(n):
            for i, l in enumerate(R.links):
                if gen.size(l.kind):
                    l.joint.gvel[:] = C.vec('v%d%d%d' % (run, k, i), gen.size(l.kind), -2, 2)
                if l.kind in LINEAR:
                    l.joint.gpos[:] = C.vec('q%d%d%d' % (run, k, i), gen.size(l.kind), -3, 3)
            poke(w, 'current_time', times[k])
            w.update_dynamic()
            mon.update(times[k + 1] - times[k])
            T = U = 0.
            for b in R.bodies:
                M = R.mass[id(b)]
                H, J, dJ, V = R.kinematics(b)
                T += V @ M @ V / 2
                if M[5, 5] > 0:
                    m, c = com_of(M)
                    U += 9.81 * m * (w.up @ (H[0:3, 3] + H[0:3, 0:3] @ c))
            want.append((times[k], T, U))
        mon.finish()
        C.true('one entry per step', len(mon.time) == len(mon.kinetic_energy) ==
               len(mon.potential_energy) == len(mon.mechanichal_energy) == n)
        for k, (t, T, U) in enumerate(want):
            C.eq('time', mon.time[k], t)
            C.eq('kinetic energy', mon.kinetic_energy[k], T)
            C.eq('potential energy', mon.potential_energy[k], U)
            C.eq('mechanical energy', mon.mechanichal_energy[k], T + U)
        gen.edit(C, R, 'e%d' % run)
        solids_only(C, R)


# ------------------------------------------------------------------------ C36
@contract('C36', bounded=BOUND % 7, **KW)
def whole_com(C):
    R = gen.robot(C, 1, 6)
    solids_only(C, R)
    w = R.w
    w.init()
    sel = []
    for i in range(len(R.bodies) if gen.BIG else C.choice('bodies', (1, 2, 3, 6))):
        b = R.bodies[i] if gen.BIG else R.bodies[C.choice('sel%d' % i, tuple(range(len(R.bodies))))]
        if not [x for x in sel if x is b]:
            sel.append(b)
    ob = C.mod('observers')
    jac = C.choice('jacobians', (True, True, False))
    obs = ob.CoMObserver(list(sel)) if jac else ob.CoMObserver(list(sel), compute_Jacobians=False)
    for run in (0, 1):
        if sum([R.mass[id(b)][5, 5] for b in sel]) < .1:
            b = sel[0]
            b.mass = R.mass[id(b)] = np.diag([.5, .6, .7, 1., 1., 1.])
        w.init()
        obs.init(w, [0., 1.]) if C.choice('tl%d' % run, (0, 1)) else obs.init(w)
        for k in (0, 1):
            for i, l in enumerate(R.links):
                if gen.size(l.kind):
                    l.joint.gvel[:] = C.vec('v%d%d%d' % (run, k, i), gen.size(l.kind), -2, 2)
            w.update_dynamic()
            obs.update(.1)
            n = R.ndof()
            mt, x, J, dJ = 0., np.zeros(3), np.zeros((3, n)), np.zeros((3, n))
            for b in sel:
                M = R.mass[id(b)]
                if M[5, 5] == 0:
                    continue
                m, c = com_of(M)
                H, Jb, dJb, V = R.kinematics(b)
                S = gen.skew(c)
                A = Jb[3:6] - S @ Jb[0:3]
                mt += m
                x += m * (H[0:3, 3] + H[0:3, 0:3] @ c)
                J += m * H[0:3, 0:3] @ A
                dJ += m * H[0:3, 0:3] @ (gen.skew(V[0:3]) @ A + dJb[3:6] - S @ dJb[0:3])
            C.eq('position', obs.get_CoMPosition(), x / mt)
            if jac:
                C.eq('jacobian', obs.get_CoMJacobian(), J / mt)
                C.eq('jacobian derivative', obs.get_CoMdJacobian(), dJ / mt)
        gen.edit(C, R, 'e%d' % run)
        solids_only(C, R)


# ------------------------------------------------------------------------ C37
@contract('C37', bounded=BOUND % 4 + ', two simulations of up to four steps', sym=False,
          samples=300, budget=60, rt=1e-7)
def whole_records(C):
    """Every recorder in a simulation, twice; the first records are kept."""
    core, ob, sh = C.mod('core'), C.mod('observers'), C.mod('shapes')
    R = gen.robot(C, 2, 4)
    for b in R.bodies:
        R.mass[id(b)] = np.diag([.5, .6, .7, 1., 1., 1.])
        b.mass = R.mass[id(b)].copy()
    w = R.w
    w.init()
    R.w.register(C.mod('controllers').WeightController())
    w.update_dynamic()
    j = R.links[C.choice('joint', tuple(range(len(R.links))))]
    b = R.bodies[C.choice('body', tuple(range(len(R.bodies))))]
    f, H = gen.some_frame(C, R, b, 'f', ('sub', 'moving', 'body'))
    far = gen.hom(None, (50., 0, 0))
    s0, s1 = sh.Sphere(core.SubFrame(w.ground, far), .1), sh.Point(f)
    lim = [l for l in R.links if l.kind in LINEAR]
    cons = []
    if lim:
        l = lim[0]
        q = np.ravel(l.joint.gpos)
        cons = [C.mod('constraints').JointLimits(l.joint, q - .001, q + .001)]
        w.register(cons[0])
    kinds = [('pose', ob.RecordFramePose(f)), ('twist', ob.RecordFrameTwist(f)),
             ('distance', ob.RecordDistance(s0, s1)), ('com', ob.RecordCoMPosition(list(R.bodies))),
             ('gvel', ob.RecordJointGvel(j.joint))]
    if j.kind != 'Fixed':
        kinds.append(('gpos', ob.RecordJointGpos(j.joint)))
    if cons:
        kinds.append(('force', ob.RecordConstForce(cons[0])))
    want = {}

    class Check(core.Observer):
        def init(self, world, timeline):
            want.clear()

        def update(self, dt):
            P, J, dJ, V = R.kinematics(b, H)
            vals = dict(pose=P, twist=V, distance=np.linalg.norm(P[0:3, 3] - far[0:3, 3]) - .1,
                        com=np.mean([R.kinematics(x)[0][0:3, 3] for x in R.bodies], axis=0),
                        gvel=np.array(j.joint.gvel))
            if j.kind != 'Fixed':
                vals['gpos'] = np.array(j.joint.gpos)
            if cons:
                vals['force'] = np.array(cons[0]._force)
            for k, v in vals.items():
                want.setdefault(k, []).append(v)

        def finish(self):
            pass
    kept = []
    for run in (0, 1):
        n = C.choice('n%d' % run, (1, 2, 3))
        if C.choice('first%d' % run, (0, 1)):
            obs = [Check()] + [r for _, r in kinds]
        else:
            obs = [r for _, r in kinds] + [Check()]
        core.simulate(w, [.01 * i for i in range(n + 1)], obs)
        for k, r in kinds:
            got = r.get_record()
            C.true('one entry per step: ' + k, len(got) == n)
            kept.append((k, got, [np.array(x) for x in want[k]]))
        # what happens afterwards
        for i, l in enumerate(R.links):
            if gen.size(l.kind):
                l.joint.gvel[:] = C.vec('after%d%d' % (run, i), gen.size(l.kind), -1, 1)
        w.update_dynamic()
        for k, got, vals in kept:
            for x, y in zip(got, vals):
                C.eq('record: ' + k, x, y)


def same_file(C, name, group, rows, pick, tr, state, model, flat, clash):
    """The file holds these rows, and nothing else, in that group."""
    import h5py
    import pickle
    if pick:
        with open(name, 'rb') as h:
            got = pickle.load(h)
    else:
        with h5py.File(name, 'r') as h:
            def read(x):
                return dict([(k, read(v)) for k, v in x.items()]) if hasattr(x, 'items') \
                    else x[()]
            got = read(h[group])
    groups = ['timeline'] + ['transforms'] * tr + ['gpositions', 'gvelocities'] * state + \
        ['model'] * model
    C.true('groups', sorted(got) == sorted(groups), str(sorted(got)))
    for g in groups[1:]:
        names = set([k[1] for r in rows for k in r if k[0] == g])
        extra = [f.name for f in clash] if g == 'transforms' and not flat else []
        C.true('names in ' + g, names <= set(got.get(g, ())) and
               set(got[g]) - names <= set(extra),
               '%s / %s' % (sorted(got.get(g, ())), sorted(names)))
    for i, r in enumerate(rows):
        for k, v in r.items():
            x = got
            for y in k:
                x = x.get(y, {}) if isinstance(x, dict) else {}
            if isinstance(x, dict):
                C.true('%s is in the file' % (k,), False)
                continue
            C.true('one entry per step', len(x) == len(rows))
            if len(x) > i:
                C.eq('/'.join(k[:1]), x[i], v)


@contract('C37', bounded=BOUND % 4 + ', files of up to three steps', sym=False, samples=400,
          budget=60, rt=1e-12)
def whole_files(C):
    """Files of simulations, with any names, compared with what the world held."""
    core, ob = C.mod('core'), C.mod('observers')
    R = gen.robot(C, 1, 4, names=(0,))
    gen.regular(C, R)
    w = R.w
    base = ('Arm', 'forearm', 'HAND', 'Left Leg', 'b.1', 'corps', '2', 'x-y', 'Été')
    named = C.choice('named', (0, 1, 1))
    k = C.choice('from', tuple(range(9)))
    for i, l in enumerate(R.links):
        if named:
            l.joint.name = 'j' + base[(k + 2 * i) % 9]
            l.body.name = base[(k + 2 * i) % 9]
            if not isinstance(l.f1, core.Body):
                l.f1.name = 'f' + base[(k + 2 * i) % 9]
            if isinstance(l.f0, core.MovingSubFrame):
                l.f0.name = 'm' + base[(k + 2 * i) % 9]
    w.init()
    if C.choice('weight', (0, 1)):
        w.register(C.mod('controllers').WeightController())
    flat, state, model = [C.choice(x, (False, True)) for x in ('flat', 'state', 'model')]
    tr = C.choice('tr', (True, True, False))
    d = tempfile.mkdtemp(prefix='pvc-log')
    try:
        name = os.path.join(d, 'log')
        pick = C.choice('pickle', (0, 1))
        group = C.choice('group', ('/', 'one', '/One/two'))
        kw = dict(save_transforms=tr, save_state=state, save_model=model, flat=flat)
        if pick:
            obs = ob.PickleLogger(name, protocol=C.choice('proto', (0, 2)), **kw)
        else:
            obs = ob.Hdf5Logger(name, group=group, mode=C.choice('mode', ('a', 'w')), **kw)
        moving = list(w.itermovingsubframes())
        # (a moving frame that ends a joint has two values of the same name: not compared)
        clash = [l.f1 for l in R.links if isinstance(l.f1, core.MovingSubFrame)]
        past, again = [], 0
        for run in range(C.choice('runs', (1, 2))):
            if run:
                # again, with the same logger, or another one in the same file
                rest = C.choice('rest', (0, 1))
                for i, l in enumerate(R.links):
                    if gen.size(l.kind):
                        l.joint.gvel[:] = 0. if rest else \
                            C.vec('again%d' % i, gen.size(l.kind), -1, 1)
                if not pick:
                    if C.choice('over', (0, 1)):     # over what was there
                        past, again = [], n
                    elif group == '/':
                        break
                    else:
                        group = 'again/' + group
                    obs = ob.Hdf5Logger(name, group=group, **kw)
            rows = []

            class Check(core.Observer):
                def init(self, world, timeline):
                    pass

                def update(self, dt):
                    r = {('timeline',): w.current_time}
                    for l in R.order():
                        if state:
                            r['gpositions', l.joint.name] = np.array(l.joint.gpos)
                            r['gvelocities', l.joint.name] = np.array(l.joint.gvel)
                        if tr and flat:
                            r['transforms', l.body.name] = R.kinematics(l.body)[0]
                            r['transforms', 'ground'] = np.eye(4)
                        elif tr and not [f for f in clash if f is l.f1]:
                            r['transforms', l.f1.name] = l.joint.pose
                    for f in moving if tr else []:
                        if not [x for x in clash if x is f] or flat:
                            r['transforms', f.name] = f.pose if flat else f.bpose
                    if model:
                        for k in ('gvel', 'mass', 'admittance', 'nleffects', 'gforce'):
                            r['model', k] = np.array(getattr(w, k))
                    rows.append(r)

                def finish(self):
                    pass
            n = again or C.choice('n%d' % run, (1, 2, 3))
            again = 0
            times = some_timeline(C, n + 1, 'T%d' % run)
            core.simulate(w, times, [obs, Check()])
            if pick:
                past = []
            past.append((group, rows))
            for grp, rows in past:
                same_file(C, name, grp, rows, pick, tr, state, model, flat, clash)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------ C41
@contract('C41', bounded=BOUND % 6 + ', up to six things in it', **KW)
def whole_walk(C):
    from c_build import Visitor
    core, sh, cs, ct = (C.mod('core'), C.mod('shapes'), C.mod('constraints'), C.mod('controllers'))
    R = gen.robot(C, 1, 6, dyn=False)
    w = R.w
    bodies = [w.ground] + R.bodies
    things, frames = [], []

    def frame(f):
        if not isinstance(f, core.Body) and not [x for x in frames if x is f]:
            frames.append(f)
    for l in R.links:
        frame(l.f0)
        frame(l.f1)
    if C.choice('init', (0, 1)):
        w.init()
        w.update_dynamic()
    for i in range(C.choice('things', (0, 1, 2, 3, 6))):
        tag = 'x%d' % i
        b = bodies[C.choice(tag + 'b', tuple(range(len(bodies))))]
        old = [f for f in frames if f.body is b]
        if old and C.choice(tag + 'old', (0, 1)):
            f = old[C.choice(tag + 'which', tuple(range(len(old))))]
        else:
            f = gen.some_frame(C, R, b, tag)[0]
        kind = C.choice(tag + 'kind', ('frame', 'point', 'sphere', 'box', 'plane', 'cylinder',
                                       'ball', 'weight', 'limits', 'contact'))
        if kind == 'frame':
            o = f
        elif kind == 'weight':
            o = ct.WeightController()
        elif kind == 'limits':
            l = R.links[C.choice(tag + 'l', tuple(range(len(R.links))))]
            if l.kind not in LINEAR:
                continue
            n = gen.size(l.kind)
            o = cs.JointLimits(l.joint, [-1.] * n, [1.] * n)
        elif kind == 'ball':
            o = cs.BallAndSocketConstraint(frames=(f, w.ground))
            o._frames_known = True
        elif kind == 'contact':
            o = cs.SoftFingerContact((sh.Sphere(f, 1.), sh.Point(w.ground)), .5)
        else:
            o = {'point': lambda: sh.Point(f), 'sphere': lambda: sh.Sphere(f, 1.),
                 'box': lambda: sh.Box(f, (1., 2., 3.)), 'plane': lambda: sh.Plane(f),
                 'cylinder': lambda: sh.Cylinder(f, 1., 2.)}[kind]()
        for k in range(C.choice(tag + 'times', (1, 1, 2))):
            w.register(o)
        if isinstance(o, core.Constraint) and C.choice(tag + 'off', (0, 0, 1)):
            o.disable()
        if isinstance(o, core.Shape):
            frame(f)
        if o is f:
            frame(f)
        elif not isinstance(o, core.Frame):
            things.append(o)
    name = C.choice('names', ('any', 'same'))
    if name == 'same':
        for x in things + frames + R.bodies:
            x.name = 'x'
    poke(w, 'current_time', C.real('time', 0, 9))
    for again in (0, 1):
        v = Visitor()
        w.parse(v)
        log = v.log
        C.true('start', log[0][0] == 'start' and log[0][1] is w.ground and
               [x[0] for x in log].count('start') == 1)
        C.eq('up', log[0][2], w.up)
        C.eq('time', log[0][3], w.current_time)
        reg = [(i, x[1]) for i, x in enumerate(log) if x[0] == 'register']
        links = [(i,) + x[1:] for i, x in enumerate(log) if x[0] == 'link']
        order = R.order()
        C.true('joints, depth first', len(links) == len(order) and all(
            [same(x[1:], (l.f0, l.joint, l.f1)) for x, l in zip(links, order)]))
        where = {}
        for i, o in reg:
            where.setdefault(id(o), []).append(i)
        sub = list(w.itersubframes())
        C.true('frames', all([[x for x in sub if x is f] for f in frames]))
        C.true('shapes of the world', same(w.itershapes(), [
            o for o in things if isinstance(o, core.Shape)]))
        everything = bodies + sub + things
        for o in everything:
            C.true('visited once', len(where.get(id(o), ())) == 1, repr(o))
        C.true('nothing else', len(reg) == len(everything))
        if len(reg) != len(everything) or len(where) != len(everything) or \
                len(links) != len(order):
            return
        C.true('bodies, depth first', same([o for i, o in reg if isinstance(o, core.Body)],
                                           [w.ground] + [l.body for l in order]))
        lat = dict([(id(x[2]), x[0]) for x in links])
        for l in order:
            C.true('a body after its joint', lat[id(l.joint)] < where[id(l.body)][0])
            C.true('a joint after the frames it starts from',
                   where[id(l.f0)][0] < lat[id(l.joint)])
        for f in sub:
            C.true('a frame after its body', where[id(f.body)][0] < where[id(f)][0])
        for o in things:
            if isinstance(o, core.Shape):
                C.true('a shape after its frame', where[id(o.frame)][0] < where[id(o)][0])
        end = [where[id(o)][0] for o in things if isinstance(o, (core.Controller,
                                                                 core.Constraint))]
        rest = [where[id(o)][0] for o in everything if not isinstance(
            o, (core.Controller, core.Constraint))] + list(lat.values())
        C.true('constraints and controllers at the end', not end or min(end) > max(rest))


# ------------------------------------------------------------------------ C42
@contract('C42', bounded=BOUND % 5 + ', up to five shapes', sym=False, samples=500, budget=60,
          rt=1e-7)
def whole_scene(C):
    from c_visu import recorder, composed, one_parent
    core, S = C.mod('core'), C.mod('shapes')
    wd, rec = recorder(C)
    R = gen.robot(C, 1, 5, ends=('body', 'sub', 'sub'))
    w = R.w
    frames = [(w.ground, w.ground, None)] + [(b, b, None) for b in R.bodies]
    for l in R.links:
        for f, b, H in ((l.f0, l.parent, l.H0), (l.f1, l.body, l.H1)):
            if not isinstance(f, core.Body):
                frames.append((f, b, H))
    for i in range(C.choice('frames', (0, 1, 2))):
        b = frames[C.choice('on%d' % i, tuple(range(1 + len(R.bodies))))][1]
        f, H = gen.some_frame(C, R, b, 'f%d' % i, ('sub', 'moving'))
        w.register(f)
        frames.append((f, b, H))
    shapes = []
    for i in range(C.choice('shapes', (0, 1, 2, 5))):
        f, b, H = frames[C.choice('at%d' % i, tuple(range(len(frames))))]
        k = C.choice('shape%d' % i, ('ellipsoid', 'point', 'box', 'cylinder', 'plane'))
        d = C.vec('dim%d' % i, 3, .05, 2)
        if k == 'ellipsoid':
            s, d = S.Sphere(f, d[0]), [d[0]] * 3
        elif k == 'point':
            s, k, d = S.Point(f), 'ellipsoid', [.008] * 3
        elif k == 'box':
            s = S.Box(f, d)
        elif k == 'cylinder':
            s, d = S.Cylinder(f, d[0], d[1]), [d[0], d[1]]
        else:
            n = C.unit('n%d' % i)
            d = list(n) + [d[0]]
            s = S.Plane(f, d)
        s.name = 'shape %d' % i
        w.register(s)
        shapes.append((s, f, b, H, k, np.array(d, dtype=float)))
    names = C.choice('names', ('unique', 'none', 'same'))
    for i, x in enumerate(frames):
        if i:
            x[0].name = {'unique': 'f%d' % i, 'none': None, 'same': 'x'}[names]
    w.init()
    w.update_dynamic()
    flat = C.choice('flat', (False, True))
    d = wd.Drawer(rec, flat)
    w.parse(d)
    d.finish()
    C.true('finished', rec.finished == 1)
    one_parent(C, rec)
    C.true('all the frames', set([id(f[0]) for f in frames]) ==
           set([id(f) for f in d.frame_nodes]))
    nodes = [n for n in rec.all if n.kind == 'frame']
    C.true('one node for each', len(nodes) == len(frames) - 1 and
           len(set([id(n) for n in d.frame_nodes.values()])) == len(frames))
    for f, b, H in frames:
        if f not in d.frame_nodes:
            continue
        n = d.frame_nodes[f]
        C.eq('pose', composed(C, n), R.kinematics(b, H)[0])
        C.true('name', n.kind == 'ground' or n.name == f.name)
        C.true('arrows', n.kind == 'ground' or
               len([k for k in n.kids if k.kind == 'arrows']) == 1)
    color = {}
    for l in R.links:
        m = R.mass[id(l.body)]
        n = [x for x in rec.all if x.kind == 'inertia' and
             x.parents[0] is d.frame_nodes[l.body]]
        C.true('inertia', len(n) == (1 if np.abs(m).max() > 0 else 0))
        for x in n:
            C.eq('mass', x.inertia, m)
            color[id(l.body)] = x.color
    C.true('inertias', len([n for n in rec.all if n.kind == 'inertia']) == len(color))
    # (the palette has a limited number of colors)
    C.true('different colors', len(color) > 6 or len(set(color.values())) == len(color))
    drawn = [n for n in rec.all if n.kind in ('ellipsoid', 'box', 'cylinder', 'plane')]
    C.true('shapes', len(drawn) == len(shapes))
    # in the order of the walk; each shape has one node of its kind and dimensions on its frame
    for s, f, b, H, k, dims in shapes:
        ns = [n for n in drawn if n.parents[0] is d.frame_nodes[f] and n.kind == k and
              np.allclose(np.asarray(n.dims, dtype=float), dims, atol=1e-9)]
        twins = [x for x in shapes if x[1] is f and x[4] == k and np.allclose(x[5], dims, atol=1e-9)]
        C.true('the shape is drawn once', len(ns) == len(twins))
        C.true('names of the shapes', sorted([str(n.name) for n in ns]) ==
               sorted([str(x[0].name) for x in twins]))
        for n in ns:
            if id(b) in color:
                C.true('color of its body', n.color == color[id(b)])
    # what moves is only what follows a joint or a moving frame
    for l in R.links:
        chain, n = [], d.frame_nodes[l.body]
        while n is not d.frame_nodes[l.parent] and n.kind != 'ground':
            chain.append(n)
            n = n.parents[0]
    moving = [n for n in nodes if not n.const]
    want = len(R.links) + len([f for f in frames if isinstance(f[0], core.MovingSubFrame)])
    C.true('only joints and moving frames move', len(moving) == want,
           '%d / %d' % (len(moving), want))
    if not flat:
        for l in R.links:
            C.eq('transform of a joint', d.transform_nodes[l.joint].pose, l.joint.pose)
            C.true('which moves', not d.transform_nodes[l.joint].const)
