"""Contract contexts: one contract text, two back ends.

SymCtx executes the instrumented code on symbolic reals and emits obligations;
ConCtx executes the untouched modules of /repo on floats (replay of witnesses
and the bounded run-time check of the same contract).
"""
import math
import itertools
import numpy as np
from fractions import Fraction
from . import sym as Y
from . import load as LD
from . import loops as LP
from . import npx
from .sym import Sym, Unsupported, SymZeroDivision
from .explore import Infeasible


class ContractFailure(Exception):
    """Concrete back end: an obligation failed."""

    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name = name
        self.detail = detail


class Base(object):
    RT = 1e-7

    # ---------------------------------------------------------- input makers
    def pos(self, name, hi=None):
        return self.real(name, 0, hi, strict=True)

    def vec(self, name, n=3, lo=None, hi=None, strict=False, pre=False):
        return self.arr([self.real('%s%d' % (name, i), lo, hi, strict, pre=pre)
                         for i in range(n)])

    def mat(self, name, n, m, lo=None, hi=None):
        return self.arr([[self.real('%s%d_%d' % (name, i, j), lo, hi) for j in range(m)]
                         for i in range(n)])

    def sym_mat(self, name, n):
        r = self.mat(name, n, n)
        for i in range(n):
            for j in range(i):
                r[i, j] = r[j, i]
        return r

    def quat(self, name):
        """(w, x, y, z), a unit quaternion with w >= 0: every rotation."""
        return self._quat(name)

    def rot_of(self, q):
        w, x, y, z = q
        return self.arr([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])

    def rot(self, name):
        return self.rot_of(self.quat(name))

    def unit(self, name):
        """A unit vector (every direction)."""
        return self.arr(self._unit(name))

    def hom(self, name, bound=None):
        return self.mkhom(self.rot(name + '_q'),
                          self.vec(name + '_p', 3, None if bound is None else -bound, bound))

    def mkhom(self, R, p):
        H = self.eye(4)
        H[0:3, 0:3] = R
        H[0:3, 3] = p
        return H

    def eye(self, n):
        r = self.zeros((n, n))
        for i in range(n):
            r[i, i] = self.one
        return r

    def skew(self, v):
        z = 0 * v[0]
        return self.arr([[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]])

    def diag(self, v):
        r = self.zeros((len(v), len(v)))
        for i, x in enumerate(v):
            r[i, i] = x
        return r

    # spec functions (mathematical definitions, independent of the code)
    def Ad(self, H):
        R = H[0:3, 0:3]
        p = H[0:3, 3]
        A = self.zeros((6, 6))
        A[0:3, 0:3] = R
        A[3:6, 3:6] = R
        A[3:6, 0:3] = self.skew(p) @ R
        return A

    def ad(self, t):
        A = self.zeros((6, 6))
        A[0:3, 0:3] = self.skew(t[0:3])
        A[3:6, 3:6] = self.skew(t[0:3])
        A[3:6, 0:3] = self.skew(t[3:6])
        return A

    def hinv(self, H):
        r = self.eye(4)
        r[0:3, 0:3] = H[0:3, 0:3].T
        r[0:3, 3] = -(H[0:3, 0:3].T @ H[0:3, 3])
        return r

    def hat(self, t):
        """se(3) matrix of a twist (w, v)."""
        r = self.zeros((4, 4))
        r[0:3, 0:3] = self.skew(t[0:3])
        r[0:3, 3] = t[3:6]
        return r

    def block(self, rows):
        return np.block(rows)

    def spd(self, name, n, lo=None):
        """Every symmetric positive definite n x n matrix (Cholesky)."""
        Lm = self.zeros((n, n))
        for i in range(n):
            for j in range(i):
                Lm[i, j] = self.real('%s_l%d%d' % (name, i, j), -2, 2)
            Lm[i, i] = self.real('%s_l%d%d' % (name, i, i), 0, 3, strict=True, lo_sample=.3)
        return Lm @ Lm.T

    def inertia(self, name, m, com, Ic):
        """Spatial mass matrix of a body of mass m, com offset, inertia at the com."""
        M = self.zeros((6, 6))
        S = self.skew(com)
        M[0:3, 0:3] = Ic - m * (S @ S)
        M[0:3, 3:6] = m * S
        M[3:6, 0:3] = -m * S
        M[3:6, 3:6] = m * self.eye(3)
        return M

    def massmatrix(self, name, full=False):
        m = self.real(name + '_m', 0, 100, strict=True, lo_sample=.3)
        com = self.vec(name + '_com', 3, -3, 3)
        Ic = self.spd(name + '_I', 3)
        M = self.inertia(name, m, com, Ic)
        return (M, m, com, Ic) if full else M

    # obligations ----------------------------------------------------------
    def eqs(self, pairs):
        for n, a, b in pairs:
            self.eq(n, a, b)

    def frame(self, name, *arrays):
        """Snapshot for a frame condition."""
        return [(a, self.snap(a)) for a in arrays]

    def unchanged(self, name, snaps):
        for i, (a, s) in enumerate(snaps):
            self.kept('%s[%d]' % (name, i), a, s)

    def kept(self, name, a, s):
        self.eq(name, a, s)

    def snap(self, a):
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, (list, tuple)):
            return [self.snap(x) for x in a]
        return a

    def call(self, fn, *args, **kw):
        """Call with the frame condition: array arguments are not modified."""
        name = getattr(fn, '__name__', 'call')
        snaps = [(a, self.snap(a)) for a in args if isinstance(a, np.ndarray)]
        r = fn(*args, **kw)
        for i, (a, s) in enumerate(snaps):
            self.kept('%s.frame.arg%d' % (name, i), a, s)
        return r

    def is_fresh(self, name, result, *arrays):
        """The result does not share memory with the given arrays."""
        for i, a in enumerate(arrays):
            self.true('%s.fresh%d' % (name, i), not np.shares_memory(result, a))


class Rot(object):
    def __init__(self, C, q):
        self.q = q
        self.R = C.rot_of(q)


def _rodrigues(w):
    t = float(np.linalg.norm(w))
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if t < 1e-12:
        return np.eye(3) + K
    return np.eye(3) + math.sin(t) / t * K + (1 - math.cos(t)) / t ** 2 * (K @ K)


class SymCtx(Base):
    sym = True

    def __init__(self, ex, opts=None):
        self.ex = ex
        self.S = Y.cur()
        self.loader = LD.Loader((opts or {}).get('loops', False))
        self.choices = {}
        self.assumptions = []
        self.one = Y.ONE
        self.opts = opts or {}
        npx.STUBS.clear()
        del npx.CERTIFIED[:]

    # modules
    def mod(self, name):
        return self.loader.load('arboris.' + name if name else 'arboris')

    def stub(self, fname, fn):
        """Contract for a numpy.linalg function, given by the harness."""
        npx.STUBS[fname] = fn

    def use_contract(self, mod, fname, spec, prop):
        """Calls of mod.fname are checked against its contract instead of its body:
        ``spec`` states its precondition (obligations) and returns any result its
        postcondition allows. To be called before the modules of the callers are loaded."""
        m = self.mod(mod)
        if hasattr(m, fname):
            setattr(m, fname, spec)
            self.note('calls of %s.%s use its contract, which %s verifies' % (mod, fname, prop))

    def external(self, name, module, text):
        """Contract of a package outside of the repository. To be called before the
        modules that import it are loaded."""
        self.loader.stub(name, module)
        self.note(text)

    def builtin(self, name, fn):
        self.loader.builtins[name] = fn

    def file_mod(self, name):
        """A module of the repository without the __init__ of its package."""
        self.loader.bare(name)
        return self.mod(name)

    def certify_pd(self, M, why):
        """Lemma: M is positive definite."""
        npx.CERTIFIED.append(np.asarray(M))
        self.note('positive definite: ' + why)

    def any_number(self, name, make, end=None, **k):
        """A sequence of any length (loop mode): its first element and a generic one, made by
        ``make(tag)``; ``end(tag)`` is called after each iteration."""
        return LP.Base(name, make, end, **k)

    @property
    def np(self):
        return self.loader.num

    pi = property(lambda self: Y.PI())

    def real(self, name, lo=None, hi=None, strict=False, lo_sample=None, pre=False):
        """lo/hi guide the sampling; with pre=True they are preconditions, otherwise only the
        sign they give is."""
        lo, hi = [x.constval() if isinstance(x, Sym) else x for x in (lo, hi)]
        return Y.var(name, ('real', lo, hi, strict, pre))

    def const(self, x):
        return Y.Sym.of(x)

    def _quat(self, name):
        c = []
        for i, k in enumerate('xyz'):
            c.append(Y.var('%s_%s' % (name, k), ('quat', name, i + 1)))
        w = Y.sqrt(1 - c[0] * c[0] - c[1] * c[1] - c[2] * c[2])
        return [w] + c

    def _unit(self, name):
        c = [Y.var('%s_%s' % (name, k), ('unit', name, i)) for i, k in enumerate('xyz')]
        (mono, _), = c[2].num.items()
        (gi, _), = Y.mono_gens(mono)
        g = Y.S.gens[gi]
        if g.rule is None:
            Y.S.set_rule(g, (1 - c[0] * c[0] - c[1] * c[1]).num)
        return c

    def arr(self, x):
        return npx.array(x) if _anyf(x) else npx.array(x, dtype=float)

    def zeros(self, shape):
        return npx.zeros(shape)

    def sin(self, x):
        return Y.sin(x)

    def cos(self, x):
        return Y.cos(x)

    def sqrt(self, x):
        return Y.sqrt(x)

    def norm(self, v):
        return npx.norm(v)

    def det(self, A):
        return npx._det(np.asarray(A))

    def inv(self, A):
        A = np.asarray(A)
        return npx.adjugate(A) / npx._det(A)

    def choice(self, label, options):
        i = self.ex.choose(len(options), label)
        self.choices[label] = i
        return options[i]

    # assumptions (preconditions)
    def assume_lt(self, a, b, text=None):
        self.ex.assume('<', Y.Sym.of(a) - b, True, text)

    def assume_le(self, a, b, text=None):
        self.ex.assume('<=', Y.Sym.of(a) - b, True, text)

    def assume_ne(self, a, b, text=None):
        self.ex.assume('==', Y.Sym.of(a) - b, False, text)

    def assume(self, b):
        if not b:
            raise Infeasible()

    def fact(self, op, d, text):
        """A mathematical fact about the symbols (recorded as an assumption)."""
        self.ex.axioms.append((op, Y.Sym.of(d), True))
        self.ex.learn(op, Y.Sym.of(d), True)
        if text not in self.assumptions:
            self.assumptions.append(text)

    # obligations
    def eq(self, name, a, b, tol=None):
        A, B = _obj(a), _obj(b)
        if A.shape != B.shape:
            self.true(name + '.shape', False, 'shapes %s / %s' % (A.shape, B.shape))
            return
        for ix in np.ndindex(*A.shape):
            x, y = A[ix], B[ix]
            if isinstance(x, (Sym, int, float, np.number)) and \
                    isinstance(y, (Sym, int, float, np.number)):
                self.ex.prove('==', Y.Sym.of(x) - Y.Sym.of(y), name + _ix(ix))
            else:
                self.true(name + _ix(ix), x is y or x == y, '%r / %r' % (x, y))

    def le(self, name, a, b, tol=None):
        A, B = np.broadcast_arrays(_obj(a), _obj(b))
        for ix in np.ndindex(*A.shape):
            self.ex.prove('<=', Y.Sym.of(A[ix]) - Y.Sym.of(B[ix]), name + _ix(ix))

    def nil(self, name, v):
        """The vector v is zero: its components are known to be, or its norm is not positive."""
        xs = [Y.Sym.of(x) for x in np.ravel(_obj(v))]
        if all([x.iszero() or self.ex.cache.get(self.ex.key('==', Y.Sym(x.num))) is True
                for x in xs]):
            self.true(name, True)
        else:
            self.le(name, self.norm(v), 0)

    def lt(self, name, a, b):
        A, B = np.broadcast_arrays(_obj(a), _obj(b))
        for ix in np.ndindex(*A.shape):
            self.ex.prove('<', Y.Sym.of(A[ix]) - Y.Sym.of(B[ix]), name + _ix(ix))

    def true(self, name, cond, detail=''):
        self.ex.prove_true(bool(cond), name, detail)

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.true(name, True)
            return True
        except (Infeasible, Unsupported, SymZeroDivision):
            raise
        except Exception as e:
            self.true(name, False, 'raised %s: %s' % (type(e).__name__, e))
            return False
        self.true(name, False, 'nothing raised')
        return False

    # derivatives
    def rotstate(self, name):
        return Rot(self, self._quat(name))

    def deriv(self, f, items, rates):
        """d/dt f(items(t)); an item is a base variable or a Rot (rate: body angular velocity)."""
        m = {}
        args = []
        for v, d in zip(items, rates):
            if isinstance(v, Rot):
                for x, dx in zip(v.q[1:], self.quat_rate(v.q, d)):
                    m[x.varname()] = dx
                # d(w)/dt, stated directly: w may be zero
                (mono, c), = v.q[0].num.items()
                (gi, e), = Y.mono_gens(mono)
                assert e == 1 and c == 1 and v.q[0].dc == 1
                m[gi] = -(v.q[1] * d[0] + v.q[2] * d[1] + v.q[3] * d[2]) / 2
                args.append(v.R)
            else:
                v = Y.Sym.of(v)
                if v.varname() is None:
                    raise Unsupported('derivative along a non variable')
                m[v.varname()] = Y.Sym.of(d)
                args.append(v)
        r = f(*args)
        if isinstance(r, np.ndarray):
            out = np.empty(r.shape, dtype=object)
            for ix in np.ndindex(*r.shape):
                out[ix] = Y.diff(r[ix], m)
            return out
        return Y.diff(r, m)

    def quat_rate(self, q, w):
        """d(x, y, z)/dt of the quaternion of R with R' = R skew(w)."""
        a, x, y, z = q
        h = Fraction(1, 2)
        return [(a * w[0] + y * w[2] - z * w[1]) * h,
                (a * w[1] + z * w[0] - x * w[2]) * h,
                (a * w[2] + x * w[1] - y * w[0]) * h]

    def diff(self, x, m):
        return Y.diff(x, m)

    def concrete(self):
        return False

    def note(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def value(self, x):
        return x


def _anyf(x):
    return npx.has_sym(x)


def _obj(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=object)
    r = np.empty((), dtype=object)
    r[()] = a
    return r


def _ix(ix):
    return '' if not ix else '[' + ','.join(map(str, ix)) + ']'


_FILES = {}


class ConCtx(Base):
    sym = False

    def __init__(self, env, mods, opts=None, choices=None, rt=1e-7):
        self.env = env
        self.mods = mods
        self.choices = dict(choices or {})
        self.assumptions = []
        self.one = 1.
        self.nobl = 0
        self.rt = rt
        self.fail = []
        self.opts = opts or {}
        self.fuzzy = 0

    def mod(self, name):
        return self.mods('arboris.' + name if name else 'arboris')

    def stub(self, fname, fn):
        pass

    def use_contract(self, mod, fname, spec, prop):
        pass

    def external(self, name, module, text):
        pass

    def builtin(self, name, fn):
        pass

    def file_mod(self, name):
        import importlib.util
        from . import load as LD
        full = 'arboris.' + name
        self.mod('core')
        self.mod('shapes')
        key = '_pvc_' + full
        if key not in _FILES:
            spec = importlib.util.spec_from_file_location(full, LD.path_of(full)[0])
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            _FILES[key] = m
        return _FILES[key]

    def certify_pd(self, M, why):
        pass

    def kept(self, name, a, s):
        if isinstance(a, np.ndarray) and isinstance(s, np.ndarray) and a.dtype != object:
            self.true(name, a.shape == s.shape and a.dtype == s.dtype
                      and np.array_equal(a, s), 'modified: %r became %r' % (s, a))
        else:
            self.eq(name, a, s)

    np = np
    pi = math.pi

    def real(self, name, lo=None, hi=None, strict=False, lo_sample=None, pre=False):
        if lo_sample is not None and name not in self.env.over:
            v = self.env.base(name, ('real', lo_sample, hi, strict))
        else:
            v = self.env.base(name, ('real', lo, hi, strict))
        return float(v)

    def const(self, x):
        return float(x)

    def _quat(self, name):
        c = [float(self.env.base('%s_%s' % (name, k), ('quat', name, i + 1)))
             for i, k in enumerate('xyz')]
        n = math.sqrt(sum(a * a for a in c))
        if n > 1:
            c = [a / n for a in c]
        w = math.sqrt(max(0., 1 - sum(a * a for a in c)))
        return [w] + c

    def _unit(self, name):
        c = np.array([float(self.env.base('%s_%s' % (name, k), ('unit', name, i)))
                      for i, k in enumerate('xyz')])
        return list(c / np.linalg.norm(c))

    def arr(self, x):
        return np.array(x, dtype=float)

    def zeros(self, shape):
        return np.zeros(shape)

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    sqrt = staticmethod(lambda x: math.sqrt(max(x, 0.)))
    norm = staticmethod(np.linalg.norm)
    det = staticmethod(np.linalg.det)
    inv = staticmethod(np.linalg.inv)

    def choice(self, label, options):
        i = self.choices.get(label)
        if i is None:
            i = self.env.rng('choice:' + label).randrange(len(options))
            self.choices[label] = i
        return options[i]

    def assume_lt(self, a, b, text=None):
        if not a < b:
            raise Infeasible()

    def assume_le(self, a, b, text=None):
        if not a <= b + 1e-12 * (1 + abs(b)):
            raise Infeasible()

    def assume_ne(self, a, b, text=None):
        if abs(a - b) < 1e-9:
            raise Infeasible()

    def assume(self, b):
        if not b:
            raise Infeasible()

    def fact(self, op, d, text):
        pass

    def _bad(self, name, detail):
        self.fail.append((name, detail))

    def eq(self, name, a, b, tol=None):
        A = np.asarray(a) if isinstance(a, np.ndarray) else _obj(a)
        B = np.asarray(b) if isinstance(b, np.ndarray) else _obj(b)
        self.nobl += max(1, A.size)
        if A.shape != B.shape:
            return self._bad(name + '.shape', 'shapes %s / %s' % (A.shape, B.shape))
        scale = 1.
        for X in (A, B):
            for v in X.reshape(-1):
                if isinstance(v, (int, float, np.number)) and math.isfinite(v):
                    scale = max(scale, abs(float(v)))
        rt = tol if tol is not None else self.rt
        for ix in np.ndindex(*A.shape):
            x, y = A[ix], B[ix]
            if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)):
                if not (abs(x - y) <= rt * scale):
                    return self._bad(name + _ix(ix), 'got %r, contract says %r' % (x, y))
            elif isinstance(x, complex) or isinstance(x, np.complexfloating):
                if not abs(x - y) <= rt * scale:
                    return self._bad(name + _ix(ix), 'got %r, contract says %r' % (x, y))
            elif not (x is y or x == y):
                return self._bad(name + _ix(ix), 'got %r, contract says %r' % (x, y))

    def le(self, name, a, b, tol=None):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        self.nobl += max(1, A.size)
        rt = tol if tol is not None else self.rt
        for ix in np.ndindex(*A.shape):
            x, y = float(A[ix]), float(B[ix])
            if not (x <= y + rt * max(1., abs(x), abs(y))):
                return self._bad(name + _ix(ix), '%r <= %r does not hold' % (x, y))

    lt = le

    def nil(self, name, v):
        self.le(name, np.linalg.norm(v), 0)

    def true(self, name, cond, detail=''):
        self.nobl += 1
        if not cond:
            self._bad(name, detail or 'does not hold')

    def raises(self, name, exc, fn):
        self.nobl += 1
        try:
            fn()
        except exc:
            return True
        except Infeasible:
            raise
        except Exception as e:
            self._bad(name, 'raised %s: %s' % (type(e).__name__, e))
            return False
        self._bad(name, 'nothing raised')
        return False

    def rotstate(self, name):
        return Rot(self, self._quat(name))

    def deriv(self, f, items, rates):
        def at(h):
            args = []
            for v, d in zip(items, rates):
                if isinstance(v, Rot):
                    args.append(v.R @ _rodrigues(h * np.asarray(d, dtype=float)))
                else:
                    args.append(float(v) + h * float(d))
            return np.array(f(*args), dtype=float)
        n = max([1.] + [abs(float(x)) for d in rates for x in np.ravel(d)])

        def D(h):
            return (at(h) - at(-h)) / (2 * h)
        h = 1e-3 / n
        r = (4 * D(h) - D(2 * h)) / 3
        return r if r.shape else float(r)

    quat_rate = SymCtx.quat_rate

    def concrete(self):
        return True

    def note(self, text):
        pass

    def value(self, x):
        return x
