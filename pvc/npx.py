"""Symbolic numpy: the contracts of the numpy functions the code calls.

Arrays are genuine numpy object arrays (so views, slices, in-place updates and
broadcasting are numpy's own); only the numerical leaves are replaced.
"""
import itertools
import operator
import types
import numpy as np
from . import sym as Y
from .sym import Sym, Unsupported, SymZeroDivision

ND = np.ndarray


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float.__mro__[0]) or isinstance(x, Sym)


class FloatShim(float, metaclass=FloatMeta):
    """``float`` as seen by the verified code."""
    def __new__(cls, x=0.):
        if isinstance(x, Sym):
            return x
        if isinstance(x, ND) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return lit(float(x))


def lit(x):
    if isinstance(x, str):
        x = float(x)
    return Y.Sym.of(x)


_FLOATS = (float, FloatShim, np.float64, 'float', 'float64', 'd', 'f8', np.double)


def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, ND):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, EigVals):
        return True
    return False


def _is_float_dtype(dt):
    return dt is None or dt in _FLOATS or (isinstance(dt, np.dtype) and dt.kind in 'fO') \
        or dt is object


def _conv(a):
    """Object array whose numeric entries are Sym."""
    out = np.empty(a.shape, dtype=object)
    fo = out.reshape(-1) if out.ndim else None
    if a.ndim == 0:
        v = a.item()
        out[()] = v if isinstance(v, Sym) else (Y.Sym.of(v) if _num(v) else v)
        return out
    for i, v in enumerate(a.reshape(-1)):
        fo[i] = v if isinstance(v, Sym) else (Y.Sym.of(v) if _num(v) else v)
    return out


def _num(v):
    return isinstance(v, (int, float, np.number, np.bool_))


def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    if dtype is not None and not _is_float_dtype(dtype):
        k = np.dtype(dtype).kind
        a = np.array(obj, dtype=object) if has_sym(obj) else np.array(obj)
        if has_sym(obj) and k in 'iub':
            f = int if k in 'iu' else bool
            return np.array([f(v) for v in a.reshape(-1)], dtype=dtype).reshape(a.shape)
        if k in 'f' and np.dtype(dtype).itemsize < 8:
            raise Unsupported('low precision dtype')
        return np.array(obj, dtype=dtype)
    if isinstance(obj, EigVals):
        raise Unsupported('array of eigenvalues')
    if isinstance(obj, ND) and obj.dtype != object:
        a = np.array(obj)
    elif has_sym(obj):
        a = np.array(obj, dtype=object)
    else:
        a = np.array(obj)
    if a.dtype.kind in 'iub' and dtype is None:
        r = a
    elif a.dtype.kind == 'O' and not any(isinstance(v, Sym) or _num(v) for v in a.reshape(-1)):
        r = a
        if a.size == 0 and dtype is not None:
            r = a
    elif a.dtype.kind in 'SU':
        r = a
    else:
        r = _conv(a)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, ND) and (dtype is None or (_is_float_dtype(dtype) and obj.dtype == object)):
        return obj
    return array(obj, dtype=dtype)


def _filled(shape, v, dtype=None):
    if dtype is not None and not _is_float_dtype(dtype):
        return np.full(shape, v, dtype=dtype)
    if isinstance(shape, Sym):
        shape = int(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    r = np.empty(shape, dtype=object)
    r.fill(Y.Sym.of(v))
    return r


def zeros(shape, dtype=None, **kw):
    return _filled(shape, 0, dtype)


def ones(shape, dtype=None, **kw):
    return _filled(shape, 1, dtype)


def empty(shape, dtype=None, **kw):
    if dtype is not None and not _is_float_dtype(dtype):
        return np.zeros(shape, dtype=dtype)
    # uninitialised memory: arbitrary values
    r = np.empty(shape, dtype=object)
    n = len(Y.cur().gens)
    for i in range(r.size):
        r.reshape(-1)[i] = Y.var('uninit%d_%d' % (n, i))
    return r


def full(shape, v, dtype=None, **kw):
    return _filled(shape, v, dtype)


def zeros_like(a, dtype=None, **kw):
    a = asarray(a)
    if dtype is None and a.dtype != object:
        return np.zeros_like(a)
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **kw):
    a = asarray(a)
    if dtype is None and a.dtype != object:
        return np.ones_like(a)
    return ones(a.shape, dtype)


def empty_like(a, dtype=None, **kw):
    a = asarray(a)
    if dtype is None and a.dtype != object:
        return np.zeros_like(a)
    return empty(a.shape, dtype)


def full_like(a, v, **kw):
    return full(asarray(a).shape, v)


def eye(n, m=None, k=0, dtype=None, **kw):
    if dtype is not None and not _is_float_dtype(dtype):
        return np.eye(n, m, k, dtype=dtype)
    m = n if m is None else m
    r = zeros((n, m))
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = Y.ONE
    return r


def identity(n, **kw):
    return eye(n)


def diag(v, k=0):
    v = asarray(v)
    if v.dtype != object:
        return np.diag(v, k)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = zeros((n, n))
        for i in range(len(v)):
            if k >= 0:
                r[i, i + k] = v[i]
            else:
                r[i - k, i] = v[i]
        return r
    return np.diag(v, k).copy()


def _fix(r):
    """Results of numpy object reductions: ints/None back to Sym."""
    if isinstance(r, ND) and r.dtype == object:
        f = r.reshape(-1)
        for i in range(f.size):
            if not isinstance(f[i], Sym) and (f[i] is None or _num(f[i])):
                f[i] = Y.Sym.of(0 if f[i] is None else f[i])
        return f.reshape(r.shape)
    if isinstance(r, (int, float)) and not isinstance(r, bool):
        return Y.Sym.of(r)
    return r


def _arr(x):
    return x if isinstance(x, ND) else array(x)


def dot(a, b, out=None):
    if isinstance(a, EigVals) or isinstance(b, EigVals):
        raise Unsupported('eigenvalues')
    a = _arr(a)
    b = _arr(b)
    if a.dtype != object and b.dtype != object:
        return np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes not aligned')
        s = Y.ZERO
        for x, y in zip(a, b):
            s = s + x * y
        r = s
    elif a.ndim <= 2 and b.ndim <= 2:
        A = a[None, :] if a.ndim == 1 else a
        B = b[:, None] if b.ndim == 1 else b
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        m = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            Ai = A[i]
            for j in range(B.shape[1]):
                s = Y.ZERO
                for k in range(A.shape[1]):
                    x = Ai[k]
                    y = B[k, j]
                    if (isinstance(x, Sym) and not x.num) or (isinstance(y, Sym) and not y.num):
                        continue
                    s = s + x * y
                m[i, j] = s
        r = m
        if a.ndim == 1:
            r = r[0]
        if b.ndim == 1:
            r = r[..., 0]
    else:
        r = np.dot(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


def matmul(a, b, out=None, **kw):
    if kw:
        raise Unsupported('matmul keyword')
    a, b = _arr(a), _arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b, out)
    r = np.matmul(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum operand lists')
    if set(kw) - {'optimize', 'out'}:
        raise Unsupported('einsum keyword')
    if kw.get('out') is not None:
        kw['out'][...] = einsum(spec, *ops)
        return kw['out']
    spec = spec.replace(' ', '')
    if '...' in spec:
        ins, arrow, out = spec.partition('->')
        free = [c for c in 'ABCDEFGHIJ' if c not in spec]
        new = []
        most = 0
        for t, o in zip(ins.split(','), ops):
            if '...' in t:
                n = asarray(o).ndim - len(t.replace('...', ''))
                most = max(most, n)
                t = t.replace('...', ''.join(free[:n][::-1]))
            new.append(t)
        if not arrow:
            al = ''.join(ins.replace('...', '').replace(',', ''))
            out = '...' + ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        spec = ','.join(new) + '->' + out.replace('...', ''.join(free[:most][::-1]))
    ins, _, out = spec.partition('->')
    terms = ins.split(',')
    if '->' not in spec:
        al = ''.join(terms)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ops = [asarray(o) for o in ops]
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    r = zeros(tuple(dims[c] for c in out)) if out else None
    acc = Y.ZERO
    sumidx = [c for c in dims if c not in out]
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        s = Y.ZERO
        for si in itertools.product(*[range(dims[c]) for c in sumidx]):
            env.update(zip(sumidx, si))
            p = Y.ONE
            for t, o in zip(terms, ops):
                p = p * o[tuple(env[c] for c in t)]
            s = s + p
        if out:
            r[oi] = s
        else:
            acc = s
    return r if out else acc


def outer(a, b):
    a = asarray(a).reshape(-1)
    b = asarray(b).reshape(-1)
    return a[:, None] * b[None, :]


def _cross3(a, b):
    r = np.empty(3, dtype=object)
    r[0] = a[1] * b[2] - a[2] * b[1]
    r[1] = a[2] * b[0] - a[0] * b[2]
    r[2] = a[0] * b[1] - a[1] * b[0]
    return r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a = asarray(a)
    b = asarray(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('At least one array has zero dimension')
    a = np.moveaxis(a, axisa, -1)
    b = np.moveaxis(b, axisb, -1)
    if a.shape[-1] not in (2, 3) or b.shape[-1] not in (2, 3):
        raise ValueError('incompatible dimensions for cross product')
    if a.shape[-1] == 2 or b.shape[-1] == 2:
        raise Unsupported('planar cross product')
    if a.ndim == 1 and b.ndim == 1:
        return _cross3(a, b)
    a, b = np.broadcast_arrays(a, b)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape[:-1]):
        r[ix] = _cross3(a[ix], b[ix])
    return np.moveaxis(r, -1, axisc)


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        if axes == 0:
            return np.multiply.outer(a, b)
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    ia, ib = [[x] if isinstance(x, int) else list(x) for x in axes]
    ia = [x % a.ndim for x in ia]
    ib = [x % b.ndim for x in ib]
    ka = [i for i in range(a.ndim) if i not in ia]
    kb = [i for i in range(b.ndim) if i not in ib]
    if [a.shape[i] for i in ia] != [b.shape[i] for i in ib]:
        raise ValueError('shape-mismatch for sum')
    A = a.transpose(ka + ia)
    B = b.transpose(ib + kb)
    sh = A.shape[:len(ka)] + B.shape[len(ib):]
    n = 1
    for i in ia:
        n *= a.shape[i]
    r = dot(A.reshape(-1, n), B.reshape(n, -1))
    return r.reshape(sh) if sh else r[0, 0]


def matrix_power(a, n):
    a = asarray(a)
    if n < 0:
        return matrix_power(inv(a), -n)
    r = eye(a.shape[0])
    for _ in range(n):
        r = dot(r, a)
    return r


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


def _map(f):
    def g(x, out=None, **kw):
        if kw:
            raise Unsupported('ufunc keyword')
        if isinstance(out, tuple):
            out = out[0]
        if isinstance(x, Sym) and out is None:
            return f(x)
        a = asarray(x)
        r = np.empty(a.shape, dtype=object)
        if a.ndim == 0:
            r = f(Y.Sym.of(a.item()))
            if out is not None:
                out[...] = r
                return out
            return r
        fl = r.reshape(-1)
        for i, v in enumerate(a.reshape(-1)):
            fl[i] = f(v if isinstance(v, Sym) else Y.Sym.of(v))
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _map2(f):
    def g(x, y, out=None, **kw):
        if kw:
            raise Unsupported('ufunc keyword')
        a, b = np.broadcast_arrays(asarray(x), asarray(y))
        if a.ndim == 0:
            return f(Y.Sym.of(a.item()), Y.Sym.of(b.item()))
        r = np.empty(a.shape, dtype=object)
        fl = r.reshape(-1)
        for i, (u, v) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            fl[i] = f(Y.Sym.of(u), Y.Sym.of(v))
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _smax(a, b):
    return a if a >= b else b


def _smin(a, b):
    return a if a <= b else b


def _sign(a):
    if a == 0:
        return Y.ZERO
    return Y.ONE if a > 0 else -Y.ONE


def _tan(a):
    c, s = Y.cossin(a)
    return s / c


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = asarray(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


sin = _map(Y.sin)
cos = _map(Y.cos)
tan = _map(_tan)
sqrt = _map(Y.sqrt)
absolute = _map(abs)
sign = _map(_sign)
square = _map(lambda v: v * v)
negative = _map(lambda v: -v)
arctan2 = _map2(Y.arctan2)
maximum = _map2(_smax)
minimum = _map2(_smin)
hypot = _map2(lambda a, b: Y.sqrt(a * a + b * b))
power = _map2(lambda a, b: a ** b)
deg2rad = _map(lambda v: v * Y.PI() / 180)
rad2deg = _map(lambda v: v * 180 / Y.PI())
arctan = _map(lambda v: Y.arctan2(v, Y.ONE))
arcsin = _map(lambda v: Y.arctan2(v, Y.sqrt(1 - v * v)))
arccos = _map(lambda v: Y.arctan2(Y.sqrt(1 - v * v), v))


def keep(f):
    """keepdims of a reduction; no other keyword is known."""
    def g(a, axis=None, keepdims=False, out=None, **kw):
        kw = {k: v for k, v in kw.items() if not (k == 'dtype' and _is_float_dtype(v))}
        if kw:
            raise Unsupported('keyword %s' % sorted(kw))
        r = f(a, axis)
        if keepdims:
            a = asarray(a)
            ax = tuple(range(a.ndim)) if axis is None else axis
            r = np.expand_dims(asarray(r), ax)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


@keep
def npsum(a, axis=None):
    a = asarray(a)
    if a.dtype != object:
        return np.sum(a, axis=axis)
    if axis is None:
        s = Y.ZERO
        for v in a.reshape(-1):
            s = s + v
        return s
    return _fix(np.add.reduce(a, axis=axis))


@keep
def mean(a, axis=None):
    a = asarray(a)
    n = a.size if axis is None else int(np.prod(np.take(a.shape, axis)))
    return npsum(a, axis) / Y.Sym.of(n)


@keep
def prod(a, axis=None):
    a = asarray(a)
    if axis is None:
        s = Y.ONE
        for v in a.reshape(-1):
            s = s * v
        return s
    return np.multiply.reduce(a, axis=axis)


def trace(a, **kw):
    a = asarray(a)
    return npsum(np.array([a[i, i] for i in range(min(a.shape))], dtype=object))


def _first_extreme(vals, better):
    b = 0
    for i in range(1, len(vals)):
        if better(vals[i], vals[b]):
            b = i
    return b


def argmin(a, axis=None, **kw):
    a = asarray(a)
    if a.dtype != object:
        return np.argmin(a, axis)
    if axis is None:
        return _first_extreme(list(a.reshape(-1)), lambda x, y: x < y)
    return np.apply_along_axis(lambda v: _first_extreme(list(v), lambda x, y: x < y), axis, a)


def argmax(a, axis=None, **kw):
    a = asarray(a)
    if 'argmax' in STUBS:
        return STUBS['argmax'](a, axis)
    if a.dtype != object:
        return np.argmax(a, axis)
    if axis is None:
        return _first_extreme(list(a.reshape(-1)), lambda x, y: x > y)
    m = np.moveaxis(a, axis, -1)
    r = np.empty(m.shape[:-1], dtype=int)
    for ix in np.ndindex(*r.shape):
        r[ix] = _first_extreme(list(m[ix]), lambda x, y: x > y)
    return r


def argsort(a, axis=-1, **kw):
    a = asarray(a)
    if a.dtype != object:
        return np.argsort(a, axis)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    idx = []
    for i in range(len(a)):
        j = len(idx)
        while j > 0 and a[i] < a[idx[j - 1]]:
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def sort(a, axis=-1, **kw):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('sort of a matrix')
    return a[argsort(a)]


def _along(f, a, axis):
    m = np.moveaxis(a, axis, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*r.shape):
        r[ix] = f(m[ix])
    return r


@keep
def amin(a, axis=None):
    a = asarray(a)
    if a.dtype != object:
        return np.amin(a, axis)
    if axis is None:
        f = list(a.reshape(-1))
        return f[_first_extreme(f, lambda x, y: x < y)]
    return _along(amin, a, axis)


@keep
def amax(a, axis=None):
    a = asarray(a)
    if a.dtype != object:
        return np.amax(a, axis)
    if axis is None:
        f = list(a.reshape(-1))
        return f[_first_extreme(f, lambda x, y: x > y)]
    return _along(amax, a, axis)


def _close(a, b, rtol, atol):
    d = a - b
    if isinstance(d, Sym) and d.iszero():
        return True
    return bool(abs(d) <= atol + rtol * abs(b))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a, b = np.broadcast_arrays(asarray(a), asarray(b))
    rtol, atol = Y.Sym.of(rtol), Y.Sym.of(atol)
    r = np.empty(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape):
        r[ix] = _close(a[ix], b[ix], rtol, atol)
    return r if a.ndim else bool(r[()])


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a, b = np.broadcast_arrays(asarray(a), asarray(b))
    if a.dtype != object and b.dtype != object:
        return np.allclose(a, b, rtol, atol)
    rtol, atol = Y.Sym.of(rtol), Y.Sym.of(atol)
    for ix in np.ndindex(*a.shape):
        if not _close(a[ix], b[ix], rtol, atol):
            return False
    return True


def where(c, *xy):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    if not xy:
        return np.where(c)
    return np.where(c, asarray(xy[0]), asarray(xy[1]))


def _b(x):
    x = np.asarray(x)
    if x.dtype == object:
        return np.array([bool(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return x


def isnan(x):
    x = asarray(x)
    return np.zeros(x.shape, dtype=bool) if x.ndim else False


def isfinite(x):
    x = asarray(x)
    return np.ones(x.shape, dtype=bool) if x.ndim else True


def linspace(a, b, num=50, endpoint=True):
    n = num
    if isinstance(a, ND) or isinstance(b, ND):
        d = (n - 1) if endpoint else n
        return np.array([asarray(a) + (asarray(b) - asarray(a)) * i / d for i in range(n)],
                        dtype=object)
    a, b = Y.Sym.of(a), Y.Sym.of(b)
    d = (n - 1) if endpoint else n
    return np.array([a + (b - a) * i / d for i in range(n)] or [], dtype=object)


def arange(*a, **kw):
    if any(isinstance(x, (Sym, float)) for x in a):
        v = [Y.Sym.of(x) for x in a]
        if not all(x.isconst() for x in v):
            raise Unsupported('arange of symbolic bounds')
        v = [x.constval() for x in v]
        start, stop, step = (0, v[0], 1) if len(v) == 1 else \
            (v[0], v[1], 1) if len(v) == 2 else v
        out = []
        x = start
        while (x < stop) if step > 0 else (x > stop):
            out.append(Y.Sym.of(x))
            x = x + step
        return np.array(out, dtype=object)
    return np.arange(*a, **kw)


class UF(object):
    """A binary ufunc: call (with out and where), reduce, accumulate, outer, at."""

    def __init__(self, f, real, name):
        self.f = f
        self.real = real
        self.__name__ = name
        self.nin = 2

    def __call__(self, a, b, out=None, where=True, **kw):
        if kw.pop('dtype', None) is not None or kw:
            raise Unsupported('ufunc keyword')
        if not has_sym(a) and not has_sym(b) and out is None and where is True and \
                (isinstance(a, ND) or isinstance(b, ND)) and self.real in (
                    np.add, np.subtract, np.multiply):
            return self.real(a, b)
        if isinstance(out, tuple):
            out = out[0]
        a, b = asarray(a), asarray(b)
        if where is not True:
            if out is None:
                raise Unsupported('masked ufunc without an output')
            sh = np.broadcast_shapes(a.shape, b.shape)
            m = np.broadcast_to(_b(where), sh)
            out[m] = self.f(np.broadcast_to(a, sh)[m], np.broadcast_to(b, sh)[m])
            return out
        r = self.f(a, b)
        if out is not None:
            out[...] = r
            return out
        if isinstance(r, ND) and r.ndim == 0 and not isinstance(r, Sym):
            r = r[()]
        return r

    def reduce(self, a, axis=0, out=None, keepdims=False, initial=None, **kw):
        a = asarray(a)
        if a.dtype == object and axis is None:
            a = a.reshape(-1)
            axis = 0
        if a.dtype != object or isinstance(axis, tuple) or keepdims or kw:
            if a.dtype == object:
                raise Unsupported('reduction')
            return self.real.reduce(a, axis=axis, keepdims=keepdims)
        m = np.moveaxis(a, axis, 0)
        if m.shape[0] == 0:
            if initial is None and self.real.identity is None:
                raise ValueError('reduction of an empty array')
            r = _filled(m.shape[1:], self.real.identity if initial is None else initial)
            r = r if r.ndim else r[()]
        else:
            r = m[0]
            if initial is not None:
                r = self(initial, r)
            for x in m[1:]:
                r = self(r, x)
            if isinstance(r, ND):
                r = r.copy()
        if out is not None:
            out[...] = r
            return out
        return r

    def accumulate(self, a, axis=0, out=None, **kw):
        a = asarray(a)
        m = np.moveaxis(a, axis, 0)
        r = np.empty(m.shape, dtype=object)
        for i in range(m.shape[0]):
            r[i] = m[i] if i == 0 else self(r[i - 1], m[i])
        r = np.moveaxis(r, 0, axis)
        if out is not None:
            out[...] = r
            return out
        return r

    def outer(self, a, b, **kw):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b, **kw)

    def at(self, a, idx, b=None):
        ii = np.arange(a.size).reshape(a.shape)[idx]
        ii, bb = np.broadcast_arrays(ii, asarray(b))
        fl = a.reshape(-1)
        if not np.shares_memory(fl, a):
            raise Unsupported('ufunc.at on a strided array')
        for k, v in zip(ii.reshape(-1), bb.reshape(-1)):
            fl[k] = self(fl[k], v)


def _rint(v):
    return Y.Sym.of(round(v))


def _cmpf(op):
    def g(a, b):
        return _b(op(a, b))
    return g


def nptrace(a, offset=0, axis1=0, axis2=1, **kw):
    a = asarray(a)
    return npsum(np.diagonal(a, offset, axis1, axis2), axis=None if a.ndim == 2 else -1)


def slogdet(a):
    d = det(a)
    raise Unsupported('slogdet')


def dotlast(a, b):
    return npsum(asarray(a) * asarray(b), axis=-1)


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    if a.dtype != object:
        return np.cumsum(a, axis)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return UF(lambda x, y: x + y, np.add, 'add').accumulate(a, axis)


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    a, w = asarray(a), asarray(weights)
    if axis is None:
        return npsum(a * w) / npsum(w)
    if w.ndim != 1:
        raise Unsupported('weights')
    m = np.moveaxis(a, axis, -1)
    return npsum(m * w, axis=-1) / npsum(w)


def fill_diagonal(a, v, **kw):
    v = np.broadcast_to(asarray(v), (min(a.shape),))
    for i in range(min(a.shape)):
        a[i, i] = v[i]


def concat(f):
    def g(seq, *a, **kw):
        return f([asarray(s) for s in seq], *a, **kw)
    return g


# --------------------------------------------------------------------- linalg
class EigVals(object):
    """Eigenvalues of a symmetric matrix, through their sign contract only."""

    def __init__(self, M):
        self.M = M

    def _pd(self, strict):
        """Positive (semi)definiteness by exact pivots (Sylvester)."""
        A = self.M.copy()
        n = A.shape[0]
        for P in CERTIFIED:
            if P.shape == A.shape and all(
                    (Y.Sym.of(P[i, j]) - Y.Sym.of(A[i, j])).iszero()
                    for i in range(n) for j in range(n)):
                return True
        for i in range(n):
            for j in range(i):
                if not (A[i, j] - A[j, i]).iszero():
                    raise Unsupported('eigenvalues of a non symmetric matrix')
        left = list(range(n))[::-1]
        while left:
            # prefer a constant or small pivot, from the end
            k = left[0]
            for c in left:
                if not A[c, c].iszero():
                    k = c
                    break
            p = A[k, k]
            left.remove(k)
            if p > 0:
                for i in left:
                    f = A[i, k] / p
                    if isinstance(f, Sym) and f.iszero():
                        continue
                    for j in left:
                        A[i, j] = A[i, j] - f * A[k, j]
            elif p < 0:
                return False
            else:
                if strict:
                    return False
                for j in left:
                    if A[k, j] != 0:
                        return False
        return True

    def __gt__(self, o):
        if not Y.Sym.of(o).iszero():
            raise Unsupported('eigenvalue bound')
        return _All(self._pd(True))

    def __ge__(self, o):
        if not Y.Sym.of(o).iszero():
            raise Unsupported('eigenvalue bound')
        return _All(self._pd(False))

    def __getattr__(self, k):
        raise Unsupported('eigenvalues: ' + k)

    def __iter__(self):
        raise Unsupported('eigenvalues')

    def __len__(self):
        return self.M.shape[0]


class _All(object):
    def __init__(self, v):
        self.v = v

    def all(self, *a, **k):
        return self.v

    def any(self, *a, **k):
        if self.v:
            return True
        raise Unsupported('any() of eigenvalue signs')


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if keepdims:
        return np.expand_dims(asarray(norm(x, ord, axis)),
                              tuple(range(x.ndim)) if axis is None else axis)
    if x.ndim == 1 and ord in (1, np.inf, -np.inf, 0):
        v = absolute(x)
        return npsum(v) if ord == 1 else amax(v) if ord == np.inf else amin(v) if ord \
            else Y.Sym.of(int(np.count_nonzero(_b(x))))
    if axis is not None:
        if not isinstance(axis, int):
            raise Unsupported('matrix norms of a stack')
        m = np.moveaxis(x, axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for ix in np.ndindex(*r.shape):
            r[ix] = norm(m[ix], ord)
        return r
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim > 1):
        raise Unsupported('norm order')
    s = Y.ZERO
    for v in x.reshape(-1):
        v = Y.Sym.of(v)
        s = s + v * v
    return Y.sqrt(s)


def _det(A):
    n = A.shape[0]
    if n == 0:
        return Y.ONE
    if n == 1:
        return Y.Sym.of(A[0, 0])
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    # expand along the sparsest row
    best = max(range(n), key=lambda i: sum(1 for j in range(n) if Y.Sym.of(A[i, j]).iszero()))
    s = Y.ZERO
    for j in range(n):
        v = Y.Sym.of(A[best, j])
        if v.iszero():
            continue
        m = np.delete(np.delete(A, best, 0), j, 1)
        t = v * _det(m)
        s = s + t if (best + j) % 2 == 0 else s - t
    return s


def det(A):
    A = asarray(A)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('not square')
    if A.shape[0] > 6:
        raise Unsupported('large determinant')
    return _det(A)


LinAlgError = np.linalg.LinAlgError


def adjugate(A):
    n = A.shape[0]
    if n == 1:
        return eye(1)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, i, 0), j, 1)
            d = _det(m)
            r[j, i] = d if (i + j) % 2 == 0 else -d
    return r


def _stack(A, f):
    r = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape[:-2]):
        r[ix] = f(A[ix])
    return r


def inv(A):
    A = asarray(A)
    if A.ndim > 2:
        return _stack(A, inv)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('not square')
    h = STUBS.get('inv')
    if h is not None:
        return h(A)
    n = A.shape[0]
    if n == 0:
        return zeros((0, 0))
    # block/identity structure is common: eliminate constant pivots exactly
    if n > 6:
        raise Unsupported('large inverse')
    d = _det(A)
    if d == 0:
        raise LinAlgError('Singular matrix')
    return adjugate(A) / d


def pinv(A, **kw):
    A = asarray(A)
    h = STUBS.get('pinv')
    if h is not None:
        return h(A)
    if A.shape == (1, 1):
        if A[0, 0] == 0:
            return zeros((1, 1))
        return np.array([[Y.ONE / A[0, 0]]], dtype=object)
    if A.shape[0] != A.shape[1]:
        raise Unsupported('rectangular pseudo-inverse')
    d = _det(A)
    if d == 0:
        raise Unsupported('pseudo-inverse of a singular matrix')
    return adjugate(A) / d


def solve(A, b):
    A = asarray(A)
    h = STUBS.get('solve')
    if h is not None:
        return h(A, asarray(b))
    return dot(inv(A), asarray(b))


def lstsq(A, b, rcond=None):
    A = asarray(A)
    return (dot(pinv(A), asarray(b)), None, None, None)


def eigvals(M):
    h = STUBS.get('eigvals')
    if h is not None:
        return h(asarray(M))
    return EigVals(asarray(M))


def eigvalsh(M):
    h = STUBS.get('eigvalsh')
    if h is not None:
        return h(asarray(M))
    return EigVals(asarray(M))


def eigh(M, *a, **k):
    h = STUBS.get('eigh')
    if h is None:
        raise Unsupported('eigh')
    return h(asarray(M))


def eig(M):
    h = STUBS.get('eig')
    if h is None:
        raise Unsupported('eig')
    return h(asarray(M))


STUBS = {}
CERTIFIED = []     # matrices known positive definite (lemma of the contract)

GENERIC = set('''reshape transpose ravel squeeze expand_dims swapaxes moveaxis newaxis
 ndarray ix_ roll flip flipud fliplr rot90 triu tril shape ndim size delete append insert tile
 repeat broadcast_to broadcast_arrays set_printoptions take ndindex atleast_3d
 errstate seterr isscalar bool_ int_ int64 int32 intp integer floating number generic
 dtype finfo iinfo array_split split hsplit vsplit copyto put r_ c_ s_ index_exp
 diagonal unravel_index ravel_multi_index indices diag_indices tril_indices triu_indices
 ndenumerate nditer mgrid ogrid meshgrid inf nan e lib ufunc apply_along_axis
 logspace object_ str_ printoptions get_printoptions array2string array_repr array_str
 unique may_share_memory shares_memory __version__ linalg'''.split())


def _generic(name):
    return getattr(np, name)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported('numpy function ' + name)
    return f


def _copysign(a, b):
    a = abs(a)
    return a if b >= 0 else -a


def _heaviside(a, b):
    return Y.ZERO if a < 0 else (b if a == 0 else Y.ONE)


def _nround(a, decimals=0, **kw):
    if not has_sym(a):
        return np.round(a, decimals, **kw)
    k = Y.Sym.of(10 ** abs(decimals))
    k = k if decimals >= 0 else Y.ONE / k
    return _map(lambda v: _rint(v * k) / k)(a)


def select(conds, choices, default=0):
    conds = [_b(c) for c in conds]
    choices = [asarray(c) for c in choices]
    sh = np.broadcast_shapes(*[np.shape(c) for c in conds + choices])
    r = _filled(sh, 0)
    r[...] = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = np.where(c, v, r)
    return _fix(r)


def _table():
    t = dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray,
             asfarray=lambda a, **k: array(a, dtype=float), copy=lambda a, **k: array(a),
             zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
             ones_like=ones_like, empty_like=empty_like, full_like=full_like, eye=eye,
             identity=identity, diag=diag, dot=dot, matmul=matmul, einsum=einsum, outer=outer,
             cross=cross, inner=inner, vdot=lambda a, b: dot(asarray(a).reshape(-1),
                                                             asarray(b).reshape(-1)),
             sin=sin, cos=cos, tan=tan, sqrt=sqrt, abs=absolute, absolute=absolute, fabs=absolute,
             sign=sign, square=square, negative=negative, arctan2=arctan2, maximum=maximum,
             minimum=minimum, fmax=maximum, fmin=minimum, hypot=hypot, power=power,
             deg2rad=deg2rad, radians=deg2rad, rad2deg=rad2deg, degrees=rad2deg, arctan=arctan,
             arcsin=arcsin, arccos=arccos, clip=clip, sum=npsum, mean=mean, prod=prod,
             trace=nptrace, argmin=argmin, argmax=argmax, argsort=argsort, sort=sort, amin=amin,
             amax=amax, min=amin, max=amax, isclose=isclose, allclose=allclose, where=where,
             isnan=isnan, isfinite=isfinite, linspace=linspace, arange=arange,
             concatenate=concat(np.concatenate), hstack=concat(np.hstack),
             vstack=concat(np.vstack), stack=concat(np.stack), dstack=concat(np.dstack),
             column_stack=concat(np.column_stack), row_stack=concat(np.vstack),
             atleast_1d=lambda a: np.atleast_1d(asarray(a)),
             atleast_2d=lambda a: np.atleast_2d(asarray(a)),
             logical_xor=lambda a, b, **k: np.logical_xor(_b(a), _b(b)),
             logical_not=lambda a, **k: np.logical_not(_b(a)),
             any=lambda a, *r, **k: np.any(_b(a), *r, **k),
             all=lambda a, *r, **k: np.all(_b(a), *r, **k),
             alltrue=lambda a, *r, **k: np.all(_b(a), *r, **k),
             nonzero=lambda a: np.nonzero(_b(a)), flatnonzero=lambda a: np.flatnonzero(_b(a)),
             count_nonzero=lambda a, *r, **k: np.count_nonzero(_b(a), *r, **k),
             array_equal=lambda a, b, **k: (asarray(a).shape == asarray(b).shape and
                                            bool(np.all(_b(asarray(a) == asarray(b))))),
             add=UF(operator.add, np.add, 'add'),
             subtract=UF(operator.sub, np.subtract, 'subtract'),
             multiply=UF(operator.mul, np.multiply, 'multiply'),
             divide=UF(operator.truediv, np.true_divide, 'divide'),
             true_divide=UF(operator.truediv, np.true_divide, 'true_divide'),
             floor_divide=UF(operator.floordiv, np.floor_divide, 'floor_divide'),
             mod=UF(operator.mod, np.mod, 'mod'), remainder=UF(operator.mod, np.mod, 'mod'),
             less=UF(_cmpf(operator.lt), np.less, 'less'),
             less_equal=UF(_cmpf(operator.le), np.less_equal, 'less_equal'),
             greater=UF(_cmpf(operator.gt), np.greater, 'greater'),
             greater_equal=UF(_cmpf(operator.ge), np.greater_equal, 'greater_equal'),
             equal=UF(_cmpf(operator.eq), np.equal, 'equal'),
             not_equal=UF(_cmpf(operator.ne), np.not_equal, 'not_equal'),
             tensordot=tensordot, round=_nround, around=_nround, rint=_map(_rint),
             floor=_map(lambda v: Y.Sym.of(Y.floor(v))),
             ceil=_map(lambda v: Y.Sym.of(-Y.floor(-v))),
             reciprocal=_map(lambda v: Y.ONE / v), positive=_map(lambda v: v),
             average=average, fill_diagonal=fill_diagonal,
             ptp=lambda a, axis=None: amax(a, axis) - amin(a, axis),
             cbrt=_unsup('cbrt'), copysign=_map2(_copysign), heaviside=_map2(_heaviside),
             isinf=lambda x: ~np.asarray(isfinite(x)) if np.ndim(x) else False,
             nan_to_num=lambda x, **k: array(x), nansum=npsum,
             isscalar=lambda x: isinstance(x, Sym) or np.isscalar(x),
             select=select, piecewise=_unsup('piecewise'),
             array_equiv=lambda a, b: bool(np.all(_b(asarray(a) == asarray(b)))),
             sinc=_unsup('sinc'),
             float64=FloatShim, double=FloatShim, float_=FloatShim, float32=np.float32,
             isreal=lambda a: np.ones(asarray(a).shape, dtype=bool),
             real=lambda a: a, conj=lambda a: a, conjugate=lambda a: a, kron=lambda a, b: np.kron(asarray(a), asarray(b)),
             block=np.block, cumsum=cumsum,
             diff=lambda a, *r, **k: np.diff(asarray(a), *r, **k))
    t['maximum'] = UF(_map2(_smax), np.maximum, 'maximum')
    t['minimum'] = UF(_map2(_smin), np.minimum, 'minimum')
    t['logical_and'] = UF(lambda a, b: np.logical_and(_b(a), _b(b)), np.logical_and, 'logical_and')
    t['logical_or'] = UF(lambda a, b: np.logical_or(_b(a), _b(b)), np.logical_or, 'logical_or')
    return t


class Lookup(types.ModuleType):
    def __init__(self, name, table, real, generic):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(table)
        self._real = real
        self._gen = generic
        self.__all__ = sorted(table)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if not hasattr(self._real, k):
            raise AttributeError(k)
        if k in self._gen:
            return getattr(self._real, k)
        real = getattr(self._real, k)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **kw):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
                raise Unsupported('numpy function %s on symbolic values' % k)
            return real(*a, **kw)
        return f


_LIN = dict(norm=norm, det=det, inv=inv, pinv=pinv, solve=solve, eigvals=eigvals, eigh=eigh,
            eig=eig, eigvalsh=eigvalsh, lstsq=lstsq, LinAlgError=LinAlgError,
            multi_dot=lambda ms, **k: _mdot(ms), matrix_power=matrix_power)


def _mdot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = dot(r, m)
    return r


def build():
    """(numpy, numpy.linalg, math) modules for one symbolic session."""
    lin = Lookup('numpy.linalg', _LIN, np.linalg, set())
    num = Lookup('numpy', _table(), np, GENERIC)
    num.linalg = lin
    num.pi = Y.PI()
    mt = types.ModuleType('math')
    import math
    for k in dir(math):
        if not k.startswith('_'):
            setattr(mt, k, _mathwrap(k, getattr(math, k)))
    mt.sin, mt.cos, mt.sqrt, mt.tan = Y.sin, Y.cos, Y.sqrt, _tan
    mt.atan2, mt.pi, mt.fabs = Y.arctan2, Y.PI(), abs
    mt.hypot = lambda *v: norm(list(v))
    mt.radians = deg2rad
    mt.degrees = rad2deg
    mt.atan, mt.asin, mt.acos = arctan, arcsin, arccos
    mt.prod = lambda it, start=1: _fold(it, start, operator.mul)
    mt.fsum = lambda it: _fold(it, Y.ZERO, operator.add)
    mt.copysign = lambda a, b: _copysign(Y.Sym.of(a), Y.Sym.of(b))
    mt.pow = lambda a, b: Y.Sym.of(a) ** b
    mt.dist = lambda a, b: norm(asarray(list(a)) - asarray(list(b)))
    mt.isclose = _isclose_math
    mt.isnan = mt.isinf = lambda x: False if isinstance(x, Sym) else math.isnan(x)
    mt.isinf = lambda x: False if isinstance(x, Sym) else math.isinf(x)
    mt.isfinite = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
    mt.trunc = lambda x: (Y.floor(x) if x >= 0 else -Y.floor(-x)) if isinstance(x, Sym) \
        else math.trunc(x)
    mt.floor, mt.ceil = Y.floor, lambda x: -Y.floor(-x)
    return num, lin, mt


def _fold(it, r, op):
    for x in it:
        r = op(r, x)
    return r


def _isclose_math(a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = Y.Sym.of(a), Y.Sym.of(b)
    d = abs(a - b)
    return bool(d <= Y.Sym.of(abs_tol)) or bool(d <= Y.Sym.of(rel_tol) * maximum(abs(a), abs(b)))


def _mathwrap(k, f):
    if not callable(f):
        return f

    def g(*a):
        if any(has_sym(x) for x in a):
            if all(not isinstance(x, Sym) or x.isconst() for x in a):
                return f(*[float(x) if isinstance(x, Sym) else x for x in a])
            raise Unsupported('math.' + k)
        return f(*a)
    return g
