"""Exact symbolic reals: rational functions over Q in generators.

A generator is a base variable, the cosine or sine of an angle atom
(sin**2 -> 1 - cos**2), a square root (r**2 -> radicand, r >= 0), or a base
variable with an algebraic rule.  The normal form of the numerator decides
identities: a zero normal form *is* a proof of equality.
"""
from fractions import Fraction
from math import gcd, isqrt
import math
import random
import hashlib
import mpmath

SH = 12
EMASK = (1 << SH) - 1


class Unsupported(Exception):
    """The symbolic layer cannot follow this construct: undecided, never an alarm."""


class SymZeroDivision(Exception):
    pass


class Gen(object):
    __slots__ = ('idx', 'name', 'kind', 'rule', 'arg', 'partner', 'dom', 'deriv', 'value')

    def __init__(self, idx, name, kind):
        self.idx = idx
        self.name = name
        self.kind = kind      # var, cos, sin, sqrt
        self.rule = None      # Poly (int coeffs) for gen**2
        self.arg = None       # Sym: the angle atom / radicand
        self.partner = None
        self.dom = None
        self.deriv = None
        self.value = None     # callable(env) for derived variables (arctan2...)


class Session(object):
    def __init__(self):
        self.gens = []
        self.byname = {}
        self.redmask = 0
        self.factors = []
        self.factor_ids = {}
        self.trig = []        # (Sym arg, cosgen, singen)
        self.trigkey = {}
        self.sqrts = {}
        self.explorer = None
        self.nonzero = set()
        self.atan = []
        self.lazy_abs = False     # |x| as an opaque root of x**2 (no path split)

    def newgen(self, name, kind):
        g = Gen(len(self.gens), name, kind)
        self.gens.append(g)
        self.byname[name] = g
        return g

    def set_rule(self, g, rule):
        g.rule = rule
        self.redmask |= (EMASK & ~1) << (SH * g.idx)


S = Session()


def reset():
    global S
    S = Session()
    return S


def cur():
    return S


# ---------------------------------------------------------------- polynomials
def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        a, b = b, a
    if len(b) == 1:
        (mb, cb), = b.items()
        if mb == 0:
            return p_scale(a, cb)
        r = {m + mb: c * cb for m, c in a.items()}
    else:
        if len(a) * len(b) > 4000000:
            raise Unsupported('polynomial blow-up')
        r = {}
        get = r.get
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = ma + mb
                r[m] = get(m, 0) + ca * cb
        r = {m: c for m, c in r.items() if c}
    return p_reduce(r)


def p_reduce(p):
    mask = S.redmask
    bad = [m for m in p if m & mask]
    if not bad:
        return p
    gens = S.gens
    r = dict(p)
    while bad:
        work = {}
        for m in bad:
            c = r.pop(m)
            b = m & mask
            # lowest reducible generator
            i = ((b & -b).bit_length() - 1) // SH
            g = gens[i]
            e = (m >> (SH * i)) & EMASK
            q, rem = divmod(e, 2)
            base = m - ((e - rem) << (SH * i))
            rule = g.rule
            f = rule
            for _ in range(q - 1):
                f = p_mul(f, rule)
            for mm, cc in f.items():
                k = base + mm
                work[k] = work.get(k, 0) + c * cc
        bad = []
        for m, c in work.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            elif m in r:
                del r[m]
        bad = [m for m in work if m in r and m & mask]
        if len(r) > 400000:
            raise Unsupported('polynomial blow-up')
    return r


def p_content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def p_lead(p):
    return max(p)


def mono_gens(m):
    i = 0
    out = []
    while m:
        e = m & EMASK
        if e:
            out.append((i, e))
        m >>= SH
        i += 1
    return out


def p_divexact(a, b):
    """a / b if exact in the free polynomial ring (no reduction), else None."""
    lb = max(b)
    cb = b[lb]
    gb = mono_gens(lb)
    r = dict(a)
    q = {}
    n = 0
    while r:
        la = max(r)
        ca = r[la]
        if ca % cb:
            return None
        for i, e in gb:
            if ((la >> (SH * i)) & EMASK) < e:
                return None
        m = la - lb
        c = ca // cb
        q[m] = c
        for mm, cc in b.items():
            k = mm + m
            v = r.get(k, 0) - c * cc
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        n += 1
        if n > 2000:
            return None
    return q


def p_gens(p):
    acc = 0
    for m in p:
        acc |= m
    return [i for i, e in mono_gens(acc)]


# ------------------------------------------------------------------------ Sym
def REPEAT(x, n):
    return NotImplemented


class Sym(object):
    __slots__ = ('num', 'dc', 'den')

    def __init__(self, num, dc=1, den=()):
        self.num = num
        self.dc = dc
        self.den = den

    # -- construction
    @staticmethod
    def const(q):
        q = Fraction(q)
        if q == 0:
            return Sym({})
        return Sym({0: q.numerator}, q.denominator)

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, bool):
            return Sym.const(int(x))
        if isinstance(x, (int, Fraction)):
            return Sym.const(x)
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf):
                raise Unsupported('non finite float')
            return _from_float(x)
        tn = type(x).__name__
        if tn.startswith(('int', 'uint')) and hasattr(x, 'item'):
            return Sym.const(int(x))
        if tn.startswith('float') and hasattr(x, 'item'):
            return Sym.of(float(x))
        if tn in ('bool_', 'bool'):
            return Sym.const(int(bool(x)))
        if hasattr(x, 'shape') and x.shape == () and hasattr(x, 'item'):
            return Sym.of(x.item())
        raise TypeError('cannot make a symbolic real of %s' % type(x))

    def isconst(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def constval(self):
        return Fraction(self.num.get(0, 0), self.dc)

    def varname(self):
        if self.dc == 1 and not self.den and len(self.num) == 1:
            (m, c), = self.num.items()
            g = mono_gens(m)
            if c == 1 and len(g) == 1 and g[0][1] == 1 and S.gens[g[0][0]].kind == 'var':
                return S.gens[g[0][0]].name
        return None

    def iszero(self):
        return not self.num

    # -- arithmetic
    def __add__(self, o):
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            if self.dc == o.dc:
                return mk(p_add(self.num, o.num), self.dc, self.den)
            g = gcd(self.dc, o.dc)
            return mk(p_add(p_scale(self.num, o.dc // g), p_scale(o.num, self.dc // g)),
                      self.dc // g * o.dc, self.den)
        # lcm of the denominators
        d1 = dict(self.den)
        d2 = dict(o.den)
        l = dict(d1)
        for f, e in d2.items():
            if l.get(f, 0) < e:
                l[f] = e
        n1 = self.num
        n2 = o.num
        for f, e in l.items():
            k = e - d1.get(f, 0)
            for _ in range(k):
                n1 = p_mul(n1, S.factors[f])
            k = e - d2.get(f, 0)
            for _ in range(k):
                n2 = p_mul(n2, S.factors[f])
        g = gcd(self.dc, o.dc)
        return mk(p_add(p_scale(n1, o.dc // g), p_scale(n2, self.dc // g)),
                  self.dc // g * o.dc, tuple(sorted(l.items())))

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.num.items()}, self.dc, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return Sym.of(o) + (-self)

    def __mul__(self, o):
        try:
            o = Sym.of(o)
        except TypeError:
            return REPEAT(o, self)
        if not self.num or not o.num:
            return ZERO
        n = p_mul(self.num, o.num)
        if not self.den and not o.den:
            return mk(n, self.dc * o.dc, ())
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return mk(n, self.dc * o.dc, tuple(sorted(d.items())))

    __rmul__ = __mul__

    def inverse(self):
        if not self.num:
            raise SymZeroDivision('division by zero')
        n = self.num
        # numerator of the inverse: dc * prod(den)
        num = {0: self.dc}
        for f, e in self.den:
            for _ in range(e):
                num = p_mul(num, S.factors[f])
        res = Sym(num, 1, ())
        if len(n) == 1:
            (m, c), = n.items()
            if c < 0:
                res = -res
                c = -c
            res = mk(res.num, c, ())
            for i, e in mono_gens(m):
                g = S.gens[i]
                if g.kind == 'sqrt':
                    # 1/r = r/radicand
                    for _ in range(e):
                        res = res * Sym({1 << (SH * i): 1}) * Sym(g.rule).inverse()
                else:
                    check_nonzero({1 << (SH * i): 1})
                    f = factor_id({1 << (SH * i): 1})
                    res = mk(res.num, res.dc, tuple(sorted(_dmul(res.den, f, e).items())))
            return res
        # multi-term
        check_nonzero(n)
        ct = p_content(n)
        if n[max(n)] < 0:
            ct = -ct
        prim = {m: c // ct for m, c in n.items()}
        # extract monomial content
        common = None
        for m in prim:
            d = dict(mono_gens(m))
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                break
        if common:
            mm = sum(e << (SH * i) for i, e in common.items())
            prim = {m - mm: c for m, c in prim.items()}
            res = res * Sym({mm: 1}).inverse()
        if ct < 0:
            res = -res
            ct = -ct
        f = factor_id(prim)
        return mk(res.num, res.dc * ct, tuple(sorted(_dmul(res.den, f, 1).items())))

    def __truediv__(self, o):
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        if o.isconst():
            v = o.constval()
            if v == 0:
                raise SymZeroDivision('division by zero')
            if v > 0:
                return mk(p_scale(self.num, v.denominator), self.dc * v.numerator, self.den)
            return mk(p_scale(self.num, -v.denominator), self.dc * -v.numerator, self.den)
        return self * o.inverse()

    def __rtruediv__(self, o):
        return Sym.of(o) / self

    def __floordiv__(self, o):
        o = Sym.of(o)
        if self.isconst() and o.isconst():
            return Sym.const(self.constval() // o.constval())
        return Sym.of(floor(self / o))

    def __mod__(self, o):
        o = Sym.of(o)
        if self.isconst() and o.isconst():
            return Sym.const(self.constval() % o.constval())
        return self - o * floor(self / o)

    def __pow__(self, o):
        if isinstance(o, Sym):
            if not o.isconst():
                raise Unsupported('symbolic exponent')
            o = o.constval()
        o = Fraction(o)
        if o.denominator == 2:
            return sqrt(self) ** o.numerator
        if o.denominator != 1:
            raise Unsupported('rational exponent')
        n = int(o)
        if n < 0:
            return (self ** (-n)).inverse()
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __rpow__(self, o):
        if self.isconst():
            return Sym.of(o) ** self.constval()
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        if self.isconst():
            return Sym.const(abs(self.constval()))
        if S.lazy_abs and not self.den:
            return _sqrtgen(p_mul(self.num, self.num)) / self.dc
        if self >= 0:
            return self
        return -self

    # -- comparisons: decided (path splitting) right away
    def _cmp(self, o, op):
        d = self - Sym.of(o)
        if d.isconst():
            v = d.constval()
            return {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
        if op == '==' and not d.num:
            return True
        return S.explorer.decide(op, d)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return (Sym.of(o))._cmp(self, '<')

    def __ge__(self, o):
        return (Sym.of(o))._cmp(self, '<=')

    def __eq__(self, o):
        try:
            return self._cmp(o, '==')
        except TypeError:
            return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        if self.isconst():
            return self.constval() != 0
        return not self._cmp(0, '==')

    def __hash__(self):
        if self.isconst():
            return hash(self.constval())
        return hash(('Sym', self.dc, self.den, frozenset(self.num.items())))

    # -- conversions
    def __float__(self):
        if self.isconst():
            return float(self.constval())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.isconst():
            return int(self.constval())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.isconst() and self.constval().denominator == 1:
            return int(self.constval())
        raise TypeError('symbolic real used as an index')

    def __round__(self, n=None):
        if n:
            k = Sym.of(10 ** abs(n)) if n > 0 else ONE / 10 ** abs(n)
            return Sym.of(round(self * k)) / k
        if self.isconst():
            return round(self.constval()) if n is None else Sym.of(round(self.constval()))
        m = floor(self + Fraction(1, 2))
        if m % 2 and m - Fraction(1, 2) == self:
            m -= 1                                   # ties go to the even integer
        return m if n is None else Sym.of(m)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return floor(self) if self >= 0 else -floor(-self)

    def __divmod__(self, o):
        return self // o, self % o

    def rint(self):
        return round(self, 0)

    def __format__(self, spec):
        return str(self)

    # -- numpy object-array protocol
    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def _same(self, *a, **k):
        return self

    sum = max = min = mean = squeeze = prod = conj = trace = _same
    size = 1

    def any(self, *a, **k):
        return self != 0

    all = any

    def tolist(self):
        return self

    def dot(self, o):
        return self * o

    def fabs(self):
        return abs(self)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise TypeError('a real is not subscriptable')

    def copy(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        s = p_str(self.num)
        if self.dc != 1 or self.den:
            s = '(%s)/%d' % (s, self.dc)
            for f, e in self.den:
                s += '/(%s)^%d' % (p_str(S.factors[f]), e)
        return s


def p_str(p):
    if not p:
        return '0'
    out = []
    for m in sorted(p, reverse=True)[:40]:
        c = p[m]
        t = '*'.join(S.gens[i].name + ('' if e == 1 else '**%d' % e) for i, e in mono_gens(m))
        out.append(('%d' % c) if not t else (t if c == 1 else '%d*%s' % (c, t)))
    if len(p) > 40:
        out.append('...(%d terms)' % len(p))
    return ' + '.join(out)


def _dmul(den, f, e):
    d = dict(den)
    d[f] = d.get(f, 0) + e
    return d


def factor_id(p):
    k = frozenset(p.items())
    i = S.factor_ids.get(k)
    if i is None:
        i = len(S.factors)
        S.factors.append(p)
        S.factor_ids[k] = i
    return i


def mk(num, dc, den):
    """Normalize a fraction (content, factor cancellation)."""
    if not num:
        return ZERO
    if dc != 1:
        g = dc
        for c in num.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            num = {m: c // g for m, c in num.items()}
            dc //= g
    if den:
        out = []
        for f, e in den:
            fp = S.factors[f]
            if len(fp) == 1:
                (fm, fc), = fp.items()
                i = mono_gens(fm)[0][0]
                sh = SH * i
                k = min(((m >> sh) & EMASK) for m in num)
                k = min(k, e)
                if k:
                    num = {m - (k << sh): c for m, c in num.items()}
                    e -= k
            else:
                while e and len(num) >= len(fp):
                    if len(num) > 4000:
                        break
                    q = p_divexact(num, fp)
                    if q is None:
                        break
                    num = q
                    e -= 1
            if e:
                out.append((f, e))
        den = tuple(out)
    return Sym(num, dc, den)


def _from_float(x):
    x = float(x)
    return Sym.const(Fraction(repr(x)) if "e" not in repr(x) else _dec(repr(x)))


def _dec(s):
    from decimal import Decimal
    return Fraction(Decimal(s))


ZERO = Sym({})
ONE = Sym({0: 1})


def check_nonzero(p):
    """The polynomial must not vanish: forks on the zero case."""
    k = frozenset(p.items())
    if k in S.nonzero:
        return
    if S.explorer is not None and S.explorer.decide('==', Sym(p)):
        raise SymZeroDivision('division by a quantity that may be zero: ' + p_str(p))
    S.nonzero.add(k)


# -------------------------------------------------------------- generators
def var(name, dom=None):
    if name in S.byname:
        return gsym(S.byname[name])
    g = S.newgen(name, 'var')
    g.dom = dom
    return gsym(g)


def gsym(g):
    return Sym({1 << (SH * g.idx): 1})


def PI():
    if 'pi' in S.byname:
        return gsym(S.byname['pi'])
    g = S.newgen('pi', 'var')
    g.dom = ('pi',)
    return gsym(g)


def _rat_sqrt(q):
    """(a, b) with sqrt(q) = a*sqrt(b), b squarefree integer."""
    n = q.numerator * q.denominator
    a = Fraction(1, q.denominator)
    b = n
    f = 2
    while f * f <= b:
        while b % (f * f) == 0:
            b //= f * f
            a *= f
        f += 1
    return a, b


def sqrt(x):
    x = Sym.of(x)
    if x.isconst():
        q = x.constval()
        if q < 0:
            raise Unsupported('square root of a negative number')
        if q == 0:
            return ZERO
        a, b = _rat_sqrt(q)
        if b == 1:
            return Sym.const(a)
        return Sym.const(a) * _sqrtgen({0: b})
    # x = num/(dc*prod f^e);  sqrt = sqrt(num*dc*prod_{odd} f)/(dc*prod f^ceil(e/2))
    n = p_scale(x.num, x.dc)
    den = Sym({0: x.dc})
    for f, e in x.den:
        fs = Sym(S.factors[f])
        if e % 2:
            n = p_mul(n, S.factors[f])
        # sqrt(f^e) for even e is |f|^(e/2): need the sign
        h = (e + 1) // 2
        if not (fs ** h >= 0):
            den = -den
        den = den * fs ** h
    root = _poly_sqrt(n)
    return root / den


def _poly_sqrt(n):
    ct = p_content(n)
    a, b = _rat_sqrt(Fraction(ct))
    a = int(a)
    prim = {m: c // ct for m, c in n.items()}
    # now sqrt(n) = a*sqrt(b*prim)
    q = p_scale(prim, b)
    r = _perfect_square(q)
    if r is not None:
        rs = Sym(r)
        if rs >= 0:
            return Sym.const(a) * rs
        return Sym.const(a) * (-rs)
    return Sym.const(a) * _sqrtgen(q)


def _perfect_square(q):
    """r with r*r == q, else None (free ring, then checked modulo the rules)."""
    if len(q) == 1:
        (m, c), = q.items()
        if c < 0:
            return None
        s = isqrt(c)
        if s * s != c:
            return None
        r = 0
        for i, e in mono_gens(m):
            if e % 2:
                return None
            r += (e // 2) << (SH * i)
        return {r: s}
    # leading-term square-root algorithm
    r = {}
    rem = dict(q)
    lead = None
    for _ in range(60):
        if not rem:
            return r
        lm = max(rem)
        lc = rem[lm]
        if lead is None:
            if lc < 0:
                return None
            s = isqrt(lc)
            if s * s != lc:
                return None
            m = 0
            for i, e in mono_gens(lm):
                if e % 2:
                    return None
                m += (e // 2) << (SH * i)
            r = {m: s}
            lead = (m, s)
            rem = p_add(q, p_scale(_raw_mul(r, r), -1))
        else:
            m, s = lead
            gb = mono_gens(m)
            for i, e in gb:
                if ((lm >> (SH * i)) & EMASK) < e:
                    return None
            if lc % (2 * s):
                return None
            t = {lm - m: lc // (2 * s)}
            # rem -= 2*r*t + t*t
            u = p_add(p_scale(_raw_mul(r, t), 2), _raw_mul(t, t))
            rem = p_add(rem, p_scale(u, -1))
            r = p_add(r, t)
    return None


def _raw_mul(a, b):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            r[m] = r.get(m, 0) + ca * cb
    return {m: c for m, c in r.items() if c}


def _sqrtgen(q):
    k = frozenset(q.items())
    g = S.sqrts.get(k)
    if g is None:
        g = S.newgen('sqrt%d' % len(S.sqrts), 'sqrt')
        g.arg = Sym(q)
        S.set_rule(g, q)
        S.sqrts[k] = g
    return gsym(g)


# --------------------------------------------------------------------- angles
def _trig_atom(arg):
    """(cos, sin) Syms of an angle atom."""
    k = (frozenset(arg.num.items()), arg.dc, arg.den)
    e = S.trigkey.get(k)
    if e is None:
        if arg.den:
            for (a, c, s) in S.trig:
                if (a - arg).iszero():
                    e = (c, s)
                    break
                if (a + arg).iszero():
                    e = (c, -s)
                    break
        if e is None:
            n = len(S.trig)
            gc = S.newgen('cos%d' % n, 'cos')
            gs = S.newgen('sin%d' % n, 'sin')
            gc.arg = gs.arg = arg
            gc.partner = gs
            gs.partner = gc
            S.set_rule(gs, {0: 1, 2 << (SH * gc.idx): -1})
            e = (gsym(gc), gsym(gs))
            S.trig.append((arg, e[0], e[1]))
        S.trigkey[k] = e
    return e


def register_angle(arg, c, s):
    """Declare that the angle atom ``arg`` (a fresh variable) has cos c and sin s."""
    k = (frozenset(arg.num.items()), arg.dc, arg.den)
    S.trigkey[k] = (c, s)
    S.trig.append((arg, c, s))


def _cheb(c, s, n):
    """cos(n t), sin(n t)."""
    if n < 0:
        a, b = _cheb(c, s, -n)
        return a, -b
    ca, sa = ONE, ZERO
    for _ in range(n):
        ca, sa = ca * c - sa * s, sa * c + ca * s
    return ca, sa


def _pi_multiple(q):
    """cos, sin of q*pi for rational q."""
    q = q % 2
    k = q * 12
    if k.denominator == 1:
        k = int(k)
        # multiples of 15 degrees
        base, quarter = k % 6, k // 6
        r2 = sqrt(2)
        r3 = sqrt(3)
        r6 = r2 * r3
        tab = {0: (ONE, ZERO),
               1: ((r6 + r2) / 4, (r6 - r2) / 4),
               2: (r3 / 2, Sym.const(Fraction(1, 2))),
               3: (r2 / 2, r2 / 2),
               4: (Sym.const(Fraction(1, 2)), r3 / 2),
               5: ((r6 - r2) / 4, (r6 + r2) / 4)} if base else {0: (ONE, ZERO)}
        c, s = tab[base]
        for _ in range(quarter):
            c, s = -s, c
        return c, s
    c, s = _trig_atom(PI() / q.denominator)
    return _cheb(c, s, q.numerator)


def cossin(x):
    x = Sym.of(x)
    if not x.num:
        return ONE, ZERO
    if x.den:
        return _trig_atom(x)
    pig = S.byname.get('pi')
    pim = (1 << (SH * pig.idx)) if pig is not None else None
    c, s = ONE, ZERO
    for m, k in sorted(x.num.items()):
        q = Fraction(k, x.dc)
        if pim is not None and m == pim:
            c1, s1 = _pi_multiple(q)
        elif m == 0:
            c1, s1 = _trig_atom(Sym.const(Fraction(1, q.denominator)))
            c1, s1 = _cheb(c1, s1, q.numerator)
        else:
            if abs(q.numerator) > 12:
                c1, s1 = _trig_atom(Sym({m: abs(q.numerator)}, q.denominator))
                if q < 0:
                    s1 = -s1
            else:
                c1, s1 = _trig_atom(Sym({m: 1}, q.denominator))
                c1, s1 = _cheb(c1, s1, q.numerator)
        c, s = c * c1 - s * s1, s * c1 + c * s1
    return c, s


def sin(x):
    return cossin(x)[1]


def cos(x):
    return cossin(x)[0]


def arctan2(y, x):
    """Contract of arctan2: the angle of the vector (x, y); 0 at the origin."""
    y = Sym.of(y)
    x = Sym.of(x)
    for (yy, xx, th) in S.atan:
        if (yy - y).iszero() and (xx - x).iszero():
            return th
    if y == 0:
        if x >= 0:
            th = ZERO
        else:
            th = PI()
    else:
        r = sqrt(x * x + y * y)
        g = S.newgen('atan2_%d' % len(S.atan), 'var')
        th = gsym(g)
        g.dom = ('derived',)
        g.value = lambda ev, y=y, x=x: mpmath.atan2(ev(y), ev(x))
        register_angle(th, x / r, y / r)
        g.deriv = (y, x)
    S.atan.append((y, x, th))
    return th


# ----------------------------------------------------------------- derivative
def diff(x, dvars):
    """Total derivative of x, given {var name: Sym derivative} (missing = 0)."""
    x = Sym.of(x)
    memo = {}

    def dgen(i):
        if i in memo:
            return memo[i]
        g = S.gens[i]
        if g.kind == 'var':
            if g.deriv is not None:
                y, xx = g.deriv
                r = (xx * diff(y, dvars) - y * diff(xx, dvars)) / (xx * xx + y * y)
            else:
                r = dvars.get(g.name, ZERO)
                if g.rule is not None and g.name not in dvars:
                    r = ZERO
        elif g.kind == 'cos':
            r = -gsym(g.partner) * diff(g.arg, dvars)
        elif g.kind == 'sin':
            r = gsym(g.partner) * diff(g.arg, dvars)
        elif i in dvars:
            r = dvars[i]
        else:
            da = diff(g.arg, dvars)
            r = ZERO if da.iszero() else da / (2 * gsym(g))
        memo[i] = r
        return r

    def dpoly(p):
        acc = ZERO
        for i in p_gens(p):
            dg = dgen(i)
            if dg.iszero():
                continue
            sh = SH * i
            q = {}
            for m, c in p.items():
                e = (m >> sh) & EMASK
                if e:
                    q[m - (1 << sh)] = c * e
            acc = acc + Sym(q) * dg
        return acc
    num = Sym(x.num)
    res = dpoly(x.num) * Sym({0: 1}, x.dc)
    dinv = Sym({0: 1}, 1, x.den)
    out = res * dinv
    for f, e in x.den:
        df = dpoly(S.factors[f])
        if not df.iszero():
            out = out - x * df * e * Sym({0: 1}, 1, ((f, 1),))
    return out


def subst(x, mapping):
    """Substitute base variables {gen idx: Sym} (no recursion in angles)."""
    def sp(p):
        acc = ZERO
        for m, c in p.items():
            t = Sym.const(c)
            for i, e in mono_gens(m):
                t = t * (mapping[i] ** e if i in mapping else Sym({e << (SH * i): 1}))
            acc = acc + t
        return acc
    r = sp(x.num) / x.dc
    for f, e in x.den:
        r = r / sp(S.factors[f]) ** e
    return r


# ----------------------------------------------------------------- evaluation
class Env(object):
    """Numeric valuation of the base variables (sample ``k``)."""

    def __init__(self, k, seed=0, over=None):
        self.k = k
        self.seed = seed
        self.over = dict(over or {})
        self.cache = {}
        self.fcache = {}

    def rng(self, name):
        h = hashlib.sha256(('%s|%s|%s' % (self.seed, self.k, name)).encode()).digest()
        return random.Random(h)

    def base(self, name, dom):
        if name in self.over:
            return self.over[name]
        if dom and dom[0] == 'quat':
            v = quat(self.rng(dom[1]), self.k)[dom[2]]
        elif dom and dom[0] == 'unit':
            v = unitvec(self.rng(dom[1]), self.k)[dom[2]]
        else:
            v = sample(self.rng(name), dom, self.k)
        self.over[name] = v
        return v

    def gen(self, i):
        v = self.cache.get(i)
        if v is not None:
            return v
        g = S.gens[i]
        if g.name == 'pi':
            v = mpmath.pi()
        elif g.kind == 'var':
            if g.value is not None:
                v = g.value(self.ev)
            else:
                v = self.base(g.name, g.dom)
                v = mpmath.mpf(v) if not isinstance(v, Fraction) else \
                    mpmath.mpf(v.numerator) / v.denominator
        elif g.kind == 'cos':
            v = mpmath.cos(self.ev(g.arg))
        elif g.kind == 'sin':
            v = mpmath.sin(self.ev(g.arg))
        else:
            a = self.ev(g.arg)
            v = mpmath.sqrt(a) if a >= 0 else mpmath.mpf(0)
        self.cache[i] = v
        return v

    def poly(self, p):
        acc = mpmath.mpf(0)
        for m, c in p.items():
            t = mpmath.mpf(c)
            for i, e in mono_gens(m):
                t *= self.gen(i) ** e
            acc += t
        return acc

    def ev(self, x):
        v = self.poly(x.num) / x.dc
        for f, e in x.den:
            k = ('f', f)
            d = self.cache.get(k)
            if d is None:
                d = self.poly(S.factors[f])
                self.cache[k] = d
            if d == 0:
                raise ZeroDivisionError
            v /= d ** e
        return v


SPECIAL = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2),
           Fraction(2), Fraction(-2)]


def quat(rng, k):
    """A unit quaternion (w, x, y, z), w >= 0."""
    h = math.sqrt(.5)
    if k % 4 == 3:
        q = rng.choice([(1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), (0., 0., 0., 1.),
                        (h, h, 0., 0.), (h, 0., h, 0.), (h, 0., 0., h), (h, 0., 0., -h),
                        (.5, .5, .5, .5), (.5, -.5, .5, .5)])
        return q
    while True:
        q = [rng.uniform(-1, 1) for _ in range(4)]
        n = math.sqrt(sum(a * a for a in q))
        if .1 < n < 1:
            break
    if q[0] < 0:
        n = -n
    return tuple(a / n for a in q)


def unitvec(rng, k):
    if k % 4 == 3:
        h = Fraction(3, 5), Fraction(4, 5)
        return rng.choice([(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0),
                           (h[0], h[1], 0), (0, h[0], -h[1]), (-h[0], 0, h[1]), (h[1], -h[0], 0)])
    while True:
        # rational points of the sphere (stereographic projection)
        a, b = Fraction(rng.randint(-30, 30), 10), Fraction(rng.randint(-30, 30), 10)
        n = 1 + a * a + b * b
        v = [2 * a / n, 2 * b / n, (n - 2) / n]
        rng.shuffle(v)
        if rng.random() < .5:
            v = [-x for x in v]
        return tuple(v)


def pre(dom):
    """The precondition (lo, hi, strict) of a domain.  Bounds guide the sampling; they are
    preconditions when stated so (fifth entry), otherwise only the sign they give is."""
    lo, hi = dom[1], dom[2]
    strict = len(dom) > 3 and dom[3]
    if len(dom) > 4 and dom[4]:
        return lo, hi, strict
    if lo is not None and lo >= 0:
        return 0, None, strict or lo > 0
    if hi is not None and hi <= 0:
        return None, 0, strict or hi < 0
    return None, None, False


def sample(rng, dom, k):
    """A sample value in the domain: ('real', lo, hi) or a callable."""
    if callable(dom):
        return dom(rng, k)
    kind = dom[0] if dom else 'real'
    if kind == 'real':
        lo, hi = (dom[1], dom[2]) if dom else (None, None)
        if k % 4 == 3 and rng.random() < .5:
            c = [s for s in SPECIAL if (lo is None or s >= lo) and (hi is None or s <= hi)]
            if len(dom or ()) > 3 and dom[3]:
                c = [s for s in c if s != lo and s != hi]
            if c:
                return rng.choice(c)
        if lo is not None and hi is not None:
            return lo + (hi - lo) * rng.uniform(.02, .98)
        mag = rng.choice([.3, 1., 1., 3., 3.])
        if lo is not None:
            return lo + mag * rng.uniform(.02, 1.)
        if hi is not None:
            return hi - mag * rng.uniform(.02, 1.)
        return mag * rng.uniform(-1., 1.)
    raise Unsupported('domain %r' % (dom,))


def floor(x):
    """The integer part, by cases on the integers near zero (every other value is left
    undecided)."""
    x = Sym.of(x)
    if x.isconst():
        return math.floor(x.constval())
    for k in range(65):
        for n in (k, -k - 1):
            if n <= x and x < n + 1:
                return n
    raise Unsupported('floor of a large value')
