"""Loop rule: loops over a sequence of any length, discharged by induction.

In loop mode (an option of a contract) the loader also rewrites ``for`` loops and
comprehensions so that one over an abstract sequence is cut: the body runs once on the first
element, then once on a generic element from a state in which everything the body changes is
arbitrary.  Each changed number must come out as what it was plus a term that depends on the
generic element only; its value after the loop is then its value after the first element plus
an opaque sum of these terms over the other elements.  Lists and dictionaries that the body
extends become abstract sequences in turn.  Loops over anything else run unchanged.
Whatever does not fit raises Unsupported, and the contract is reported as not discharged.
"""
import ast
import dis
import os
import sys
import types
import numpy as np
from . import sym as Y
from .sym import Sym, Unsupported, SH

ND = np.ndarray
REPO = os.environ.get('PVC_REPO', '/repo')


class Abstract(object):
    """A sequence: the items of the first element, then those of any number of others."""

    like = None          # a class that lends its methods

    def __init__(self, base, pre, gen):
        self.base, self.pre, self.gen = base, list(pre), list(gen)

    def __getattr__(self, k):
        if k.startswith('__') or self.like is None:
            raise AttributeError(k)
        v = getattr(self.like, k)
        return v.__get__(self) if isinstance(v, types.FunctionType) else v

    def __iter__(self):
        raise Unsupported('iteration over an abstract sequence')

    def __len__(self):
        raise Unsupported('length of an abstract sequence')

    def __bool__(self):
        if self.pre:
            return True
        raise Unsupported('emptiness of an abstract sequence')

    def __contains__(self, x):
        raise Unsupported('membership in an abstract sequence')

    def __getitem__(self, i):
        if isinstance(i, Index) and i.base is self.base and i.shape == (
                len(self.pre), len(self.gen)):
            return i.of(self)
        raise Unsupported('item of an abstract sequence')

    def map(self, f):
        return Abstract(self.base, [f(x) for x in self.pre], [f(x) for x in self.gen])

    def keys(self):
        raise Unsupported('keys of an abstract sequence')

    def append(self, x):
        raise Unsupported('append to an abstract sequence')


class AbstractDict(Abstract):
    def __init__(self, base, pre, gen, vals):
        Abstract.__init__(self, base, pre, gen)
        self.vals = vals

    def __getitem__(self, k):
        for key, v in self.vals:
            if key is k:
                return v
        raise Unsupported('item of an abstract dictionary')

    def get(self, k, d=None):
        return self[k]

    def keys(self):
        return Abstract(self.base, self.pre, self.gen)

    def values(self):
        return self.keys().map(self.__getitem__)

    def items(self):
        return self.keys().map(lambda k: (k, self[k]))


class Len(object):
    def __init__(self, seq):
        self.seq = seq


class Index(object):
    def __init__(self, base, shape, generic, k):
        self.base, self.shape, self.generic, self.k = base, shape, generic, k

    def of(self, seq):
        return (seq.gen if self.generic else seq.pre)[self.k]

    def __index__(self):
        if self.generic:
            raise Unsupported('abstract index')
        return self.k


class Base(object):
    """The elements of one abstract sequence and the sums taken over them.

    private: what the elements lead to belongs to them alone, and loops may change it;
    yields: generators over the sequence are run by the contract itself, so that a value
    handed out twice does no harm.
    """

    def __init__(self, name, make, end=None, private=False, yields=False):
        self.name = name
        self.first, self.x = make('first'), make('x')
        self.on_end = end
        self.ended = 0
        self.private, self.yields = private, yields
        self.left = False    # a loop ended at the generic element
        self.guess = []      # whether something was there already, in growing containers

    def end(self, tag):
        self.ended += 1
        if self.on_end:
            self.on_end(tag)

    def seq(self):
        return Abstract(self, [self.first], [self.x])

    def sum_of(self, F, key):
        return Store.now().sum_of(self, F, key)

    def sums(self, t, what):
        """the sum over the other elements of a number or array"""
        key = Store.now().site(what)
        if isinstance(t, ND):
            r = np.empty(t.shape, dtype=object)
            for i in np.ndindex(*t.shape):
                r[i] = self.sum_of(Y.Sym.of(t[i]), key + i)
            return r
        return self.sum_of(Y.Sym.of(t), key)

    def total(self, f):
        """The sum of f over the whole sequence, as the loops computed it."""
        return f(self.first) + self.sums(f(self.x), 'total')


def whole(i):
    return isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, None) or i is ...


class Vast(object):
    """An array of zeros with symbolic sizes. It can be written to, and views taken of it; the
    numbers in it cannot be read."""

    def __init__(self, shape, refs=False):
        self.shape = shape
        self.refs = refs     # a list: it holds the values themselves
        self.ndim = len(shape)
        self.writes = []     # (index, value)
        Store.now().arrays.append(self)

    def no(self, *a, **k):
        raise Unsupported('the content of an array of symbolic size')
    __iter__ = __len__ = __bool__ = __eq__ = __add__ = __radd__ = __iadd__ = __mul__ = no
    __rmul__ = __sub__ = __rsub__ = __neg__ = __truediv__ = no
    __hash__ = object.__hash__

    def key(self, i):
        i = list(i) if isinstance(i, tuple) else [i]
        while len(i) > 1 and whole(i[-1]):
            i.pop()
        if len(i) != 1:
            raise Unsupported('index of an array of symbolic size')
        return i[0]

    def __getitem__(self, i):
        return View(self, self.key(i))

    def __setitem__(self, i, v):
        self.writes.append((self.key(i), v.copy() if isinstance(v, ND) and not self.refs else v))

    def copy(self):
        self.no()

    @property
    def T(self):
        return Vague()


class View(object):
    """A part of an array of symbolic size."""

    def __init__(self, of, index):
        self.of, self.index = of, index

    no = Vast.no
    __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = no

    def covers(self, of, start, stop):
        i = self.index
        return self.of is of and isinstance(i, slice) and i.step in (None, 1) and \
            same(i.start, start) and same(i.stop, stop)


class Vague(object):
    """Any array: its shape and content are left out of account."""
    shape = None

    def op(self, *a):
        return Vague()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = op
    __matmul__ = __rmatmul__ = copy = ravel = op
    T = property(op)

    def __iadd__(self, x):
        return self

    __isub__ = __imul__ = __iadd__

    def __getitem__(self, i):
        return Part(self, i)

    def __setitem__(self, i, v):
        pass

    def no(self, *a, **k):
        raise Unsupported('the content of an array left out of account')
    __iter__ = __len__ = __bool__ = __eq__ = no
    __hash__ = object.__hash__


class Part(Vague):
    def __init__(self, of, index):
        self.of, self.index = of, index


class LongList(object):
    """A sequence of symbolic length, handed to code that only asks how long it is."""

    def __init__(self, n):
        self.n = n


def opaque(x):
    return isinstance(x, (Vague, Vast, View)) or \
        isinstance(x, ND) and x.dtype == object and any([isinstance(v, Vague) for v in x.flat])


def symbolic(x):
    return isinstance(x, Sym) and not x.isconst()


def arrays(num, lin):
    """numpy functions that know arrays of symbolic size"""
    def zeros(old):
        def f(shape, *a, **k):
            t = shape if isinstance(shape, tuple) else (shape,)
            if any([symbolic(x) for x in t]):
                return Vast(t)
            return old(shape, *a, **k)
        return f

    def vague(old, r):
        def f(*a, **k):
            if any([opaque(x) for x in a]):
                return r()
            return old(*a, **k)
        return f
    for k in ('zeros', 'ones', 'empty'):
        setattr(num, k, zeros(getattr(num, k)))
    num.dot = vague(num.dot, Vague)
    count = [0]

    def number_():
        count[0] += 1
        return Y.var('vague%d' % count[0])
    lin.norm = vague(lin.norm, number_)


def repeat(x, n):
    """[None]*n with n symbolic"""
    if getattr(Y.cur(), 'store', None) is not None and isinstance(x, list) and len(x) == 1 and \
            symbolic(n):
        return Vast((n,), True)
    return NotImplemented


Y.REPEAT = repeat


def shim(mods):
    """Builtins and numpy functions that know abstract sequences."""
    b_len, b_range, b_zip, b_enum = len, range, zip, enumerate

    def len_(x):
        if isinstance(x, LongList):
            return x.n
        return Len(x) if isinstance(x, Abstract) else b_len(x)

    def idx(n):
        s = n.seq
        shape = (b_len(s.pre), b_len(s.gen))
        return Abstract(s.base, [Index(s.base, shape, False, k) for k in b_range(shape[0])],
                        [Index(s.base, shape, True, k) for k in b_range(shape[1])])

    def range_(*a):
        return idx(a[0]) if b_len(a) == 1 and isinstance(a[0], Len) else b_range(*a)

    def zip_(*a, **k):
        if not any([isinstance(x, Abstract) for x in a]):
            return b_zip(*a, **k)
        s = a[0]
        if not all([isinstance(x, Abstract) and x.base is s.base and b_len(x.pre) == b_len(s.pre)
                    and b_len(x.gen) == b_len(s.gen) for x in a]):
            raise Unsupported('zip of abstract sequences that do not match')
        return Abstract(s.base, b_zip(*[x.pre for x in a]), b_zip(*[x.gen for x in a]))

    def enumerate_(s, start=0):
        if not isinstance(s, Abstract) or start:
            return b_enum(s, start)
        return zip_(idx(Len(s)), s)

    def sum_(s, start=0):
        if not isinstance(s, Abstract):
            r = start
            for x in s:
                r = r + x
            return r
        r = start
        for x in s.pre:
            r = r + x
        if len(s.gen) > 1:
            raise Unsupported('several items per element')
        for x in s.gen or [Y.ZERO]:
            if not isinstance(x, ND) and not number(x):
                raise Unsupported('sum of an abstract sequence')
            r = r + s.base.sums(x, 'sum')
        return r
    return dict(len=len_, range=range_, zip=zip_, enumerate=enumerate_, sum=sum_), \
        dict(arange=range_)


def comp(kind, it, elt, cond, star):
    f = (lambda x: elt(*x)) if star else elt
    c = None if cond is None else (lambda x: cond(*x)) if star else cond
    if isinstance(it, Abstract):
        if kind == 'set':
            raise Unsupported('set of an abstract sequence')
        pre = [f(x) for x in it.pre if c is None or c(x)]
        frame = sys._getframe(1)
        before = watch(frame, it)
        gen = [f(x) for x in it.gen if c is None or c(x)]
        for o, v in before.nodes.values():
            if not Cut.equal(v, contents(o)):
                raise Unsupported('a comprehension changes something')
        return Abstract(it.base, pre, gen)
    if kind == 'list':
        return [f(x) for x in it if c is None or c(x)]
    if kind == 'set':
        return {f(x) for x in it if c is None or c(x)}
    return (f(x) for x in it if c is None or c(x))


def local(frame):
    return {k: v for k, v in frame.f_locals.items() if not k.startswith('__pvc')}


def watch(frame, it):
    """All that the code run by a frame can reach, the elements included."""
    return Snap(dict(local(frame), items=it.pre + it.gen, elements=(it.base.first, it.base.x),
                     **hidden(frame)), [])


def hidden(frame):
    """The global variables of the code under contract, and of this function."""
    d = {'module ' + k: vars(m) for k, m in frame.f_builtins['__pvc_mods__'].items()}
    d['globals'] = frame.f_globals
    return d


class Poison(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('value left by an abstract loop')


def seq(kind, make, *a):
    """list(x) or tuple(x)"""
    if len(a) == 1 and isinstance(a[0], Abstract):
        if kind != 'list' and kind != 'tuple' or make not in (list, tuple) or \
                isinstance(a[0], AbstractDict):
            raise Unsupported('%s of an abstract sequence' % kind)
        return Abstract(a[0].base, a[0].pre, a[0].gen)
    return make(*a)


def loop(it, yields):
    if isinstance(it, Abstract):
        if yields and not it.base.yields:
            raise Unsupported('yield in an abstract loop')
        return Cut(it, yields)
    return Plain(it)


class Plain(object):
    abstract = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Growing(object):
    """A list or dictionary that an abstract loop extends, seen from within the loop: anything
    may be in it already, so that it can be extended but not read."""

    def __init__(self, base, old):
        self.base, self.old = base, old
        self.added = []
        self.guess = []

    def no(self, *a, **k):
        raise Unsupported('a container is read while an abstract loop extends it')
    __iter__ = __len__ = __bool__ = __getitem__ = __delitem__ = __eq__ = __add__ = no
    __hash__ = None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        self.no()

    def append(self, x):
        if isinstance(self.old, dict):
            raise Unsupported('append to a dictionary')
        self.added.append(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __setitem__(self, k, v):
        if not isinstance(self.old, dict):
            raise Unsupported('item of an abstract sequence')
        own = k is self.base.x and not any([k is y for y in self.old]) and \
            not any([k is y for y, _ in self.added])
        if not own and k in self:
            raise Unsupported('key used twice')
        self.added.append((k, v))

    def __contains__(self, x):
        """Anybody's guess, but always the same."""
        for y, r in self.guess:
            if y is x or isinstance(x, str) and x == y:
                return r
        for y in self.added:
            y = y[0] if isinstance(self.old, dict) else y
            if y is x or isinstance(x, str) and x == y:
                return True
        olds = list(self.old)
        if any([x is y or isinstance(x, str) and x == y for y in olds]):
            return True
        r = bool(Y.cur().explorer.choose(2, 'in'))
        self.guess.append((x, r))
        self.base.guess.append((x, r))
        return r


# what cannot change, or is none of the loop's business
SKIP = (types.ModuleType, str, bytes, int, float, complex, Sym, bool, type(None), np.dtype, range,
        slice, type(...), type(NotImplemented), Abstract, Base, Index, Len, Poison, Plain, Growing,
        np.generic, np.ufunc, types.CodeType, types.GetSetDescriptorType, types.FrameType,
        types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType,
        types.ClassMethodDescriptorType, LongList, Vague)


def owner(a):
    while isinstance(a.base, ND):
        a = a.base
    return a


class Snap(object):
    """What can be reached from the local variables, except through the generic element.
    Every object has a name: the way it was first reached."""

    def __init__(self, roots, stop):
        self.stop = {id(x) for x in stop}
        self.nodes = {}      # id -> (node, contents)
        self.names = {}      # id -> name
        self.byname = {}
        todo = [(v, (k,)) for k, v in roots.items()]
        while todo:
            o, name = todo.pop()
            if isinstance(o, ND):
                self.see(o, name, todo)
                if o.base is None:
                    continue
                o, name = owner(o), name + ('.base',)
            elif isinstance(o, SKIP) or type(o) is object:
                continue
            elif isinstance(o, (types.MethodType, types.BuiltinFunctionType)):
                todo.append((o.__self__, name + ('.self',)))
                if isinstance(o, types.MethodType):
                    todo.append((o.__func__, name + ('.func',)))
                continue
            elif isinstance(o, type):
                if not ours(o):
                    continue
            self.see(o, name, todo)

    def see(self, o, name, todo):
        if id(o) in self.nodes or id(o) in self.stop:
            return
        if isinstance(o, Cut):
            return
        c = contents(o)
        if c is None:
            return
        self.nodes[id(o)] = (o, c)
        self.names[id(o)] = name
        self.byname[name] = o
        if not isinstance(o, ND):
            # the order of a set may change from run to run
            tag = ('set',) if isinstance(o, (set, frozenset)) else ()
            for i, (k, v) in enumerate(c.items()):
                if k == '__builtins__':
                    continue
                todo.append((v, name + tag + (k if isinstance(k, (str, int)) else 'key%d' % i,)))
                if isinstance(o, dict) and not isinstance(k, (str, int)):
                    todo.append((k, name + ('.key%d' % i,)))
            if type(o) is not dict and type(o) is not list and not isinstance(o, type):
                todo.append((type(o), name + ('.class',)))

    def restore(self):
        for o, c in self.nodes.values():
            put(o, c)


def ours(o):
    """A class or function of the code under contract, not of the contract or a library."""
    return (getattr(o, '__module__', None) or '').split('.')[0] == 'arboris'


def contents(o):
    if isinstance(o, ND):
        if o.dtype != object:
            return {0: o.copy()}
        if not o.flags.c_contiguous:
            return {i: v for i, v in enumerate(o.flat)}
        return dict(enumerate(o.reshape(-1)))
    if isinstance(o, type):
        return {k: v for k, v in vars(o).items() if k not in ('__dict__', '__weakref__')}
    if isinstance(o, types.FunctionType):
        if not ours(o):
            return None
        c = {}
        for i, x in enumerate(o.__closure__ or ()):
            try:
                c['cell', i] = x.cell_contents
            except ValueError:
                pass
        for i, v in enumerate(o.__defaults__ or ()):
            c['default', i] = v
        for k, v in (o.__kwdefaults__ or {}).items():
            c['default', k] = v
        for k, v in vars(o).items():
            c['attr', k] = v
        return c
    if isinstance(o, (staticmethod, classmethod)):
        return {0: o.__func__}
    if isinstance(o, property):
        return {0: o.fget, 1: o.fset, 2: o.fdel}
    if isinstance(o, types.MappingProxyType):
        return dict(o)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, (set, frozenset)):
        return {('set', id(v)): v for v in o}
    if isinstance(o, tuple):
        return dict(enumerate(o))
    c = None
    d = getattr(o, '__dict__', None)
    if isinstance(d, dict):
        c = dict(d)
    for t in type(o).__mro__:
        for k in ([t.__slots__] if isinstance(t.__dict__.get('__slots__'), str)
                  else t.__dict__.get('__slots__', ())):
            if k not in ('__dict__', '__weakref__') and hasattr(o, k):
                c = dict(c or {})
                c[k] = getattr(o, k)
    if isinstance(o, list):
        c = dict(c or {})
        c.update(enumerate(list.__iter__(o)))
    if c is None or hasattr(type(o), '__next__'):
        # an iterator, or something unknown: it may change without a trace
        raise Unsupported('an abstract loop sees a %s' % type(o).__name__)
    return c


def put(o, c):
    if isinstance(o, ND):
        if o.dtype != object:
            if not np.array_equal(o, c[0]):
                o[...] = c[0]
            return
        for i, v in c.items():
            o.flat[i] = v
        return
    c1 = contents(o)
    if list(c1) == list(c) and all([c1[k] is c[k] for k in c]):
        return
    if isinstance(o, list):
        n = len([k for k in c if isinstance(k, int)])
        o[:] = [c[i] for i in range(n)]
        c = {k: v for k, v in c.items() if isinstance(k, str)}
        if c or getattr(o, '__dict__', None):
            o.__dict__.clear()
            o.__dict__.update(c)
    elif isinstance(o, set):
        o.clear()
        o.update(c.values())
    elif isinstance(o, dict):
        o.clear()
        o.update(c)
    elif type(getattr(o, '__dict__', None)) is dict and not isinstance(o, types.FunctionType):
        o.__dict__.clear()
        o.__dict__.update(c)
    else:
        raise Unsupported('a loop changes hidden state')


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return (a - b).iszero()
    if isinstance(a, (int, bool, str)) and type(a) is type(b):
        return a == b
    return False


def number(v):
    return isinstance(v, (Sym, float, np.floating, int)) and not isinstance(v, bool)


class Leave(BaseException):
    """The generic element leaves the loop, in a state that is not yet arbitrary."""

    def __init__(self, cut):
        self.cut = cut


ENGINE = (Unsupported, Y.SymZeroDivision)     # never an outcome of the loop


def straight(frame):
    """The values of a generator go to the contract and nowhere else."""
    while True:
        frame = frame.f_back
        if not frame.f_code.co_filename.startswith(REPO):
            if frame.f_code is not Plain.__iter__.__code__:
                return
            frame = None
        ops = {} if frame is None else {i.offset: i.opname for i in dis.get_instructions(
            frame.f_code)}
        if frame is None or ops.get(frame.f_lasti) != 'SEND':
            raise Unsupported('values of an abstract loop are used on the way')


class Cut(object):
    """One abstract loop."""
    abstract = True

    def __init__(self, seq, yields=False):
        self.seq = seq
        self.yields = yields
        self.k = 0
        self.state = 'pre'
        self.locals_in = {}
        self.locals_out = {}
        self.n = 0
        self.left = False
        self.skip = False    # the generic element leaves the loop: no others after it
        self.id = Store.now().enter(self)

    def __iter__(self):
        return self

    # called by the rewritten loop
    def head(self):
        d, self.locals_in = self.locals_in, {}
        return d

    def post(self):
        if self.left:
            return {}
        return self.locals_out

    def leave(self):
        if self.state == 'dry':
            raise Leave(self)
        self.left = True
        if self.state == 'step':
            self.seq.base.end('left')
            self.seq.base.left = True
        Store.now().exit(self)

    def caught(self, e):
        """An exception in the body: whether to go on with the loop."""
        if isinstance(e, Leave):
            self.skip = self.skip or e.cut is self
            return e.cut is self
        if isinstance(e, Exception) and not isinstance(e, ENGINE) and \
                type(e).__name__ != 'Infeasible':
            if self.state == 'dry':
                self.skip = True
                return True
            self.leave()
        return False

    def stop(self):
        b = self.seq.base
        return [self.x, b.x, b.first, self.seq, b]

    def snap(self, frame):
        loc = local(frame)
        self.hidden = hidden(frame)
        return loc, Snap(dict(loc, **self.hidden), self.stop())

    def elements(self):
        base = self.seq.base
        return Snap(dict(x=base.x, first=base.first, item=self.x), [])

    def __next__(self):
        store = Store.now()
        if self.yields:
            straight(sys._getframe(1))
        if self.state == 'pre':
            if self.k:
                self.seq.base.end('first')
            if self.k < len(self.seq.pre):
                self.k += 1
                return self.seq.pre[self.k - 1]
            if len(self.seq.gen) > 1:
                raise Unsupported('several items per element')
            frame = sys._getframe(1)
            self.x = self.seq.gen[0] if self.seq.gen else None
            self.loc0, self.s0 = self.snap(frame)
            self.loc1, self.s1 = self.loc0, self.s0
            self.e0 = self.elements()
            self.state = 'dry'
            if self.seq.gen:
                return self.x
            # the generic element has no part in this loop, but others may
            new = {}
        else:
            frame = sys._getframe(1)
            loc2 = local(frame)
            self.seq.base.end(self.state)
            e = self.elements()
            if not self.seq.base.private and not self.skip:
                for i, (o, c) in self.e0.nodes.items():
                    if i in e.nodes and not self.equal(c, e.nodes[i][1]):
                        raise Unsupported('the loop changes the elements')
            new = {} if self.skip else self.diff(loc2)
        if self.state == 'dry':
            store.found(self, new)
            self.s1.restore()
            self.s0.restore()
            if self.seq.base.private:
                self.e0.restore()
            self.cells = store.cells_of(self)
            self.havoc()
            self.state = 'step'
            if self.seq.gen:
                return self.x
            loc2 = dict(self.loc1)
        elif store.found(self, new):
            raise Unsupported('the changes of the loop do not settle')
        self.conclude(loc2)
        store.exit(self)
        raise StopIteration

    @staticmethod
    def equal(a, b):
        return list(a) == list(b) and all([
            same(a[k], b[k]) or (isinstance(a[k], ND) and isinstance(b[k], ND) and
                                 a[k].dtype != object and np.array_equal(a[k], b[k]))
            for k in a])

    def diff(self, loc2):
        """what changed since the last snapshot: ('local', name), ('cell', object, key) or
        ('grow', object)"""
        r = {}
        name = self.s0.names
        for k, v in loc2.items():
            if k not in self.loc1 or not same(self.loc1[k], v):
                r['local', k] = None
        for i, (o, c) in self.s1.nodes.items():
            c2 = contents(o)
            if i not in name:
                # made by the loop rule
                if not self.equal(c, c2):
                    raise Unsupported('an array that a loop replaces is changed in place')
                continue
            if isinstance(o, (type, types.FunctionType, property, staticmethod, classmethod)):
                if not self.equal(c, c2):
                    raise Unsupported('a loop changes hidden state')
                continue
            if isinstance(o, ND) and o.dtype != object:
                if not np.array_equal(c[0], c2[0]):
                    raise Unsupported('a loop changes an array of numbers')
                continue
            if isinstance(o, (list, dict)) and len(c2) > len(c):
                if i in self.proxies:
                    raise Unsupported('a container is extended unseen')
                r['grow', name[i]] = None
                ks = list(c2)[:len(c)]
                if ks != list(c) or not all([same(c[k], c2[k]) for k in c]):
                    raise Unsupported('a loop rearranges a container')
                continue
            if isinstance(o, (list, tuple, set)) and len(c) != len(c2):
                raise Unsupported('a loop changes a container: %s' % (self.s0.names.get(i),))
            for k in list(c) + [k for k in c2 if k not in c]:
                if k not in c or k not in c2 or not same(c[k], c2[k]):
                    if isinstance(o, dict) and not isinstance(k, (str, int)):
                        raise Unsupported('a loop changes a dictionary')
                    r['cell', name[i], k] = None
        for key in r:
            if key[0] != 'local' and 'set' in key[1]:
                raise Unsupported('a loop changes what a set holds')
        return r

    def fresh(self, what):
        return Y.var('lp%s_%d_%s' % (self.id, self.n, what))

    proxies = {}

    def havoc(self):
        """arbitrary values for everything that changes"""
        self.done = {}       # id of the old value -> new value
        self.loc1 = dict(self.loc0)
        self.proxies = {}    # id of the container -> proxy
        n = 0
        for key in self.cells:
            if key[0] == 'grow' and key[1] in self.s0.byname:
                o = self.s0.byname[key[1]]
                self.proxies[id(o)] = Growing(self.seq.base, o)
        for key in self.cells:
            n += 1
            if key[0] == 'local':
                old = self.loc0.get(key[1])
                v = self.arbitrary(old, n) if key[1] in self.loc0 else Poison()
                self.loc1[key[1]] = v
                self.locals_in[key[1]] = v
            elif key[0] == 'cell' and key[1] in self.s0.byname:
                o = self.s0.byname[key[1]]
                c = self.s0.nodes[id(o)][1]
                if key[2] not in c:
                    continue      # appears in the loop: read there only after it was written
                self.write(o, key[2], self.arbitrary(c[key[2]], n))
        self.swap(self.proxies, self.locals_in, self.loc1)
        self.s1 = Snap(dict(self.loc1, **self.hidden), self.stop())
        # containers seen at first stay under watch
        for i, (o, c) in self.s0.nodes.items():
            if i not in self.s1.nodes:
                self.s1.nodes[i] = (o, contents(o))

    @staticmethod
    def write(o, k, v):
        if isinstance(o, ND):
            o.reshape(-1)[k] = v
        elif isinstance(o, (list, dict)) and not (isinstance(o, list) and isinstance(k, str)):
            o[k] = v
        elif isinstance(o, (tuple, set)):
            raise Unsupported('a loop changes a container')
        else:
            o.__dict__[k] = v

    def swap(self, repl, out, loc):
        """puts the replacements in the place of the containers"""
        if not repl:
            return
        for i, (o, c) in self.s0.nodes.items():
            if not any([id(v) in repl for v in c.values()]):
                continue
            if isinstance(o, (ND, tuple, set)):
                raise Unsupported('container in a container')
            for k, v in c.items():
                if id(v) in repl:
                    self.write(o, k, repl[id(v)])
        for k, v in self.loc0.items():
            if id(v) in repl:
                out[k] = loc[k] = repl[id(v)]

    def arbitrary(self, old, n):
        if isinstance(old, ND) and old.dtype == object:
            if id(old) in self.done:
                raise Unsupported('two names of an array that a loop replaces')
            self.done[id(old)] = old
            v = np.empty(old.shape, dtype=object)
            f = v.reshape(-1)
            for i in range(v.size):
                f[i] = self.fresh('%d_%d' % (n, i))
            return v
        if isinstance(old, bool):
            return bool(Y.cur().explorer.choose(2, 'flag'))
        if number(old):
            return self.fresh('%d' % n)
        return Poison()

    def conclude(self, loc2):
        hav = set()
        for key in self.cells:
            v = self.loc1.get(key[1]) if key[0] == 'local' else None
            if key[0] == 'cell' and key[1] in self.s0.byname:
                v = self.s1.nodes[id(self.s0.byname[key[1]])][1].get(key[2])
            for x in (v.reshape(-1) if isinstance(v, ND) and v.dtype == object else [v]):
                if isinstance(x, Sym):
                    hav |= gens(x)
        base = self.seq.base

        def final(old, h, v, key):
            """value after the loop of a cell: before, havoc, after one generic step"""
            if isinstance(old, bool):
                return bool(Y.cur().explorer.choose(2, 'flag'))
            if not number(old) or not isinstance(h, Sym):
                return Poison()
            d = Y.Sym.of(v) - h if number(v) else None
            if d is None or gens(d) & hav:
                Store.now().lost(base, (self.id,) + key)
                return self.fresh('end_%s' % '_'.join([str(k) for k in key]))
            r = Store.now().sum_of(base, d, (self.id,) + key)
            if r is None:
                return self.fresh('end_%s' % '_'.join([str(k) for k in key]))
            return Y.Sym.of(old) + r

        def finals(old, h, v, key):
            if isinstance(old, ND) and isinstance(h, ND):
                if not isinstance(v, ND) or v.shape != old.shape or v.dtype != object:
                    return Poison()
                r = np.empty(old.shape, dtype=object)
                for i in np.ndindex(*old.shape):
                    r[i] = final(old[i], h[i], v[i], key + i)
                return r
            return final(old, h, v, key)
        self.keep = [loc2]
        out = {}
        edits = []
        repl = {}
        for key in self.cells:
            if key[0] == 'local':
                k = key[1]
                out[k] = Poison() if k not in self.loc0 or k not in loc2 else finals(
                    self.loc0[k], self.loc1[k], loc2[k], key)
                continue
            o = self.s0.byname.get(key[1])
            if o is None:
                continue
            c = self.s0.nodes[id(o)][1]
            if key[0] == 'cell':
                h = self.s1.nodes[id(o)][1].get(key[2])
                v = contents(o).get(key[2])
                edits.append((o, key[2], finals(c[key[2]], h, v, key) if key[2] in c
                              else Poison()))
            else:
                add = self.proxies[id(o)].added
                if isinstance(o, list):
                    new = Abstract(base, [c[i] for i in range(len(c))], add)
                else:
                    new = AbstractDict(base, list(c), [k for k, v in add],
                                       list(c.items()) + add)
                repl[id(o)] = new
        self.s0.restore()
        for o, k, v in edits:
            self.write(o, k, v)
        self.swap(repl, out, {})
        self.locals_out = out


class Store(object):
    """What is known of the abstract loops of a contract, over all its paths.

    The elements of a sequence need not be alike, and a path shows one kind of element only.
    So a loop starts its step with everything arbitrary that any kind of element changes, and
    two sums are the same only if their terms agree for every kind.  The paths are explored
    again and again until neither of the two changes; only the last round counts.
    """

    def __init__(self):
        self.cells = {}      # loop -> {cell}
        self.part = {}       # (sequence, sum) -> (class, sign)
        self.sig = {}        # the same, in the making
        self.classes = 0
        self.settled = False
        self.rounds = 0
        self.begin()
        self.path()

    @staticmethod
    def now():
        S = Y.cur()
        if getattr(S, 'store', None) is None:
            S.store = Store()
        return S.store

    # ---------------------------------------------------------------- rounds
    def begin(self):
        self.changed = False
        self.rounds += 1
        self.split = {}      # (sequence, sum) -> [(class, sign) on each path]
        self.npath = 0

    def path(self):
        self.stack = [['', 0]]
        self.count = {}
        self.arrays = []     # of symbolic size
        self.terms = {}      # (sequence, sum) -> (term, class on this path, sign)
        self.local = {}      # sequence -> [(term, class)]

    def path_done(self):
        """the sums of a path that was followed to its end"""
        for k, (F, cls, sign) in self.terms.items():
            self.split.setdefault(k, {})[self.npath] = (cls, sign)
        self.npath += 1

    def round_done(self):
        """Whether the round just finished can count."""
        part = {}
        byvec = {}
        for k, d in self.split.items():
            s = 1
            for v in d.values():
                if v[1]:
                    s = v[1]
                    break
            vec = (k[0], tuple(sorted((n, v[0], v[1] * s) for n, v in d.items())))
            if not any([v[1] for v in d.values()]):
                vec = (k[0], 'zero')
                s = 0
            part[k] = (byvec.setdefault(vec, len(byvec)), s)
        old, self.part = self.part, part

        def shape(p):
            g = {}
            for k, (c, s) in p.items():
                g.setdefault((k[0], c if s else 'zero'), []).append((k, s))
            return sorted([sorted([(repr(k), s * m[0][1]) for k, s in m]) for m in g.values()])
        same_ = shape(old) == shape(part)
        self.settled = same_ and not self.changed
        return self.settled

    # ---------------------------------------------------------------- loops
    def enter(self, cut):
        top = self.stack[-1]
        top[1] += 1
        cid = '%s/%s%d' % (top[0], top[2].state if len(top) > 2 else '', top[1])
        self.stack.append([cid, 0, cut])
        return cid

    def exit(self, cut):
        for i, x in enumerate(self.stack):
            if len(x) > 2 and x[2] is cut:
                del self.stack[i:]
                return

    def found(self, cut, new):
        """Notes what a loop changes; whether anything is new."""
        have = self.cells.setdefault(cut.id, {})
        r = [k for k in new if k not in have]
        for k in r:
            have[k] = None
            self.changed = True
        return bool(r)

    def cells_of(self, cut):
        return dict(self.cells.get(cut.id, {}))

    # ---------------------------------------------------------------- sums
    def site(self, what):
        k = (self.stack[-1][0], self.stack[-1][2].state if len(self.stack[-1]) > 2 else '', what)
        self.count[k] = self.count.get(k, 0) + 1
        return k + (self.count[k],)

    def lost(self, base, key):
        """a value that is not a sum, on this path"""
        k = ('lost', base.name, key)
        if k not in self.cells:
            self.cells[k] = {}
            self.changed = True

    def sum_of(self, base, F, key):
        if ('lost', base.name, key) in self.cells:
            return None
        k = (base.name, key)
        F = Y.Sym.of(F)
        loc = self.local.setdefault(base.name, [])
        if F.iszero():
            cls, sign = 0, 0
        else:
            for G, c in loc:
                if (F - G).iszero():
                    cls, sign = c, 1
                    break
                if (F + G).iszero():
                    cls, sign = c, -1
                    break
            else:
                cls, sign = len(loc) + 1, 1
                loc.append((F, cls))
        if k in self.terms:
            raise Unsupported('a sum is taken twice')
        self.terms[k] = (F, cls, sign)
        if k not in self.part:
            # first seen in this round
            self.changed = True
            if not sign:
                return Y.ZERO
            return Y.var('sum_%s_new%d' % (base.name, cls)) * sign
        c, s = self.part[k]
        if not s:
            if sign:
                self.changed = True
            return Y.ZERO
        return Y.var('sum_%s_%d' % (base.name, c)) * s


def gens(x):
    """indices of the symbols a number depends on"""
    S = Y.cur()
    out = set()
    work = [x]
    while work:
        y = work.pop()
        ps = [y.num] + [S.factors[f] for f, e in y.den]
        for p in ps:
            for i in Y.p_gens(p):
                if i in out:
                    continue
                out.add(i)
                g = S.gens[i]
                if isinstance(g.arg, Sym):
                    work.append(g.arg)
                if g.deriv:
                    work += list(g.deriv)
                if g.rule:
                    work.append(Sym(g.rule))
    return out


# ------------------------------------------------------------------ the rewriting
def stored(nodes):
    r = []

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            r.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.append(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return [x for x in dict.fromkeys(r) if not x.startswith('__pvc')]


class Breaks(ast.NodeTransformer):
    """Calls leave() before what leaves this loop early."""

    def __init__(self, name):
        self.name = name
        self.depth = 0
        self.yields = False

    def leave(self, node):
        test = ast.If(ast.Attribute(ast.Name(self.name, ast.Load()), 'abstract', ast.Load()),
                      [ast.Expr(ast.Call(ast.Attribute(ast.Name(self.name, ast.Load()), 'leave',
                                                       ast.Load()), [], []))], [])
        return [test, node]

    def visit_Break(self, node):
        return node if self.depth else self.leave(node)

    def visit_Return(self, node):
        return self.leave(node)

    def visit_For(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        node.orelse = self.block(node.orelse)
        return node

    visit_While = visit_For

    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            out += s if isinstance(s, list) else [s]
        return out

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Yield(self, node):
        self.yields = True
        return node

    visit_YieldFrom = visit_Yield


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = 0
        self.names = []      # of the local variables of the functions around

    def visit_FunctionDef(self, node):
        self.fn += 1
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x]
        away = [k for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal))
                for k in x.names]
        self.names.append([k for k in names + stored(node.body) if k not in away])
        self.generic_visit(node)
        self.names.pop()
        self.fn -= 1
        return node

    def visit_ClassDef(self, node):
        fn, self.fn = self.fn, 0
        self.generic_visit(node)
        self.fn = fn
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.fn:
            return node
        self.n += 1
        name = '__pvc_loop_%d' % self.n
        names = list(dict.fromkeys(self.names[-1] + stored([node.target] + node.body)))
        b = Breaks(name)
        body = b.block(node.body)
        init = ast.parse("%s = __pvc_loop__(None, %r)" % (name, b.yields)).body[0]
        init.value.args[0] = node.iter

        def get(f, skip=()):
            return ast.parse("if {0}.abstract:\n    __pvc_d = {0}.{1}()\n".format(name, f) + ''.join(
                "    if %r in __pvc_d: %s = __pvc_d[%r]\n" % (x, x, x)
                for x in names if x not in skip)).body
        # the target is the element itself: not havocked at the head of the body
        node.body = get('head', stored([node.target])) + body
        wrap = ast.parse("try:\n    pass\nexcept BaseException as __pvc_e:\n"
                         "    if not {0}.abstract or not {0}.caught(__pvc_e):\n"
                         "        raise\n".format(name)).body[0]
        wrap.body = node.body
        node.body = [wrap]
        node.iter = ast.Name(name, ast.Load())
        r = [init, node]
        if node.orelse:
            # runs unless the loop is left
            node.orelse = get('post') + node.orelse
        else:
            r += get('post')
        for s in r:
            ast.copy_location(s, node)
        return r

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn and isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple') and \
                not node.keywords:
            return ast.copy_location(ast.Call(
                ast.Name('__pvc_seq__', ast.Load()),
                [ast.Constant(node.func.id), node.func] + node.args, []), node)
        return node

    def comp(self, node, kind):
        self.generic_visit(node)
        if not self.fn or len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if any([isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)]):
            return node
        if isinstance(g.target, ast.Name):
            args, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and \
                all([isinstance(x, ast.Name) for x in g.target.elts]):
            args, star = [x.id for x in g.target.elts], True
        else:
            return node

        def lam(e):
            return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None,
                                            []), e)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return ast.copy_location(ast.Call(
            ast.Name('__pvc_comp__', ast.Load()),
            [ast.Constant(kind), g.iter, lam(node.elt), cond, ast.Constant(star)], []), node)

    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_SetComp(self, node):
        return self.comp(node, 'set')
