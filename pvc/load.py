"""Mechanical extraction: /repo modules, recompiled on every run.

What the extraction changes: a float literal becomes the exact decimal it
spells, and the quotient of two ints the exact rational; ``numpy``/``math`` become the symbolic ones; ``float`` is a shim that
lets symbolic reals through; each function start reports its name (the list of
functions under contract).  Docstrings are dropped.  Nothing else, except for the contracts
about sequences of any length, for which loops are also cut (see loops.py).
"""
import ast
import builtins
import os
import sys
import types
from . import npx
from . import loops as LP
from . import sym as Y

REPO = os.environ.get('PVC_REPO', '/repo')

_tree_cache = {}


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__pvc_lit__', ctx=ast.Load()),
                args=[ast.Constant(repr(node.value))], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__pvc_div__', ctx=ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        name = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:]
        mark = ast.Expr(ast.Call(func=ast.Name(id='__pvc_enter__', ctx=ast.Load()),
                                 args=[ast.Constant(name)], keywords=[]))
        node.body = [mark] + (body or [ast.Pass()])
        return node


def path_of(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py'), True
    return p + '.py', False


def tree_of(name, loops=False):
    path, pkg = path_of(name)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    key = (name, src, loops)
    if key not in _tree_cache:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            tree = Instr(name).visit(tree)
            if loops:
                tree = LP.Loops().visit(tree)
            ast.fix_missing_locations(tree)
            _tree_cache[key] = compile(tree, path, 'exec')
    return _tree_cache[key], path, pkg


class Loader(object):
    """A private set of the repository's modules over symbolic numpy."""

    def __init__(self, loops=False):
        self.mods = {}
        self.loops = loops
        self.num, self.lin, self.math = npx.build()
        self.functions = set()
        self.proxies = {'numpy': self.num, 'numpy.linalg': self.lin, 'math': self.math}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self.imp
        self.builtins['__pvc_lit__'] = npx.lit
        self.builtins['__pvc_div__'] = _div
        self.builtins['__pvc_enter__'] = self.functions.add
        self.builtins['float'] = npx.FloatShim
        self.builtins['sum'] = _sum
        if loops:
            # loops over abstract sequences (pvc/loops.py)
            self.builtins['__pvc_loop__'] = LP.loop
            self.builtins['__pvc_comp__'] = LP.comp
            self.builtins['__pvc_seq__'] = LP.seq
            self.builtins['__pvc_mods__'] = self.mods
            b, n = LP.shim(self.mods)
            self.builtins.update(b)
            LP.arrays(self.num, self.lin)
            for k, v in n.items():
                setattr(self.num, k, _either(v, getattr(self.num, k)))
        for k in ('pylab', 'matplotlib', 'matplotlib.pyplot', 'h5py', 'socket'):
            self.proxies[k] = Opaque(k)

    def stub(self, name, mod):
        self.proxies[name] = mod

    def bare(self, name):
        """Skip the __init__ of the package of this module (dependencies not installed)."""
        pkg = ('arboris.' + name).rpartition('.')[0]
        if pkg not in self.mods:
            parent = self.load(pkg.rpartition('.')[0])
            m = types.ModuleType(pkg)
            m.__package__ = pkg
            m.__path__ = [os.path.dirname(path_of('arboris.' + name)[0])]
            m.__dict__['__builtins__'] = self.builtins
            self.mods[pkg] = m
            setattr(parent, pkg.rpartition('.')[2], m)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'] or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        root = name.split('.')[0]
        if name in self.proxies:
            m = self.proxies[name]
            if not fromlist and '.' in name:
                return self.proxies.get(root, m)
            return m
        if root == 'arboris':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and \
                            os.path.exists(path_of(name + '.' + f)[0]):
                        self.load(name + '.' + f)
                return m
            return self.mods['arboris']
        if root == 'scipy':
            raise Y.Unsupported('scipy')
        return __import__(name, None, None, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        code, path, pkg = tree_of(name, self.loops)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m


def _div(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return Y.Sym.of(a) / Y.Sym.of(b)
    return a / b


def _either(f, g):
    return lambda *a, **k: f(*a) if a and isinstance(a[0], LP.Len) else g(*a, **k)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class Opaque(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Opaque(self.__name__ + '.' + k)

    def __call__(self, *a, **k):
        raise Y.Unsupported('call of %s' % self.__name__)
