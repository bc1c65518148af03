"""Loads the real sources of skcurve from /repo, lightly rewritten so that scalar
conversions and isinstance keep symbolic values, with the library proxies in place
of numpy and friends."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import numbers
import os
import sys

import numpy as np

from . import engine as E
from . import scalars as S
from . import arrays as A
from .scalars import SymBool, SymNum, num

CALLS = {'float': '_sxm_float', 'int': '_sxm_int', 'bool': '_sxm_bool', 'isinstance': '_sxm_isinstance',
         'issubclass': None, 'round': None}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPTYPES = {'float64', 'float32', 'float_', 'int64', 'int32', 'intp', 'int_', 'bool_', 'double'}


def sx_float(x=0.0):
    if isinstance(x, (SymNum, SymBool)):
        return S.cast(num(x), A.F64)
    if isinstance(x, A.SymArray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return S.cast(num(x.item()), A.F64)
    return float(x)


def sx_int(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, SymBool):
        return num(x)
    if isinstance(x, A.SymArray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.item()
    if isinstance(x, SymNum):
        if type(x) is not SymNum:
            return int(x)
        if S.isnan(x):
            raise ValueError('cannot convert float NaN to integer')
        if S.is_special(x):
            raise OverflowError('cannot convert float infinity to integer')
        r = S.trunc_(x)
        return r if S._isterm(r.v) else int(r.v)
    return int(x)


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, A.SymArray) and x.size == 1 and x.dtype == A.BOOL:
        v = x.item()
        return v if isinstance(v, SymBool) else bool(v)
    return bool(x)


def _flat(t):
    if isinstance(t, tuple):
        for u in t:
            yield from _flat(u)
    else:
        yield t


def sx_isinstance(x, t):
    if isinstance(x, SymNum):
        for u in _flat(t):
            if u in (object, numbers.Number, numbers.Real, numbers.Complex, SymNum):
                return True
            if u in (float, np.floating, np.float64, np.inexact) and x.k == 'f':
                return True
            if u in (int, np.integer, np.int64, numbers.Integral, numbers.Rational, np.signedinteger) and x.k == 'i':
                return True
            if u in (np.number, np.generic):
                return True
        return False
    if isinstance(x, SymBool):
        return any(u in (bool, np.bool_, object, int, np.generic) for u in _flat(t))
    return isinstance(x, t)


def sx_nptype(tp, x, *a, **k):
    if a or k or not A.is_sym(x) or not (isinstance(tp, type) and issubclass(tp, np.generic)):
        return tp(x, *a, **k)
    if isinstance(x, A.SymArray) and x.ndim:
        return x.astype(tp)
    return S.cast(A._elem(x), np.dtype(tp))


def sx_enter(name):
    e = E.cur()
    if e is not None and name.startswith('skcurve'):
        e.funcs.add(name)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('map', 'filter') and node.args and isinstance(node.args[0], ast.Name) and CALLS.get(node.args[0].id):
            node.args[0] = ast.copy_location(ast.Name(CALLS[node.args[0].id], ast.Load()), node.args[0])
        if isinstance(f, ast.Name) and CALLS.get(f.id):
            f.id = CALLS[f.id]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') \
                and f.attr in NPTYPES and node.args:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name('_sxm_nptype', ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == 'type' and node.args:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name('_sxm_nptype', ast.Load()), f)
        return node

    def _fn(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        q = '%s.%s' % (self.mod, '.'.join(self.scope))
        self.scope.pop()
        ent = ast.Expr(ast.Call(ast.Name('_sxm_enter', ast.Load()), [ast.Constant(q)], []))
        pos = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                    and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(pos, ent)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, mods):
        self.root = root
        self.mods = mods
        self.files = {}
        b = dict(vars(builtins))
        b['__import__'] = self.import_
        b.update({'_sxm_float': sx_float, '_sxm_int': sx_int, '_sxm_bool': sx_bool,
                  '_sxm_isinstance': sx_isinstance, '_sxm_enter': sx_enter, '_sxm_nptype': sx_nptype})
        self.builtins = b

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split('.')[0]
            if name in self.mods or top in ('numpy', 'scipy'):
                if fromlist:
                    return self._resolve(name)
                self._resolve(name)
                return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _resolve(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        builtins.__import__(name)
        m = self.mods[parts[0]]
        for p in parts[1:]:
            m = getattr(m, p)
        return m

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top == 'props' or fullname == 'harness.common':
            root = VERIF
        elif top == 'skcurve':
            root = self.root
        else:
            return None
        base = os.path.join(root, *fullname.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            pkg = True
        else:
            f, pkg = base + '.py', False
        if not os.path.exists(f):
            return None
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=f, is_package=pkg)
        spec.has_location = False
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        if module.__name__.startswith('skcurve'):
            self.files[f] = len(src.splitlines())
        tree = ast.parse(src, f)
        tree = Rewriter(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__['__builtins__'] = self.builtins
        exec(compile(tree, f, 'exec', dont_inherit=True), module.__dict__)


_finder = None


def load(root='/repo'):
    """import skcurve symbolically; returns (module, finder)"""
    global _finder
    from . import libshim
    if _finder is None:
        mods = libshim.build()
        _finder = Finder(root, mods)
        for k in [k for k in sys.modules if k.split('.')[0] == 'skcurve']:
            del sys.modules[k]
        sys.meta_path.insert(0, _finder)
    import skcurve
    import skcurve.curves
    return sys.modules['skcurve'], _finder
