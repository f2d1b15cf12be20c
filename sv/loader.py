"""Loads private copies of the resippy modules from /repo's current source.

mode 'sym'  - the numpy / math names and a few builtins resolve to the symbolic
              shim; every function reports that it was entered (evidence).
mode 'real' - unmodified source, real numpy.  Used to replay counterexamples and
              to validate every explored path.
Both modes see the same environment stand-ins (gdal, pyproj, ...) chosen by the harness.
"""
import ast
import builtins
import importlib
import math
import os
import sys
import types

import numpy as np

from . import terms as T
from . import arr as A
from . import text as TX
from .terms import is_sym, SymReal, SymInt, SymBool, Unsupported

REPO = os.environ.get('SV_REPO', '/repo')

_code_cache = {}
_shared = {}

TYPE_CALLS = {'float', 'int', 'bool', 'str', 'complex', 'type'}
NP_SCALARS = {'float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'double',
              'int_', 'float_', 'bool_', 'intp', 'single', 'longlong', 'asscalar'}


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in TYPE_CALLS and not any(isinstance(a, ast.Starred) for a in node.args):
            node.func = ast.copy_location(ast.Name('__sv_%s__' % node.func.id, ast.Load()), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr in NP_SCALARS:
            node.args = [node.func] + node.args
            node.func = ast.copy_location(ast.Name('__sv_npscalar__', ast.Load()), node.func)
        elif isinstance(node.func, ast.Name) and node.func.id == 'map' and node.args and isinstance(node.args[0], ast.Name) \
                and node.args[0].id in TYPE_CALLS:
            node.args[0] = ast.copy_location(ast.Name('__sv_%s__' % node.args[0].id, ast.Load()), node.args[0])
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'join' and len(node.args) == 1 and not node.keywords:
            node.args = [node.func.value] + node.args
            node.func = ast.copy_location(ast.Name('__sv_join__', ast.Load()), node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, (str, bytes)):
            return ast.copy_location(ast.Call(ast.Name('__sv_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(chr(v.conversion) if v.conversion > 0 else ''), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name('__sv_fstr__', ast.Load()), parts, []), node))

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        hit = ast.Expr(ast.Call(ast.Name('__sv_hit__', ast.Load()), [ast.Constant(self.modname + ':' + '.'.join(self.stack))], []))
        ast.copy_location(hit, node)
        for n in ast.walk(hit):
            ast.copy_location(n, node.body[0])
        i = 0
        if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, hit)
        self.stack.pop()
        return node
    visit_FunctionDef = _fn


def sv_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, A.SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = A.cells(x)[0]
        if isinstance(x, SymReal):
            return SymReal(x.t, x.nan, None, x.lin)
        if isinstance(x, (SymInt, SymBool)):
            r = T.to_real(x)
            return SymReal(r.t, r.nan, None)
        if T.is_quantity(x) and is_sym(x.magnitude):
            return x.to('dimensionless').magnitude
        if isinstance(x, (str, bytes)) and T._State.engine is not None:
            v = T._State.engine.placeholders.get(parse_tok(x)) if T._State.engine.placeholders else None
            if v is not None:
                r = sv_float(v[0])
                return -r if str_neg(x) else r
    return float(*a)


def parse_tok(s):
    if isinstance(s, bytes):
        s = s.decode()
    s = s.strip()
    if s[:1] in '+-':
        s = s[1:]
    return s


def str_neg(s):
    if isinstance(s, bytes):
        s = s.decode()
    return s.strip()[:1] == '-'


def sv_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, A.SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = A.cells(x)[0]
        if is_sym(x):
            return T.s_toint(x)
        if isinstance(x, (str, bytes)) and T._State.engine is not None and T._State.engine.placeholders:
            v = T._State.engine.placeholders.get(parse_tok(x))
            if v is not None:
                if isinstance(v[0], SymReal):
                    raise ValueError('invalid literal for int() with base 10: %r' % (x,))
                return -v[0] if str_neg(x) else v[0]
    return int(*a, **k)


def sv_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], T.SymNum):
        return a[0] != 0
    return bool(*a)


def sv_str(*a, **k):
    if len(a) == 1 and isinstance(a[0], TX.SymStr):
        return a[0]
    if a and isinstance(a[0], T.SymNum):
        return T.engine().placeholder(a[0], '')
    return str(*a, **k)


def sv_complex(*a, **k):
    if any(is_sym(x) for x in a):
        raise Unsupported('complex()')
    return complex(*a, **k)


def sv_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return float if x.ld is None else x.ld.type
        if isinstance(x, SymInt):
            return int if x.ld is None else x.ld.type
        if isinstance(x, SymBool):
            return np.bool_
        if isinstance(x, TX.SymStr):
            return str
        if isinstance(x, A.SymArray):
            return np.ndarray
    return type(*a)


def sv_npscalar(f, *a, **k):
    if isinstance(f, type) and issubclass(f, np.generic):
        if a:
            x = a[0]
            if isinstance(x, np.ndarray) and isinstance(x, A.SymArray):
                if x.ndim == 0:
                    return T.cast_cell(A.cells(x)[0], np.dtype(f))
                return x.astype(np.dtype(f))
            if is_sym(x) or T.is_quantity(x):
                return T.cast_cell(x, np.dtype(f))
            if isinstance(x, (list, tuple)):
                return A.array(x, dtype=f)
    return f(*a, **k)


def sv_isinstance(x, cls):
    if isinstance(x, (SymReal, SymInt, SymBool, TX.SymStr)):
        t = sv_type(x)
        flat = []

        def fl(c):
            if isinstance(c, tuple):
                for d in c:
                    fl(d)
            else:
                flat.append(c)
        fl(cls)
        for c in flat:
            if isinstance(c, type):
                try:
                    if issubclass(t, c):
                        return True
                except TypeError:
                    pass
        return isinstance(x, cls)
    if isinstance(x, A.SymMasked):
        return cls is np.ma.MaskedArray or cls is np.ndarray or isinstance(x, cls)
    return isinstance(x, cls)


def _minmax(bi, f):
    def g(*a, **k):
        if not k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if any(is_sym(x) for x in items) and all(not isinstance(x, (np.ndarray, list, tuple, str)) for x in items):
                r = items[0]
                for x in items[1:]:
                    # python keeps the first of equal elements
                    c = (x > r) if f == 'max' else (x < r)
                    r = T.ite(c, x, r)
                return r
            return bi(items) if len(a) == 1 else bi(*a)
        if 'default' in k and 'key' not in k and len(a) == 1:
            items = list(a[0])
            return g(items) if items else k['default']
        return bi(*a, **k)
    return g


def sv_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if n is not None else x.__round__()
    if isinstance(x, A.SymArray):
        return A.np_call('around', (x, n or 0), {})
    return round(x, n) if n is not None else round(x)


def sv_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        for k in dir(math):
            if not k.startswith('__'):
                setattr(self, k, getattr(math, k))
        two = {'atan2': T.s_arctan2, 'pow': lambda a, b: T.s_pow(T.lift(a) if is_sym(b) else a, b), 'hypot': lambda a, b: T.s_sqrt(a * a + b * b),
               'fmod': lambda a, b: a - T.s_trunc(a / b) * b, 'copysign': lambda a, b: T.ite(b >= 0, abs(a), -abs(a))}
        one = {'sqrt': self._sqrt, 'cos': T.s_cos, 'sin': T.s_sin, 'tan': lambda a: T.s_sin(a) / T.s_cos(a), 'acos': T.s_arccos,
               'asin': T.s_arcsin, 'atan': T.s_arctan, 'fabs': lambda a: abs(T.to_real(a)), 'radians': lambda a: T.to_real(a) * (math.pi / 180.0),
               'degrees': lambda a: T.to_real(a) * (180.0 / math.pi), 'isnan': T.s_isnan, 'isfinite': T.s_isfinite,
               'isinf': lambda a: False, 'floor': lambda a: a.__floor__(), 'ceil': lambda a: a.__ceil__(), 'trunc': lambda a: T.s_toint(a),
               'log': lambda a: T.s_uf('log', a), 'exp': lambda a: T.s_uf('exp', a), 'log10': lambda a: T.s_uf('log10', a),
               'log2': lambda a: T.s_uf('log2', a),
               'modf': lambda a: (a - T.s_trunc(a), T.s_trunc(a))}
        for k, f in {**one, **two}.items():
            setattr(self, k, self._mk(k, f))

    @staticmethod
    def _sqrt(x):
        x = T.lift(x)
        if bool(x < 0):
            raise ValueError('math domain error')
        r = T.s_sqrt(x)
        return SymReal(r.t, False, None) if is_sym(r) else float(r)

    @staticmethod
    def _mk(k, f):
        rf = getattr(math, k)

        def g(*a):
            a = [A.cells(x)[0] if isinstance(x, A.SymArray) and x.size == 1 else x for x in a]
            if any(is_sym(x) for x in a):
                r = f(*a)
                if isinstance(r, SymReal) and r.ld is not None:
                    r = SymReal(r.t, r.nan, None, r.lin)
                return r
            return rf(*a)
        g.__name__ = k
        return g


class UF:
    """shim of a numpy ufunc"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = [A.array(x) if isinstance(x, (list, tuple)) else x for x in a]
        if len(a) > self.u.nin:
            k['out'] = a[self.u.nin]
            a = a[:self.u.nin]
        if any(T.is_quantity(x) for x in a):
            if any(A._deep_sym(x) for x in a):
                return A.quantity_call(self.__name__, tuple(a), k)
            return self.u(*A._deep_real(tuple(a)), **k)
        return A.ufunc_dispatch(self.u, '__call__', a, k)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return A.ufunc_dispatch(self.u, 'reduce', [a], dict(axis=axis, keepdims=keepdims, initial=initial, dtype=dtype, where=where))

    def accumulate(self, a, axis=0):
        return A.ufunc_dispatch(self.u, 'accumulate', [a], dict(axis=axis))

    def outer(self, a, b):
        return A.ufunc_dispatch(self.u, 'outer', [a, b], {})

    def at(self, *a):
        return A.ufunc_dispatch(self.u, 'at', list(a), {})


def sv_fromfile(file, dtype=float, count=-1, sep='', offset=0, **k):
    e = T._State.engine
    if e is not None and str(file) in e.files:
        return e.fromfile(file, dtype, count, sep, offset)
    return A.wrap(np.fromfile(file, np.dtype(dtype), count=count, sep=sep, offset=offset))


CREATORS = {'fromfile': sv_fromfile, 'array': A.array, 'asarray': A.asarray, 'asanyarray': A.asarray, 'ascontiguousarray': A.asarray, 'zeros': A.zeros, 'ones': A.ones,
            'empty': A.empty, 'full': A.full, 'arange': A.arange, 'linspace': A.linspace,
            'zeros_like': A.zeros_like, 'ones_like': A.ones_like, 'empty_like': A.empty_like, 'full_like': A.full_like}


class Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        self.ot = otypes
        self.k = k

    def __call__(self, *a):
        if not A._deep_sym(a):
            return A._deep_wrap(np.vectorize(self.f, otypes=self.ot, **self.k)(*A._deep_real(a)))
        r = A.elementwise(self.f, [A.asarray(x) for x in a], None)
        if self.ot:
            r = r.astype(self.ot[0])
        return r


class Grid:
    """mgrid, ogrid: concrete limits, but cells that may become symbolic in place"""
    def __init__(self, g):
        self.g = g

    def __getitem__(self, key):
        def lim(s):
            return slice(*[T.conc(x) if isinstance(x, SymReal) else x.__index__() if T.is_sym(x) else x for x in (s.start, s.stop, s.step)]) if isinstance(s, slice) else s
        key = tuple(lim(s) for s in key) if isinstance(key, tuple) else lim(key)
        return A._deep_wrap(self.g[key])


class NPShim(types.ModuleType):
    def __init__(self, realmod, prefix=''):
        super().__init__(realmod.__name__)
        self.__dict__['_m'] = realmod
        self.__dict__['_p'] = prefix
        self.__dict__['__path__'] = getattr(realmod, '__path__', [])
        self.__dict__['__file__'] = getattr(realmod, '__file__', None)

    def __getattr__(self, name):
        r = self._resolve(name)
        self.__dict__[name] = r
        return r

    def _resolve(self, name):
        p = self._p
        if p == '' and name in CREATORS:
            return CREATORS[name]
        if p == '' and name in ('mgrid', 'ogrid'):
            return Grid(getattr(np, name))
        if p == '' and name == 'vectorize':
            return Vectorize
        if p == 'ma.':
            return ma_attr(name)
        v = getattr(self._m, name)          # AttributeError exactly where numpy has none
        if isinstance(v, types.ModuleType):
            if name in ('core', 'multiarray', 'lib', 'fromnumeric', 'numeric'):
                return NPShim(v, '')
            return NPShim(v, name + '.')
        if isinstance(v, np.ufunc):
            return UF(v)
        if isinstance(v, type):
            return v
        if callable(v):
            full = p + name
            if p == 'random.':
                return lambda *a, **k: A._deep_wrap(v(*A._deep_real(tuple(a)), **k))

            def g(*a, **k):
                return A.np_call(full, a, k)
            g.__name__ = name
            return g
        return v


def ma_attr(name):
    S = A.SymMasked
    ma = np.ma

    def msym(*a, **k):
        return A._deep_sym(a) or A._deep_sym(k)

    if name in ('array', 'masked_array', 'MaskedArray'):
        def mk(data, mask=False, dtype=None, **k):
            if isinstance(data, (S,)):
                m = data._mask
                if mask is not False:
                    m = A.ufunc_dispatch(np.logical_or, '__call__', [m, A.asarray(mask)], {})
                return S(data.data, m)
            return S(A.asarray(data) if dtype is None else A.asarray(data, dtype), mask if mask is not False else False)
        return mk
    tab = {
        'cov': A.ma_cov, 'dot': A.ma_dot, 'mean': A.masked_mean, 'average': lambda x, axis=None, **k: A.masked_mean(x, axis),
        'sum': lambda x, axis=None, **k: A.masked_reduce('add', x, axis), 'count': A.masked_count,
        'masked_where': lambda c, x, copy=True: S(x, c), 'masked_equal': lambda x, v, copy=True: S(x, A.asarray(x) == v),
        'masked_invalid': lambda x, copy=True: S(x, A.np_call('isnan', (A.asarray(x),), {})),
        'getmaskarray': lambda x: x._mask if isinstance(x, S) else A.zeros(A.asarray(x).shape, bool),
        'getmask': lambda x: x._mask if isinstance(x, S) else ma.nomask,
        'getdata': lambda x, **k: x.data if isinstance(x, S) else A.asarray(x),
        'filled': lambda x, v=None: x.filled(v) if isinstance(x, S) else A.asarray(x),
        'is_masked': lambda x: (T.lor(*A.cells(x._mask)) if isinstance(x, S) else False),
        'isMaskedArray': lambda x: isinstance(x, S), 'isMA': lambda x: isinstance(x, S),
        'compressed': lambda x: x.compressed(), 'transpose': lambda x, axes=None: x.transpose() if axes is None else x.transpose(axes),
        'min': lambda x, axis=None: A.masked_reduce('minimum', x, axis), 'max': lambda x, axis=None: A.masked_reduce('maximum', x, axis),
    }
    if name in tab:
        return tab[name]
    v = getattr(ma, name)
    if callable(v) and not isinstance(v, type):
        def g(*a, **k):
            if msym(*a, **k):
                raise Unsupported('np.ma.%s' % name)
            return A._deep_wrap(v(*A._deep_real(a), **A._deep_real(k)))
        return g
    return v


class LazyAttr:
    def __init__(self, mod, name):
        self.__dict__['_k'] = (mod, name)

    def _r(self):
        return getattr(importlib.import_module(self._k[0]), self._k[1])

    def __call__(self, *a, **k):
        if A._deep_sym(a) or A._deep_sym(k):
            raise Unsupported('%s.%s on symbolic values' % self._k)
        return A._deep_wrap(self._r()(*A._deep_real(a), **A._deep_real(k))) if T._State.engine is not None else self._r()(*a, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._r(), n)

    def __mro_entries__(self, bases):
        return (self._r(),)

    def __instancecheck__(self, x):
        return isinstance(x, self._r())


class LazyModule(types.ModuleType):
    """heavy third-party module, imported only if something in it is used"""

    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return LazyAttr(self.__name__, n)


LAZY = ('seaborn', 'matplotlib', 'sklearn', 'skimage', 'PIL', 'imageio', 'colorutils', 'exifread', 'keras', 'keras_applications',
        'tensorflow', 'osgeo', 'gdal', 'osr', 'ogr', 'pdal', 'cv2', 'scipy', 'requests', 'gdal2tiles', 'pandas')


QUESTIONS = ('get_', 'set_', 'lon_lat', 'pixel_x_y', 'compute_', 'create_', 'read_', 'resample', 'distort', 'undistort', 'is_', 'are_')


class ModuleSet:
    def __init__(self, mode, fakes=None, hits=None, open_=None):
        self.mode = mode
        self.mods = {}
        self.fakes = dict(fakes or {})
        self.hits = hits if hits is not None else set()
        self.open_ = open_
        self.orig = {}
        self.twice = None          # called with every question, to ask another one first
        self.ext = {}
        self.np = NPShim(np) if mode == 'sym' else np
        self.math = MathShim() if mode == 'sym' else math
        self.bi = dict(vars(builtins))
        self.bi['__import__'] = self._import
        if open_ is not None:
            self.bi['open'] = open_
        if mode == 'sym':
            self.bi.update({'__sv_float__': sv_float, '__sv_int__': sv_int, '__sv_bool__': sv_bool, '__sv_str__': sv_str, '__sv_complex__': sv_complex,
                            '__sv_type__': sv_type, '__sv_join__': TX.sv_join, '__sv_fstr__': TX.sv_fstr, '__sv_mod__': TX.sv_mod, '__sv_npscalar__': sv_npscalar, '__sv_hit__': self.hits.add, 'isinstance': sv_isinstance,
                            'min': _minmax(min, 'min'), 'max': _minmax(max, 'max'), 'round': sv_round, 'sum': sv_sum})

    def _ask_twice(self, cls):
        import functools

        def wrap(f, name):
            @functools.wraps(f)
            def g(self_, *a, **k):
                t = self.twice
                if t is not None:
                    t(f, name, self_, a, k)
                return f(self_, *a, **k)
            return g
        for n, f in list(vars(cls).items()):
            if isinstance(f, types.FunctionType) and n.startswith(QUESTIONS):
                setattr(cls, n, wrap(f, n))

    def snapshot(self):
        """the functions and classes of the loaded modules, which a harness may replace by stand-ins"""
        return {n: self._callables(m) for n, m in self.mods.items() if self._own(m)}

    def _own(self, m):
        return isinstance(m, types.ModuleType) and m.__dict__.get('__builtins__') is self.bi

    @staticmethod
    def _callables(m):
        out = []
        for k, v in list(vars(m).items()):
            if callable(v) or isinstance(v, types.ModuleType):
                out.append((m, k, v))
            if isinstance(v, type) and v.__module__ == m.__name__:
                out += [(v, a, f) for a, f in list(vars(v).items()) if isinstance(f, (types.FunctionType, staticmethod, classmethod, property))]
        return out

    def restore(self, snap):
        for n, m in list(self.mods.items()):
            if self._own(m):
                for o, k, v in snap[n] if n in snap else self.orig.get(n, ()):
                    if vars(o).get(k) is not v:
                        setattr(o, k, v)

    def rebind(self, fakes, open_):
        """other stand-ins for modules that are already loaded"""
        was, swap, lazy, held = dict(self.fakes), {}, {}, []

        def pairs(old, new, depth=0):
            for k, v in list(vars(old).items()):
                if callable(v) or isinstance(v, types.ModuleType):
                    w = getattr(new, k, None) if isinstance(new, LazyModule) or k in vars(new) else None
                    if w is not None and w is not v:
                        swap[id(v)] = w
                        if isinstance(v, types.ModuleType) and isinstance(w, types.ModuleType) and depth < 3:
                            pairs(v, w, depth + 1)

        self.fakes = dict(fakes)
        for n in sorted(set(was) | set(fakes)):
            old = was[n] if n in was else self.ext.get(n)
            if old is None or old is fakes.get(n):
                continue
            try:
                new = self._external(n)
            except ImportError:
                continue
            held.append(old)                  # keeps its id in use
            swap[id(old)] = new
            if isinstance(old, LazyModule):
                lazy[n] = new
                continue
            pairs(old, new)
        for m in list(self.mods.values()):
            if self._own(m):
                for k, v in list(m.__dict__.items()):
                    if id(v) in swap:
                        m.__dict__[k] = swap[id(v)]
                    elif type(v) is LazyAttr and v._k[0] in lazy:
                        m.__dict__[k] = getattr(lazy[v._k[0]], v._k[1])
        del held
        self.bi['open'] = builtins.open if open_ is None else open_

    # -------------------------------------------------------------
    def _external(self, name):
        if name in self.fakes:
            return self.fakes[name]
        m = self.ext[name] = self._find_external(name)
        return m

    def _find_external(self, name):
        top = name.split('.')[0]
        if self.mode == 'sym':
            if top == 'numpy':
                m = self.np
                parts = name.split('.')[1:]
                for p in parts:
                    m = getattr(m, p)
                return m
            if top == 'math':
                return self.math
        if top in self.fakes and '.' in name:
            m = self.fakes[top]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if top in LAZY and not (self.mode == 'real' and top in ('osgeo',)):
            m = self.mods.get(name)
            if m is None:
                m = self.mods[name] = LazyModule(name)
            return m
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top != 'resippy':
            if name == '__future__':
                return importlib.import_module(name)
            if fromlist:
                return self._external(name)
            self._external(name)
            m = self._external(top)
            if '.' in name and not isinstance(m, (NPShim, LazyModule)):
                cur = m
                acc = top
                for p in name.split('.')[1:]:
                    acc += '.' + p
                    sub = self._external(acc)
                    if not hasattr(cur, p):
                        setattr(cur, p, sub)
                    cur = sub
            elif isinstance(m, LazyModule) and '.' in name:
                cur = m
                acc = top
                for p in name.split('.')[1:]:
                    acc += '.' + p
                    sub = self._external(acc)
                    cur.__dict__[p] = sub
                    cur = sub
            return m
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    sub = name + '.' + f
                    if self._find(sub):
                        self.load(sub)
            return m
        return self.mods['resippy'] if 'resippy' in self.mods else self.load('resippy')

    def _find(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.exists(f) else None, True, p) if True else None
        if os.path.exists(p + '.py'):
            return (p + '.py', False, p + '.py')
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.fakes:
            self.mods[name] = self.fakes[name]
            if '.' in name:
                setattr(self.load(name.rsplit('.', 1)[0]), name.rsplit('.', 1)[1], self.fakes[name])
            return self.fakes[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        else:
            parent = None
        if name == 'resippy.utils.units':
            m = shared_units()
        else:
            found = self._find(name)
            if not found:
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
            fname, ispkg, path = found
            m = types.ModuleType(name)
            m.__file__ = fname
            m.__package__ = name if ispkg else name.rpartition('.')[0]
            if ispkg:
                m.__path__ = [path]
            m.__dict__['__builtins__'] = self.bi
            self.mods[name] = m
            if fname:
                code = self._code(fname, name)
                try:
                    exec(code, m.__dict__)
                except BaseException:
                    self.mods.pop(name, None)
                    raise
                if self.twice is not None:
                    for v in list(vars(m).values()):
                        if isinstance(v, type) and v.__module__ == m.__name__:
                            self._ask_twice(v)
                self.orig[name] = self._callables(m)
        self.mods[name] = m
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _code(self, fname, name):
        key = (fname, self.mode)
        if key in _code_cache:
            return _code_cache[key]
        import warnings
        with open(fname, 'rb') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, fname)
            if self.mode == 'sym':
                tree = Xform(name).visit(tree)
                ast.fix_missing_locations(tree)
            code = compile(tree, fname, 'exec', dont_inherit=True)
        _code_cache[key] = code
        return code


def shared_units():
    if 'units' not in _shared:
        import types as ty
        p = os.path.join(REPO, 'resippy', 'utils', 'units')
        m = ty.ModuleType('resippy.utils.units')
        m.__file__ = os.path.join(p, '__init__.py')
        m.__path__ = [p]
        m.__package__ = 'resippy.utils.units'
        with open(m.__file__) as f:
            exec(compile(f.read(), m.__file__, 'exec'), m.__dict__)
        # Unit.__mul__ takes a shortcut for the literal 1; both ways give the same quantity, so symbolic magnitudes skip it
        import numbers
        import pint.facets.plain.unit as pu

        class _Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, numbers.Number) and not is_sym(x)

        class Number(metaclass=_Meta):
            pass
        pu.Number = Number
        _shared['units'] = m
    return _shared['units']
