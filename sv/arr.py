"""SymArray (an ndarray subclass holding symbolic cells, with a logical dtype)
and the symbolic versions of the numpy operations the code under check uses.

An operation whose operands are all concrete is executed by the real numpy on
real arrays of the logical dtype, so concrete numpy semantics (casting, value
based promotion, errors) are numpy's own.
"""
import builtins
import itertools
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from .terms import (SymReal, SymInt, SymBool, SymNum, is_sym, Unsupported, F64, I64, BOOL, OBJ,
                    cast_cell, ite, land, lor, lnot, mkbool)

_ndget = np.ndarray.__getitem__
_ndset = np.ndarray.__setitem__


class SymArray(np.ndarray):
    __array_priority__ = 100
    __hash__ = None

    def __array_finalize__(self, obj):
        if obj is None:
            return
        ld = getattr(obj, '_ld', None)
        if ld is None:
            ld = np.ndarray.dtype.__get__(obj)
        self._ld = ld

    # --- attributes
    @property
    def dtype(self):
        return self._ld

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('assigning .dtype')

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0

    @property
    def flat(self):
        return FlatView(self)

    @property
    def T(self):
        return self.transpose()

    # --- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array_wrap__(self, out, context=None):
        return out

    # --- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return bool(lor(*[c == v for c in cells(self)]))

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __bool__(self):
        if self.size == 1:
            return bool(cells(self)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __float__(self):
        return _one(self, float)

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return builtins.int(cells(self)[0])

    def __index__(self):
        if self.ndim != 0 or self._ld.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return cells(self)[0].__index__()

    def __complex__(self):
        raise Unsupported('complex()')

    def __repr__(self):
        return 'SymArray(%s, %s)' % (plain(self).tolist(), self._ld)
    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # --- methods
    def item(self, *a):
        if a:
            v = self[a if len(a) > 1 else (np.unravel_index(a[0], self.shape) if not isinstance(a[0], tuple) else a[0])]
        else:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            v = cells(self)[0]
        if is_sym(v):
            return v.item()
        return v.item() if isinstance(v, np.generic) else v

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, np.ndarray) else (x.item() if hasattr(x, 'item') else x) for x in self]

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        ld = np.dtype(dtype)
        if not casting == 'unsafe' and not np.can_cast(self._ld, ld, casting):
            raise TypeError('Cannot cast array data from %s to %s' % (self._ld, ld))
        if ld == self._ld:
            return self.copy() if copy else self
        if self._ld.kind in 'US' and ld.kind in 'fiu' and T._State.engine is not None and T._State.engine.placeholders:
            return mapcells(lambda c: parse(c, ld), self, ld)
        if not any_sym(self):
            return wrap(real(self).astype(ld), ld)
        return mapcells(lambda c: cast_cell(as_ld(c, self._ld), ld), self, ld)

    def copy(self, order='C'):
        return mk(plain(self).copy(), self._ld)

    def __getattr__(self, name):
        raise Unsupported('ndarray.%s' % name) if not name.startswith('__') and hasattr(np.ndarray, name) \
            else AttributeError(name)

    def view(self, *a, **k):
        if a == (np.ndarray,) or not a:
            return np.ndarray.view(self)
        if isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        if not any_sym(self):
            return wrap(real(self).view(*a, **k))
        raise Unsupported('view(%s)' % (a,))

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        if any_sym(self):
            raise Unsupported('tobytes')
        return real(self).tobytes(*a, **k)

    def tofile(self, *a, **k):
        if any_sym(self):
            return T.engine().tofile(self, *a, **k)
        return real(self).tofile(*a, **k)

    def byteswap(self, *a, **k):
        if any_sym(self):
            raise Unsupported('byteswap')
        return wrap(real(self).byteswap(*a, **k))

    def sort(self, axis=-1, **k):
        self[...] = np_call('sort', (self,), dict(axis=axis))

    def __imatmul__(self, o):
        raise TypeError('In-place matrix multiplication is not (yet) supported.')


def _one(a, f):
    if a.size != 1:
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    return f(cells(a)[0])


def _method(name, fname=None):
    fname = fname or name

    def m(self, *a, **k):
        return np_call(fname, (self,) + a, k)
    m.__name__ = name
    return m


for _n in ('sum mean prod std var any all cumsum cumprod ravel transpose squeeze swapaxes repeat take '
           'diagonal trace dot nonzero argmin argmax argsort clip round compress choose searchsorted ptp '
           'put partition argpartition').split():
    setattr(SymArray, _n, _method(_n))
setattr(SymArray, 'min', _method('min', 'amin'))
setattr(SymArray, 'max', _method('max', 'amax'))


def _sa_flatten(self, order='C'):
    return np_call('ravel', (self,), dict(order=order)).copy()


def _sa_reshape(self, *shape, order='C'):
    if len(shape) == 1:
        shape = shape[0]
    if isinstance(shape, (tuple, list)):
        shape = tuple(_idx(s) for s in shape)
    else:
        shape = _idx(shape)
    return mk(plain(self).reshape(shape, order=order), self._ld)


def _idx(s):
    import operator
    return operator.index(s)


def _sa_transpose(self, *axes):
    if len(axes) == 1:
        axes = axes[0]
    if axes == ():
        axes = None
    return mk(plain(self).transpose(axes), self._ld)


def _sa_resize(self, *shape, refcheck=True):
    raise Unsupported('resize in place')


SymArray.flatten = _sa_flatten
SymArray.reshape = _sa_reshape
SymArray.transpose = _sa_transpose
SymArray.resize = _sa_resize
SymArray.conj = SymArray.conjugate = lambda self: self


class FlatView:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        f = self.a.reshape(-1)
        f[k] = v
        if not np.shares_memory(plain(f), plain(self.a)):
            self.a[...] = f.reshape(self.a.shape)

    def __iter__(self):
        return iter(cells(self.a))

    def __len__(self):
        return self.a.size

    def copy(self):
        return self.a.flatten()


# ------------------------------------------------------------ construction

def plain(a):
    return np.ndarray.view(a, np.ndarray)


def mk(objarr, ld):
    r = np.ndarray.view(objarr, SymArray)
    r._ld = np.dtype(ld)
    return r


def as_ld(c, ld):
    """attach the logical dtype to a cell taken out of an array"""
    if isinstance(c, SymReal):
        return c if c.ld == ld else SymReal(c.t, c.nan, ld, c.lin)
    if isinstance(c, SymInt):
        return c if c.ld == ld else SymInt(c.t, ld)
    if isinstance(c, SymBool):
        return c
    if ld.kind in 'fiubcMm' and not isinstance(c, ld.type):
        try:
            return ld.type(c)
        except (TypeError, OverflowError, ValueError):
            return c
    return c


def cells(a):
    """flat list of cells with their dtype attached"""
    if isinstance(a, SymArray):
        ld = a._ld
        return [as_ld(c, ld) for c in plain(a).ravel().tolist()] if a.size else []
    if isinstance(a, np.ndarray):
        return list(a.ravel())
    return [a]


def any_sym(a):
    return any(is_sym(c) for c in plain(a).ravel())


def real(a):
    """concrete SymArray -> real ndarray of its logical dtype"""
    if isinstance(a, np.ma.MaskedArray):
        return a
    p = plain(a)
    if a._ld == OBJ:
        return p.copy()
    if a._ld.kind == 'V' or a._ld.names:
        return p.copy()
    return p.astype(a._ld)


def wrap(x, ld=None):
    """anything -> SymArray"""
    if isinstance(x, SymArray):
        return x if ld is None or x._ld == ld else x.astype(ld)
    if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) != OBJ:
        d = np.ndarray.dtype.__get__(x)
        o = np.empty(x.shape, dtype=object)
        if x.size:
            o[...] = np.asarray(x).astype(object) if d.kind not in 'Mm' else x
        r = mk(o, d)
        return r if ld is None or ld == d else r.astype(ld)
    if isinstance(x, np.ndarray):
        d = infer_ld(list(np.asarray(x).ravel()))
        r = mk(np.asarray(x).copy(), d)
        if ld is not None and ld != d:
            return r.astype(ld)
        return r
    return array(x, dtype=ld)


def wrapview(x):
    """wrap an object ndarray without copying"""
    return mk(x, infer_ld(list(x.ravel())))


def infer_ld(cs):
    if not cs:
        return F64
    ds = set()
    for c in cs:
        if isinstance(c, SymReal):
            ds.add(c.ld or F64)
        elif isinstance(c, SymInt):
            ds.add(c.ld or I64)
        elif isinstance(c, (SymBool, bool, np.bool_)):
            ds.add(BOOL)
        elif isinstance(c, np.generic):
            ds.add(c.dtype)
        elif isinstance(c, int):
            ds.add(I64 if -2 ** 63 <= c < 2 ** 63 else OBJ)
        elif isinstance(c, float):
            ds.add(F64)
        elif T.is_quantity(c):
            ds.add(F64)
        elif isinstance(c, (str, bytes)):
            ds.add(np.array(c).dtype)
        elif isinstance(c, complex):
            ds.add(np.dtype(complex))
        else:
            return OBJ
    ds = list(ds)
    r = ds[0]
    for d in ds[1:]:
        r = np.result_type(r, d)
    return r


def _deep_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return any_sym(x)
    if isinstance(x, np.ndarray):
        return np.ndarray.dtype.__get__(x) == OBJ and any(_deep_sym(c, depth + 1) for c in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_deep_sym(c, depth + 1) for c in x)
    if isinstance(x, dict) and depth < 3:
        return any(_deep_sym(c, depth + 1) for c in x.values())
    if isinstance(x, (WhereTuple, SymMasked)):
        return True
    if isinstance(x, slice):
        return is_sym(x.start) or is_sym(x.stop) or is_sym(x.step)
    if T.is_quantity(x):
        return _deep_sym(x.magnitude, depth + 1)
    return False


def _deep_real(x):
    if isinstance(x, SymArray):
        return real(x)
    if type(x) is list:
        return [_deep_real(c) for c in x]
    if type(x) is tuple:
        return tuple(_deep_real(c) for c in x)
    if type(x) is dict:
        return {k: _deep_real(c) for k, c in x.items()}
    if isinstance(x, slice):
        return slice(_deep_real(x.start), _deep_real(x.stop), _deep_real(x.step))
    return x


def _deep_wrap(x):
    if isinstance(x, np.ma.MaskedArray):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        if type(x) is not np.ndarray and not isinstance(x, np.memmap):
            return x
        d = np.ndarray.dtype.__get__(x)
        if d.names:
            return x
        return wrap(x)
    if type(x) is list:
        return [_deep_wrap(c) for c in x]
    if type(x) is tuple:
        return tuple(_deep_wrap(c) for c in x)
    return x


def _strip_quantity(x):
    if T.is_quantity(x):
        return x.to('dimensionless').magnitude
    return x


def parse(c, ld):
    """text to number; the text may stand for an arbitrary one"""
    from . import loader
    return cast_cell((loader.sv_float if ld.kind == 'f' else loader.sv_int)(c), ld)


def _flat(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from _flat(y)
        else:
            yield y


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    ld = np.dtype(dtype) if dtype is not None else None
    if ld is not None and ld.kind in 'fiu' and isinstance(x, (list, tuple)) and T._State.engine is not None and T._State.engine.placeholders \
            and any(isinstance(y, (str, bytes)) for y in _flat(x)):
        ob = np.array(x, dtype=object)
        return mapcells(lambda c: parse(c, ld) if isinstance(c, (str, bytes)) else cast_cell(c, ld), mk(ob, OBJ), ld)
    if isinstance(x, SymMasked):
        x = x.data
    if getattr(type(x), '__sv_array__', False):
        x = x.__array__()
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if ld is not None and ld != x._ld:
            r = r.astype(ld)
    elif isinstance(x, np.ndarray):
        r = wrap(x, ld)
    elif not _deep_sym(x):
        a = np.array(_deep_real(x), dtype=ld)
        r = wrap(a)
    else:
        shape = []
        rows = x

        def descend(y):
            if isinstance(y, np.ndarray):
                return list(y.shape)
            if isinstance(y, (list, tuple)):
                if not y:
                    return [0]
                subs = [descend(z) for z in y]
                if any(s != subs[0] for s in subs):
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape')
                return [len(y)] + subs[0]
            if hasattr(y, '__len__') and hasattr(y, '__getitem__') and not isinstance(y, (str, bytes, dict)) and not is_sym(y) \
                    and not T.is_quantity(y):
                return descend(list(y))
            return []

        def flat(y, out):
            if isinstance(y, np.ndarray):
                out.extend(cells(y))
            elif isinstance(y, (list, tuple)):
                for z in y:
                    flat(z, out)
            elif hasattr(y, '__len__') and hasattr(y, '__getitem__') and not isinstance(y, (str, bytes, dict)) and not is_sym(y) \
                    and not T.is_quantity(y):
                flat(list(y), out)
            else:
                out.append(_strip_quantity(y))
        if isinstance(rows, (map, zip, range)):
            rows = list(rows)
        shape = descend(rows)
        cs = []
        flat(rows, cs)
        d = ld or infer_ld(cs)
        r = fromcells([cast_cell(c, d) for c in cs], shape, d)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def fromcells(cs, shape, ld):
    o = np.empty(len(cs), dtype=object)
    for i, c in enumerate(cs):
        o[i] = c
    return mk(o.reshape(shape), ld)


def mapcells(f, a, ld):
    return fromcells([f(c) for c in cells(a)], a.shape, ld)


def asarray(x, dtype=None, order=None, **k):
    return array(x, dtype=dtype, copy=False)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_idx(v) for v in s)
    if isinstance(s, np.ndarray):
        return tuple(_idx(v) for v in s)
    return (_idx(s),)


def full(shape, v, dtype=None, order='C', like=None):
    shape = _shape(shape)
    if isinstance(v, np.ndarray) and v.ndim:
        r = full(shape, 0, dtype or v.dtype)
        r[...] = v
        return r
    ld = np.dtype(dtype) if dtype is not None else infer_ld([v])
    c = cast_cell(v, ld)
    n = 1
    for s in shape:
        n *= s
    return fromcells([c] * n, shape, ld)


def zeros(shape, dtype=float, order='C', like=None):
    d = np.dtype(dtype)
    if d.names or d.kind == 'V':
        return np.zeros(_shape(shape), d)
    return wrap(np.zeros(_shape(shape), d))


def ones(shape, dtype=None, order='C', like=None):
    return wrap(np.ones(_shape(shape), dtype or float))


def empty(shape, dtype=float, order='C', like=None):
    """uninitialised memory: fresh unconstrained values"""
    d = np.dtype(dtype)
    shape = _shape(shape)
    n = 1
    for s in shape:
        n *= s
    if d.kind in 'fiu' and n <= 4096:
        e = T.engine()
        if d.kind == 'f':
            return fromcells([SymReal(e.fresh_real('uninit'), ld=d) for _ in range(n)], shape, d)
        return fromcells([SymInt(e.fresh_int('uninit', np.iinfo(d).min, np.iinfo(d).max), d) for _ in range(n)], shape, d)
    return zeros(shape, d)


def _ldof(x):
    return x.dtype if hasattr(x, 'dtype') else infer_ld(cells(array(x)))


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarray(a)
    return zeros(a.shape if shape is None else shape, dtype or a.dtype)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarray(a)
    return ones(a.shape if shape is None else shape, dtype or a.dtype)


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarray(a)
    return empty(a.shape if shape is None else shape, dtype or a.dtype)


def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    a = asarray(a)
    return full(a.shape if shape is None else shape, v, dtype or a.dtype)


def arange(*args, dtype=None, like=None):
    if not _deep_sym(args):
        return wrap(np.arange(*args, dtype=dtype))
    args = [T.conc(a) if isinstance(a, SymReal) else a for a in args]
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    n = T.s_toint(T.s_ceil((stop - start) / step)) if not all(isinstance(v, (int, SymInt, np.integer)) for v in (start, stop, step)) \
        else -T.int_floordiv(start - stop, step)
    n = n.__index__() if is_sym(n) else int(n)
    if n < 0:
        n = 0
    cs = [start + i * step for i in range(n)]
    ld = np.dtype(dtype) if dtype else infer_ld([start, stop, step])
    return fromcells([cast_cell(c, ld) for c in cs], (n,), ld)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if is_sym(num):
        num = num.__index__()
    if not _deep_sym((start, stop)):
        return _deep_wrap(np.linspace(_deep_real(start), _deep_real(stop), int(num), endpoint, retstep, dtype, axis))
    num = _idx(num)
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        st, sp = asarray(start), asarray(stop)
        div = num - 1 if endpoint else num
        rows = []
        for i in range(num):
            if div > 0:
                rows.append(st + (sp - st) * (float(i) / div) if not (endpoint and i == num - 1 and num > 1) else st * 0 + sp)
            else:
                rows.append(st + sp * 0)
        r = np_call('stack', (rows,), dict(axis=axis)) if rows else zeros((0,) + st.shape)
        if retstep:
            return r, (sp - st) / div if div > 0 else np.nan
        return r
    div = num - 1 if endpoint else num
    cs = []
    step = (stop - start) / div if div > 0 else float('nan')
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            cs.append(stop)
        elif div > 0:
            cs.append(start + (stop - start) * Fraction(i, div))
        else:
            cs.append(start + 0 * (stop - start))
    ld = np.dtype(dtype) if dtype else F64
    r = fromcells([cast_cell(c, F64) for c in cs], (num,), F64)
    if ld != F64:
        r = (np_call('floor', (r,), {}) if ld.kind in 'iu' else r).astype(ld)
    if retstep:
        return r, step
    return r


# ------------------------------------------------------------ indexing

class WhereTuple:
    """np.where(mask)/np.nonzero(mask) of a symbolic mask, materialised (by forking) only when inspected"""

    def __init__(self, mask):
        self.mask = mask
        self._t = None

    def mat(self):
        if self._t is None:
            m = np.array([bool(c) for c in cells(self.mask)], dtype=bool).reshape(self.mask.shape)
            self._t = tuple(wrap(x) for x in np.nonzero(m))
        return self._t

    def __getitem__(self, k):
        if self._t is None and k == 0 and self.mask.ndim == 1 and self.mask.size > 6:
            return LazyIdx(self)
        return self.mat()[k]

    def __len__(self):
        return self.mask.ndim

    def __iter__(self):
        return iter(self.mat())

    def __eq__(self, o):
        return self.mat() == o
    __hash__ = None


class LazyIdx:
    """indices of the true entries of a long mask; asking only for the first one decides only that one"""
    __array_priority__ = 200

    def __init__(self, w):
        self.w = w

    def full(self):
        return self.w.mat()[0]

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0 and self.w._t is None:
            cs = cells(self.w.mask)
            some = lor(*[_tb(c) for c in cs])
            if not bool(some):
                raise IndexError('index 0 is out of bounds for axis 0 with size 0')
            t = z3.IntVal(len(cs) - 1)
            for i in range(len(cs) - 2, -1, -1):
                c = cs[i]
                if isinstance(c, SymBool):
                    t = z3.If(c.t, z3.IntVal(i), t)
                elif c:
                    t = z3.IntVal(i)
            return np.int64(T.engine().enumerate_int(t))
        return self.full()[k]

    def __len__(self):
        return len(self.full())

    def __iter__(self):
        return iter(self.full())

    def __array__(self, dtype=None):
        return np.asarray(self.full(), dtype=dtype)

    def __getattr__(self, n):
        return getattr(self.full(), n)


def _clean_key(k):
    if isinstance(k, LazyIdx):
        k = k.full()
    """replace concrete SymArrays in keys by real arrays, keep symbolic ones"""
    if isinstance(k, SymArray):
        if not any_sym(k):
            r = real(k)
            return r
        if k.ndim == 0:
            return cells(k)[0]
        return k
    if isinstance(k, np.ndarray) and np.ndarray.dtype.__get__(k) == OBJ:
        return _clean_key(wrapview(k))
    if isinstance(k, list):
        if _deep_sym(k):
            return array(k)
        return _deep_real(k)
    if isinstance(k, (SymReal,)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    if isinstance(k, slice):
        return slice(_sl(k.start), _sl(k.stop), _sl(k.step))
    if isinstance(k, SymBool):
        return bool(k)
    return k


def _sl(v):
    if v is None:
        return None
    if isinstance(v, SymArray):
        return v.__index__()
    if is_sym(v):
        return v.__index__()
    return v


def _has_symkey(key):
    ks = key if isinstance(key, tuple) else (key,)
    return any(is_sym(k) or isinstance(k, (SymArray, WhereTuple)) for k in ks)


def _prep(key):
    if isinstance(key, WhereTuple):
        return key
    if isinstance(key, tuple):
        return tuple(_clean_key(k) for k in key)
    if isinstance(key, (list,)) and any(isinstance(c, slice) or c is None or c is Ellipsis for c in key):
        raise IndexError('only integers, slices, ...')
    return _clean_key(key)


def _out(r, ld):
    if isinstance(r, np.ndarray) and not (r.ndim == 0 and False):
        return mk(r, ld)
    return as_ld(r, ld)


def _check_bounds(i, n):
    """symbolic index i on an axis of length n: raise IndexError on the path where it is out of range;
    return the non-negative index"""
    ok = land(i >= -n, i < n)
    if isinstance(ok, SymBool):
        if not T.engine().fork(ok.t):
            raise IndexError('index is out of bounds for axis with size %d' % n)
    elif not ok:
        raise IndexError('index is out of bounds for axis with size %d' % n)
    neg = i < 0
    return ite(neg, i + n, i)


def _expand(key, nd):
    """key tuple -> list with one entry per axis (no None handled here)"""
    key = list(key) if isinstance(key, tuple) else [key]
    if any(k is None for k in key):
        return None
    if any(isinstance(k, np.ndarray) and k.dtype == BOOL for k in key):
        return None
    if sum(1 for k in key if k is Ellipsis):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (nd - (len(key) - 1))
    key += [slice(None)] * (nd - len(key))
    return key


def _sel(vals, idx):
    """ITE selection vals[idx] (idx already in range, non-negative)"""
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(idx == j, vals[j], r)
    return r


def getitem(a, key):
    ld = a._ld
    key = _prep(key)
    if isinstance(key, WhereTuple):
        key = key.mat()
        key = tuple(_clean_key(k) for k in key)
    if not _has_symkey(key):
        r = _ndget(plain(a), key)
        return _out(r, ld)
    ks = key if isinstance(key, tuple) else (key,)
    # boolean masks: decide every cell
    if any(isinstance(k, SymArray) and k._ld == BOOL for k in ks):
        ks = tuple(_decide_mask(k) if isinstance(k, SymArray) and k._ld == BOOL else k for k in ks)
        return getitem(a, ks if isinstance(key, tuple) else ks[0])
    ex = _expand(key, a.ndim)
    if ex is None:
        return getitem(a, tuple(_enum(k) for k in ks))
    for k in ex:
        if isinstance(k, SymArray) and k._ld.kind not in 'iu':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
    adv = [isinstance(k, np.ndarray) or isinstance(k, list) for k in ex]
    if not any(isinstance(k, slice) for k in ex):
        # all axes indexed by integers / integer arrays
        arrs = [wrap(np.asarray(k)) if not isinstance(k, SymArray) and not is_sym(k) else
                (k if isinstance(k, SymArray) else fromcells([k], (), I64)) for k in ex]
        bs = np.broadcast_arrays(*[plain(x) for x in arrs])
        shape = bs[0].shape
        p = plain(a)
        cs = []
        for comp in zip(*[b.ravel() for b in bs]):
            cs.append(_select_cell(p, comp))
        if not any(adv):
            return as_ld(cs[0], ld)
        return fromcells(cs, shape, ld)
    # slices present
    arrk = [i for i, k in enumerate(ex) if isinstance(k, (np.ndarray, list))]
    symk = [i for i, k in enumerate(ex) if is_sym(k)]
    if not arrk:
        r = a
        for i in sorted(symk, reverse=True):
            n = a.shape[i]
            idx = _check_bounds(ex[i], n)
            subs = [np.take(plain(r), j, axis=i) for j in range(n)]
            o = subs[-1]
            if not isinstance(o, np.ndarray):
                r = _sel(subs, idx)
                continue
            for j in range(n - 2, -1, -1):
                c = idx == j
                o = _obj_map2(lambda x, y: ite(c, x, y), subs[j], o)
            r = mk(o, ld)
        rest = tuple(k for i, k in enumerate(ex) if i not in symk)
        return _out(_ndget(plain(r), rest), ld)
    if len(arrk) == 1 and not symk and all(isinstance(k, slice) for i, k in enumerate(ex) if i not in arrk):
        i = arrk[0]
        k = ex[i]
        b = _ndget(plain(a), tuple(slice(None) if j == i else ex[j] for j in range(a.ndim)))
        parts = []
        n = b.shape[i]
        for c in cells(k):
            if is_sym(c):
                idx = _check_bounds(c, n)
                o = np.take(b, n - 1, axis=i)
                for j in range(n - 2, -1, -1):
                    cc = idx == j
                    o = _obj_map2(lambda x, y: ite(cc, x, y), np.take(b, j, axis=i), o)
            else:
                o = np.take(b, int(c), axis=i)
            parts.append(o)
        st = np.stack(parts, axis=i)
        return mk(st.reshape(st.shape[:i] + k.shape + st.shape[i + 1:]), ld)
    return getitem(a, tuple(_enum(k) for k in ex))


def _obj_map2(f, x, y):
    o = np.empty(x.shape, dtype=object)
    of, xf, yf = o.reshape(-1), x.ravel(), y.ravel()
    for i in range(of.shape[0]):
        of[i] = f(xf[i], yf[i])
    return o


def _select_cell(p, comp):
    """p[comp] with symbolic components, by ITE"""
    key = []
    syms = []
    for ax, c in enumerate(comp):
        if is_sym(c):
            n = p.shape[ax]
            idx = _check_bounds(c, n)
            if is_sym(idx):
                syms.append((ax, idx))
                key.append(slice(None))
            else:
                key.append(int(idx))
        else:
            c = int(c)
            if not -p.shape[ax] <= c < p.shape[ax]:
                raise IndexError('index %d is out of bounds for axis %d with size %d' % (c, ax, p.shape[ax]))
            key.append(c)
    sub = p[tuple(key)]
    if not syms:
        return sub

    def rec(s, k):
        if k == len(syms):
            return s
        return _sel([rec(s[j], k + 1) for j in range(s.shape[0])], syms[k][1])
    return rec(sub, 0)


def _decide_mask(k):
    return np.array([bool(c) for c in cells(k)], dtype=bool).reshape(k.shape)


def _enum(k):
    if isinstance(k, SymArray):
        if k._ld == BOOL:
            return _decide_mask(k)
        return np.array([c.__index__() if is_sym(c) else int(c) for c in cells(k)], dtype=int).reshape(k.shape)
    if is_sym(k):
        return k.__index__()
    return k


def setitem(a, key, value):
    ld = a._ld
    key = _prep(key)
    if isinstance(value, SymMasked):
        value = value.data
    if isinstance(key, WhereTuple):
        key = key.mask
    if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], (SymArray,)):
        key = key[0]
    p = plain(a)
    if isinstance(key, SymArray) and key._ld == BOOL:
        v = value
        if isinstance(v, np.ndarray) and v.size == 1:
            v = cells(v)[0]
        if isinstance(v, (list, tuple)):
            v = array(v)
        if not isinstance(v, np.ndarray):
            c = cast_cell(v, ld)
            m = plain(key)
            if m.shape != a.shape[:m.ndim]:
                raise IndexError('boolean index did not match indexed array')
            for pos in np.ndindex(*m.shape):
                mm = m[pos]
                if is_sym(mm):
                    if m.ndim == a.ndim:
                        p[pos] = ite(mm, c, p[pos])
                    else:
                        sub = p[pos]
                        for q2 in np.ndindex(*sub.shape):
                            sub[q2] = ite(mm, c, sub[q2])
                elif mm:
                    p[pos] = c
            return
        key = _decide_mask(key)
    ks = key if isinstance(key, tuple) else (key,)
    if any(isinstance(k, SymArray) and k._ld == BOOL for k in ks):
        ks = tuple(_decide_mask(k) if isinstance(k, SymArray) and k._ld == BOOL else k for k in ks)
        key = ks
    if not _has_symkey(key):
        if isinstance(value, np.ndarray) or isinstance(value, (list, tuple)):
            v = asarray(value)
            src = [cast_cell(as_ld(c, v._ld), ld) for c in plain(v).ravel()]
            o = np.empty(v.shape, dtype=object)
            of = o.reshape(-1)
            for i, c in enumerate(src):
                of[i] = c
            tgt = _ndget(p, key)
            if not isinstance(tgt, np.ndarray):
                if o.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                _ndset(p, key, o.reshape(-1)[0])
            else:
                _ndset(p, key, o)
        else:
            tgt = _ndget(p, key)          # raises IndexError as numpy would
            if isinstance(tgt, np.ndarray) and tgt.size == 0:
                return
            c = cast_cell(value, ld)
            _ndset(p, key, c)
        return
    ex = _expand(key, a.ndim)
    if ex is None:
        return setitem(a, tuple(_enum(k) for k in ks), value)
    if not any(isinstance(k, slice) for k in ex):
        arrs = [k if isinstance(k, SymArray) else (fromcells([k], (), I64) if is_sym(k) else wrap(np.asarray(k))) for k in ex]
        bs = np.broadcast_arrays(*[plain(x) for x in arrs])
        shape = bs[0].shape
        v = value
        if isinstance(v, (np.ndarray, list, tuple)):
            v = asarray(v)
            vb = [cast_cell(as_ld(c, v._ld), ld) for c in np.broadcast_to(plain(v), shape).ravel()]
        else:
            vb = [cast_cell(v, ld)] * bs[0].size
        for comp, val in zip(zip(*[b.ravel() for b in bs]), vb):
            idxs = []
            for ax, c in enumerate(comp):
                idxs.append(_check_bounds(c, a.shape[ax]) if is_sym(c) else int(c))
            rngs = [range(a.shape[ax]) if is_sym(i) else [i] for ax, i in enumerate(idxs)]
            for pos in itertools.product(*rngs):
                cond = land(*[i == j for i, j in zip(idxs, pos) if is_sym(i)])
                p[pos] = ite(cond, val, p[pos])
        return
    return setitem(a, tuple(_enum(k) for k in ex), value)


# ------------------------------------------------------------ elementwise

def _c2(f):
    return f


def _eq_any(a, b):
    return a == b


def _logical_and(a, b):
    return land(_tb(a), _tb(b))


def _tb(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return x
    return x != 0


def _divide(a, b):
    if isinstance(a, (SymInt, SymBool)):
        a = T.to_real(a)
    if isinstance(b, (SymInt, SymBool)):
        b = T.to_real(b)
    # array division never raises
    if isinstance(a, SymReal) and a.ld is None:
        a = SymReal(a.t, a.nan, F64, a.lin)
    if isinstance(b, SymReal) and b.ld is None:
        b = SymReal(b.t, b.nan, F64, b.lin)
    if not is_sym(a):
        a = float(a) if is_sym(b) else np.float64(a)
    if not is_sym(b):
        b = np.float64(b) if not is_sym(a) else float(b)
    return a / b


def _power(a, b):
    if isinstance(a, SymInt) and not is_sym(b) and not isinstance(b, (float, np.floating)):
        return a ** b
    if is_sym(a):
        return T.s_pow(a, b)
    if isinstance(b, SymInt):
        return a ** b.__index__()
    return T.s_uf2('pow', a, b)


def _floor_divide(a, b):
    return T.int_floordiv(a, b)


def _mod(a, b):
    return T.int_mod(a, b)


def _fmax(a, b):
    na, nb = T.s_isnan(a), T.s_isnan(b)
    return ite(na, b, ite(nb, a, T.smax(a, b)))


def _fmin(a, b):
    na, nb = T.s_isnan(a), T.s_isnan(b)
    return ite(na, b, ite(nb, a, T.smin(a, b)))


def _nanpois(f):
    def g(a, b):
        an, bn = getattr(a, 'nan', False), getattr(b, 'nan', False)
        r = f(a, b)
        bad = T.zor(an, bn)
        if bad is not False and isinstance(r, SymReal):
            return SymReal(r.t, T.zor(r.nan, bad), r.ld)
        return r
    return g


def _abs(a):
    return a if isinstance(a, SymBool) else abs(a)


ELEM1 = {
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': _abs, 'fabs': lambda a: abs(T.to_real(a)),
    'sqrt': T.s_sqrt, 'square': lambda a: a * a, 'cos': T.s_cos, 'sin': T.s_sin,
    'tan': lambda a: _divide(T.s_sin(a), T.s_cos(a)), 'arcsin': T.s_arcsin, 'arccos': T.s_arccos,
    'arctan': T.s_arctan, 'floor': T.s_floor, 'ceil': T.s_ceil, 'trunc': T.s_trunc, 'rint': T.s_rint,
    'isnan': T.s_isnan, 'isfinite': T.s_isfinite, 'isinf': lambda a: False if is_sym(a) else np.isinf(a),
    'logical_not': lambda a: lnot(_tb(a)), 'invert': lambda a: ~a, 'sign': T.s_sign,
    'exp': lambda a: T.s_uf('exp', a), 'log': lambda a: T.s_uf('log', a), 'log10': lambda a: T.s_uf('log10', a),
    'log2': lambda a: T.s_uf('log2', a), 'log1p': lambda a: T.s_uf('log1p', a),
    'deg2rad': lambda a: a * (np.pi / 180.0), 'radians': lambda a: a * (np.pi / 180.0),
    'rad2deg': lambda a: a * (180.0 / np.pi), 'degrees': lambda a: a * (180.0 / np.pi),
    'reciprocal': lambda a: _divide(1.0, a), 'conjugate': lambda a: a, 'signbit': lambda a: a < 0,
    'cbrt': lambda a: T.s_uf('cbrt', a),
}
ELEM2 = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': _divide, 'true_divide': _divide, 'floor_divide': _floor_divide, 'remainder': _mod, 'mod': _mod,
    'power': _power, 'float_power': _power, 'maximum': _nanpois(T.smax), 'minimum': _nanpois(T.smin), 'fmax': _fmax, 'fmin': _fmin,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b, 'less': lambda a, b: a < b,
    'less_equal': lambda a, b: a <= b, 'equal': _eq_any, 'not_equal': lambda a, b: a != b,
    'logical_and': _logical_and, 'logical_or': lambda a, b: lor(_tb(a), _tb(b)),
    'logical_xor': lambda a, b: lnot(_tb(a)) == _tb(b) if False else lor(land(_tb(a), lnot(_tb(b))), land(lnot(_tb(a)), _tb(b))),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
    'arctan2': T.s_arctan2, 'hypot': lambda a, b: T.s_sqrt(a * a + b * b),
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'fmod': lambda a, b: a - T.s_trunc(_divide(a, b)) * b,
    'copysign': lambda a, b: ite(b >= 0, abs(a), -abs(a)),
}
_REDUCERS = {'add': 0, 'multiply': 1, 'maximum': None, 'minimum': None, 'logical_and': True, 'logical_or': False,
             'fmax': None, 'fmin': None, 'bitwise_and': None, 'bitwise_or': None}


def _dummy(x):
    """a concrete stand-in with the same dtype / python-scalar kind (for numpy's own type resolution)"""
    if isinstance(x, SymArray):
        return np.ones((1,) if x.ndim else (), dtype=x._ld)
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymReal):
        return x.ld.type(1) if x.ld is not None else 1.0
    if isinstance(x, SymInt):
        return x.ld.type(1) if x.ld is not None else 1
    if isinstance(x, np.ndarray):
        return np.ones((1,) if x.ndim else (), dtype=x.dtype)
    return x


def result_ld(ufunc, inputs):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                r = ufunc(*[_dummy(x) for x in inputs])
        if isinstance(r, tuple):
            r = r[0]
        return np.asarray(r).dtype
    except TypeError:
        raise


def _is_arr(x):
    return isinstance(x, np.ndarray)


def _listy(x):
    return isinstance(x, (list, tuple))


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    if out is not None and isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    casting = kw.pop('casting', None)
    inputs = [array(x) if _listy(x) else x for x in inputs]
    if any(T.is_quantity(x) for x in inputs):
        return NotImplemented
    inputs = [SymMasked.coerce(x) if isinstance(x, np.ma.MaskedArray) else x for x in inputs]
    if dtype is not None and method == '__call__' and np.dtype(dtype).kind == 'f' and any(_deep_sym(x) or isinstance(x, SymMasked) for x in inputs):
        # the operands are converted before the operation
        inputs = [x.astype(dtype) if isinstance(x, (np.ndarray, SymMasked)) else _tofloat(x, np.dtype(dtype)) for x in inputs]
    if any(isinstance(x, SymMasked) for x in inputs):
        return masked_ufunc(ufunc, inputs)
    if method == '__call__':
        symin = any(_deep_sym(x) for x in inputs) or _deep_sym(where)
        if out is not None and isinstance(out, SymArray) and any_sym(out) and where is not True:
            symin = True
        if not symin:
            if dtype is not None:
                kw['dtype'] = dtype
            if casting is not None:
                kw['casting'] = casting
            if where is not True:
                kw['where'] = _deep_real(where)
            if out is not None and where is not True:
                tmp = real(out) if isinstance(out, SymArray) else out
                ufunc(*[_deep_real(x) for x in inputs], out=tmp, **kw)
                r = tmp
            else:
                r = ufunc(*[_deep_real(x) for x in inputs], **kw)
            if isinstance(r, np.ndarray):
                r = wrap(r)
            elif isinstance(r, tuple):
                r = _deep_wrap(r)
            if out is not None:
                _inplace_cast_check(ufunc, r.dtype, out.dtype, casting)
                out[...] = r
                return out
            return r
        if name in ('matmul',):
            r = matmul(*inputs)
        elif name == 'divmod':
            return (ufunc_dispatch(np.floor_divide, '__call__', inputs, {}), ufunc_dispatch(np.remainder, '__call__', inputs, {}))
        elif name == 'modf':
            tr = ufunc_dispatch(np.trunc, '__call__', inputs, {})
            return (ufunc_dispatch(np.subtract, '__call__', [inputs[0], tr], {}), tr)
        else:
            f = (ELEM1 if len(inputs) == 1 else ELEM2).get(name)
            if f is None or len(inputs) > 2:
                raise Unsupported('ufunc %s on symbolic values' % name)
            if name in ('isnan', 'isfinite', 'isinf'):
                ld = BOOL
            elif ufunc is None:
                ld = None
            else:
                ld = result_ld(ufunc, inputs)
            if dtype is not None:
                ld = np.dtype(dtype)
            r = elementwise(f, inputs, ld)
        if where is not True:
            base = out if out is not None else empty(r.shape, r.dtype)
            r = np_where3(where, r, base)
        if out is not None:
            rd = r.dtype if hasattr(r, 'dtype') else np.asarray(r).dtype
            _inplace_cast_check(ufunc, rd, out.dtype, casting)
            out[...] = r
            return out
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0)
        return reduce_(name, a, axis, kw.get('keepdims', False), kw.get('initial', None), dtype, where)
    if method == 'accumulate':
        if not _deep_sym(inputs[0]):
            return wrap(ufunc.accumulate(real(inputs[0]), **kw))
        a = asarray(inputs[0])
        axis = kw.get('axis', 0)
        f = _depy(ELEM2[name])
        p = np.moveaxis(plain(a), axis, 0)
        o = np.empty(p.shape, dtype=object)
        for i in range(p.shape[0]):
            o[i] = p[i] if i == 0 else _obj2(f, o[i - 1], p[i])
        return mk(np.moveaxis(o, 0, axis), a._ld)
    if method == 'outer':
        a, b = asarray(inputs[0]), asarray(inputs[1])
        return ufunc_dispatch(ufunc, '__call__', [a.reshape(a.shape + (1,) * b.ndim), b], {})
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        b = inputs[2] if len(inputs) > 2 else None
        idx = idx if isinstance(idx, (np.ndarray, list)) else [idx]
        for j, i in enumerate(idx):
            bv = b[j] if isinstance(b, (np.ndarray, list)) else b
            a[i] = _depy(ELEM2[name])(a[i], bv)
        return None
    raise Unsupported('ufunc %s.%s' % (name, method))


def _inplace_cast_check(ufunc, src, dst, casting):
    if not np.can_cast(src, dst, casting or 'same_kind'):
        raise np.core._exceptions._UFuncOutputCastingError(ufunc, casting or 'same_kind', np.dtype(src), np.dtype(dst), 0)


def _depy(f):
    """numpy scalars next to symbolic ones become python scalars (else numpy would dispatch back here)"""
    def g(*a):
        if any(is_sym(x) for x in a):
            a = [x.item() if isinstance(x, np.generic) else x for x in a]
        return f(*a)
    return g


def _obj2(f, a, b):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return _depy(f)(a, b)
    f = _depy(f)
    a, b = np.broadcast_arrays(a, b)
    o = np.empty(a.shape, dtype=object)
    of, af, bf = o.reshape(-1), a.ravel(), b.ravel()
    for i in range(of.shape[0]):
        of[i] = f(af[i], bf[i])
    return o


def elementwise(f, inputs, ld):
    """apply a scalar function over broadcast inputs; ld = result dtype (None: infer)"""
    f = _depy(f)
    if not any(isinstance(x, np.ndarray) and x.ndim for x in inputs):
        cs = [cells(x)[0] if isinstance(x, np.ndarray) else x for x in inputs]
        if ld is not None and ld.kind in 'fiu':
            cs = [_promote(c, ld) for c in cs]
        r = f(*cs)
        return finish_cell(r, ld)
    ps = []
    for x in inputs:
        if isinstance(x, SymArray):
            o = np.empty(x.shape, dtype=object)
            of = o.reshape(-1)
            for i, c in enumerate(cells(x)):
                of[i] = _promote(c, ld) if ld is not None and ld.kind in 'fiu' else c
            ps.append(o)
        elif isinstance(x, np.ndarray):
            ps.append(plain(wrap(x)))
        else:
            o = np.empty((), dtype=object)
            o[()] = _promote(x, ld) if ld is not None and ld.kind in 'fiu' else x
            ps.append(o)
    bs = np.broadcast_arrays(*ps) if len(ps) > 1 else ps
    shape = bs[0].shape
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    fl = [b.ravel() for b in bs]
    with np.errstate(all='ignore'):
        for i in range(of.shape[0]):
            of[i] = finish_cell(f(*[x[i] for x in fl]), ld)
    return mk(out, ld if ld is not None else infer_ld(list(of)))


def _tofloat(c, ld):
    return T.to_real(c) if isinstance(c, (SymInt, SymBool)) else _promote(c, ld)


def _promote(c, ld):
    """operands are converted to the operation's dtype family before the operation"""
    if isinstance(c, SymReal):
        if ld.kind == 'f' and c.ld is None:
            return SymReal(c.t, c.nan, ld, c.lin)
        return c
    if isinstance(c, SymInt):
        if ld.kind in 'iu':
            return SymInt(c.t, ld)
        return c
    if isinstance(c, SymBool):
        return T.to_symint(c) if ld.kind in 'iu' else c
    if isinstance(c, (bool, np.bool_)) and ld.kind in 'iuf':
        return ld.type(c)
    if isinstance(c, (int, float, np.integer, np.floating)):
        if ld.kind == 'f' and not isinstance(c, np.floating):
            return np.float64(c)
        if ld.kind in 'iu' and isinstance(c, (int, np.integer)):
            try:
                return ld.type(c)
            except OverflowError:
                return c
    return c


def finish_cell(r, ld):
    if ld is None or ld == OBJ:
        return r
    if isinstance(r, SymInt) and ld.kind in 'iu':
        if r.ld == ld:
            return r
        return SymInt(T.wrap_int(r.t, ld), ld) if ld.itemsize < 8 else SymInt(r.t, ld)
    if isinstance(r, SymReal) and ld.kind == 'f':
        return r if r.ld == ld else SymReal(r.t, r.nan, ld, r.lin)
    if r is NotImplemented:
        raise TypeError('unsupported operand type(s)')
    return cast_cell(r, ld)


def reduce_(name, a, axis, keepdims=False, initial=None, dtype=None, where=True):
    a = asarray(a)
    if keepdims is np._NoValue:
        keepdims = False
    if initial is np._NoValue:
        initial = None
    if where is np._NoValue:
        where = True
    if not _deep_sym(a) and not _deep_sym(initial) and not _deep_sym(where):
        kw = {}
        if initial is not None:
            kw['initial'] = initial
        if dtype is not None:
            kw['dtype'] = dtype
        if where is not True:
            kw['where'] = _deep_real(where)
        r = getattr(np, name).reduce(real(a), axis=axis, keepdims=keepdims, **kw)
        return wrap(r) if isinstance(r, np.ndarray) else r
    f = _depy(ELEM2[name])
    ident = _REDUCERS[name]
    ld = a._ld
    if name in ('add', 'multiply'):
        ld = np.dtype(dtype) if dtype is not None else getattr(np, name).reduce(np.ones((1,), dtype=ld)).dtype
    if name in ('logical_and', 'logical_or'):
        ld = BOOL
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(x % a.ndim for x in axis)
    else:
        ax = _idx(axis)
        if not -a.ndim <= ax < a.ndim:
            raise np.AxisError(ax, a.ndim)
        axes = (ax % a.ndim,)
    p = plain(a)
    if where is not True:
        w = np.broadcast_to(plain(asarray(where)), p.shape)
        if ident is None:
            raise Unsupported('reduce with where')
        p = _obj2(lambda c, m: ite(m, c, ident), p, w)
    rest = [i for i in range(a.ndim) if i not in axes]
    p2 = p.transpose(list(axes) + rest).reshape((-1,) + tuple(p.shape[i] for i in rest))
    n = p2.shape[0]
    if n == 0:
        if ident is None and initial is None:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        shape = p2.shape[1:]
        r = full(shape, ident if initial is None else initial, ld)
        r = plain(r)
    else:
        conv = np.vectorize(lambda c: _tofloat(as_ld(c, a._ld), ld) if ld.kind == 'f' else _promote(as_ld(c, a._ld), ld) if ld.kind in 'iu' else c, otypes=[object])
        p2 = conv(p2) if p2.size else p2
        r = p2[0]
        if initial is not None:
            r = _obj2(f, r, np.broadcast_to(_objs(initial), np.shape(r)) if isinstance(r, np.ndarray) else initial)
        for i in range(1, n):
            r = _obj2(f, r, p2[i])
        if n == 1 and name in ('logical_and', 'logical_or'):
            r = np.vectorize(_tb, otypes=[object])(r) if isinstance(r, np.ndarray) else _tb(r)
    if not isinstance(r, np.ndarray) or r.ndim == 0:
        c = r[()] if isinstance(r, np.ndarray) else r
        c = finish_cell(c, ld)
        if keepdims:
            return fromcells([c], (1,) * a.ndim, ld)
        return c
    o = np.empty(r.shape, dtype=object)
    of = o.reshape(-1)
    for i, c in enumerate(r.ravel()):
        of[i] = finish_cell(c, ld)
    if keepdims:
        o = o.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return mk(o, ld)


def _objs(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ld = np.result_type(a._ld, b._ld)
    pa, pb = _obj_promoted(a, ld), _obj_promoted(b, ld)
    sa, sb = pa.shape, pb.shape
    k1 = sa[-1]
    k2 = sb[0] if pb.ndim == 1 else sb[-2]
    if k1 != k2:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)'
                         % (k2, k1))
    if pa.ndim <= 2 and pb.ndim <= 2:
        A = pa.reshape((1, -1)) if pa.ndim == 1 else pa
        B = pb.reshape((-1, 1)) if pb.ndim == 1 else pb
        o = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                s = None
                for k in range(A.shape[1]):
                    v = A[i, k] * B[k, j]
                    s = v if s is None else s + v
                o[i, j] = finish_cell(s if s is not None else 0, ld)
        if pa.ndim == 1 and pb.ndim == 1:
            return o[0, 0]
        if pa.ndim == 1:
            o = o[0]
        elif pb.ndim == 1:
            o = o[:, 0]
        return mk(o, ld)
    if pb.ndim == 1:
        return mk(np.matmul(pa, pb), ld)
    lead = np.broadcast_shapes(pa.shape[:-2], pb.shape[:-2])
    A = np.broadcast_to(pa, lead + pa.shape[-2:])
    B = np.broadcast_to(pb, lead + pb.shape[-2:])
    o = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for idx in np.ndindex(*lead):
        o[idx] = plain(matmul(mk(A[idx].copy(), ld), mk(B[idx].copy(), ld)))
    return mk(o, ld)


def _obj_promoted(a, ld):
    o = np.empty(a.shape, dtype=object)
    of = o.reshape(-1)
    for i, c in enumerate(cells(a)):
        of[i] = _promote(c, ld)
    return o


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    ld = np.result_type(a._ld, b._ld)
    r = np.dot(_obj_promoted(a, ld), _obj_promoted(b, ld))
    return mk(r, ld) if isinstance(r, np.ndarray) else r


# ------------------------------------------------------------ numpy functions

def np_where3(c, x, y):
    c = asarray(c)
    x_, y_ = (asarray(v) if isinstance(v, (np.ndarray, list, tuple)) else v for v in (x, y))
    ld = np.result_type(_dummy(x_), _dummy(y_))
    return elementwise(lambda cc, a, b: ite(_tb(cc), cast_cell(a, ld), cast_cell(b, ld)), [c, x_, y_], ld) \
        if c.ndim or isinstance(x_, np.ndarray) or isinstance(y_, np.ndarray) \
        else fromcells([cast_cell(ite(_tb(cells(c)[0]), x_, y_), ld)], (), ld)


def np_where(c, *xy):
    if xy:
        return np_where3(c, *xy)
    c = asarray(c)
    if c._ld != BOOL:
        c = mapcells(_tb, c, BOOL)
    return WhereTuple(c)


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = asarray(a)
    if keepdims is np._NoValue:
        keepdims = False
    ld = F64 if a._ld.kind in 'iub' else a._ld
    if where is not True and where is not np._NoValue:
        s = reduce_('add', a, axis, keepdims, None, ld, where)
        n = reduce_('add', asarray(where).astype(int) + np_call('zeros', (a.shape, int), {}), axis, keepdims, None, None)
        return ufunc_dispatch(np.divide, '__call__', [s, n], {})
    s = reduce_('add', a, axis, keepdims, None, ld)
    n = _count(a, axis)
    if n == 0:
        return s * float('nan')
    r = s / np.float64(n)
    return r


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, (tuple, list)):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    a = asarray(a)
    if keepdims is np._NoValue:
        keepdims = False
    m = _mean(a, axis, keepdims=True) if axis is not None else _mean(a)
    d = a - m
    s = reduce_('add', d * d, axis, keepdims)
    n = _count(a, axis)
    return s / np.float64(n - ddof)


def _nanred(name, fill_bad, f):
    pass


def _nansum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = asarray(a)
    z = elementwise(lambda c: ite(T.s_isnan(c), a._ld.type(0), c), [a], a._ld)
    return reduce_('add', z, axis, keepdims)


def _nancount(a, axis, keepdims=False):
    n = elementwise(lambda c: ite(T.s_isnan(c), 0, 1), [a], I64)
    return reduce_('add', n, axis, keepdims)


def _nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = asarray(a)
    if keepdims is np._NoValue:
        keepdims = False
    return ufunc_dispatch(np.divide, '__call__', [_nansum(a, axis, keepdims=keepdims), _nancount(a, axis, keepdims)], {})


def _nanext(uname):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        a = asarray(a)
        if keepdims is np._NoValue:
            keepdims = False
        return reduce_('fmax' if uname == 'max' else 'fmin', a, axis, keepdims)
    return g


def _red(name):
    def g(a, axis=None, *args, **kw):
        names = {'add': ['dtype', 'out', 'keepdims', 'initial', 'where'],
                 'multiply': ['dtype', 'out', 'keepdims', 'initial', 'where'],
                 'maximum': ['out', 'keepdims', 'initial', 'where'],
                 'minimum': ['out', 'keepdims', 'initial', 'where'],
                 'logical_and': ['out', 'keepdims', 'where'],
                 'logical_or': ['out', 'keepdims', 'where']}[name]
        for n, v in zip(names, args):
            kw[n] = v
        if kw.get('out') is not None:
            raise Unsupported('out=')
        if isinstance(a, SymMasked):
            return masked_reduce(name, a, axis)
        return reduce_(name, a, axis, kw.get('keepdims', False), kw.get('initial', None), kw.get('dtype', None),
                       kw.get('where', True))
    return g


def _clip(a, a_min=None, a_max=None, out=None, **k):
    lo = k.get('min', a_min)
    hi = k.get('max', a_max)
    r = a if isinstance(a, np.ndarray) or not _listy(a) else array(a)
    if lo is not None:
        r = ufunc_dispatch(np.maximum, '__call__', [r, lo], {})
    if hi is not None:
        r = ufunc_dispatch(np.minimum, '__call__', [r, hi], {})
    if out is not None:
        out[...] = r
        return out
    return r


def _around(a, decimals=0, out=None):
    a_ = asarray(a) if _listy(a) else a
    ld = getattr(a_, 'dtype', None)
    if ld is not None and ld.kind in 'iub':
        return a_
    if not isinstance(a_, np.ndarray):
        return T.s_round(a_, decimals)
    return elementwise(lambda c: T.s_round(c, decimals), [a_], a_.dtype)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        d = abs(T.to_real(x) - T.to_real(y)) if is_sym(x) or is_sym(y) else None
        if d is None:
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        return d <= atol + rtol * abs(T.to_real(y))
    return elementwise(f, [asarray(a) if not is_sym(a) else a, asarray(b) if not is_sym(b) else b], BOOL)


def _array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return land(*[x == y for x, y in zip(cells(a), cells(b))])


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    s = 0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        v = m[0, j] * _det(minor)
        s = s + v if j % 2 == 0 else s - v
    return s


def linalg_det(a):
    a = asarray(a)
    return _det(_obj_promoted(a, F64))


def linalg_inv(a):
    a = asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    p = _obj_promoted(a, F64)
    n = p.shape[0]
    d = _det(p)
    z = d == 0
    if bool(z):
        raise np.linalg.LinAlgError('Singular matrix')
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                c = _det(np.delete(np.delete(p, j, 0), i, 1))
            if (i + j) % 2:
                c = -c
            o[i, j] = _divide(c, d)
    return mk(o, F64)


def linalg_solve(a, b):
    return matmul(linalg_inv(a), b)


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim != 1 and axis is None):
        raise Unsupported('norm ord')
    return ufunc_dispatch(np.sqrt, '__call__', [reduce_('add', x * x, axis, keepdims)], {})


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if isinstance(m, SymMasked):
        return ma_cov(m, y, rowvar, bias, True, ddof)
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported('cov args')
    x = asarray(m)
    if x.ndim < 2:
        x = x.reshape((1,) + x.shape)
    if not rowvar and x.shape[0] != 1:
        x = x.transpose()
    if ddof is None:
        ddof = 0 if bias else 1
    n = x.shape[1]
    d = x - _mean(x, axis=1, keepdims=True)
    c = matmul(d, d.transpose())
    c = c * (1.0 / (n - ddof)) if n - ddof > 0 else c * float('nan')
    return c.squeeze()


def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarray(a)
    if weights is None:
        r = _mean(a, axis)
        return (r, r * 0 + float(_count(a, axis))) if returned else r
    w = asarray(weights)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        if w.ndim != 1:
            raise TypeError('1D weights expected when shapes of a and weights differ.')
        if w.shape[0] != a.shape[axis]:
            raise ValueError('Length of weights not compatible with specified axis.')
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
        w = w + zeros(a.shape)
    scl = reduce_('add', w, axis)
    anyz = lor(*[c == 0 for c in cells(scl)])
    if bool(anyz):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = ufunc_dispatch(np.divide, '__call__', [reduce_('add', a * w, axis), scl], {})
    return (r, scl) if returned else r


def _bykey(cs, key):
    import functools

    def cmp(x, y):
        if bool(key(x) < key(y)):
            return -1
        if bool(key(y) < key(x)):
            return 1
        return 0
    return sorted(cs, key=functools.cmp_to_key(cmp))


def _along(a, axis, f, ld=None):
    """apply f(list of cells)->list of cells along an axis"""
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    p = np.moveaxis(plain(a), axis, -1)
    lead = p.shape[:-1]
    rows = []
    for idx in np.ndindex(*lead):
        rows.append(f([as_ld(c, a._ld) for c in p[idx]]))
    n = len(rows[0])
    o = np.empty((len(rows), n), dtype=object)
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            o[i, j] = c
    o = o.reshape(lead + (n,))
    return mk(np.moveaxis(o, -1, axis), ld or a._ld)


def _sort(a, axis=-1, kind=None, order=None):
    return _along(a, axis, lambda cs: _bykey(cs, lambda v: v))


def _argsort(a, axis=-1, kind=None, order=None):
    return _along(a, axis, lambda cs: _bykey(list(range(len(cs))), lambda i: cs[i]), I64)


def _argext(sgn):
    def g(a, axis=None, out=None, keepdims=False):
        a = asarray(a)

        def f(cs):
            best = 0
            bv = cs[0]
            idx = 0
            for i in range(1, len(cs)):
                c = cs[i] > bv if sgn > 0 else cs[i] < bv
                idx = ite(c, i, idx)
                bv = ite(c, cs[i], bv)
            return [idx]
        if axis is None:
            r = _along(a, None, f, I64)
            return as_ld(plain(r).ravel()[0], I64)
        r = _along(a, axis, f, I64)
        return mk(plain(r).squeeze(axis), I64)
    return g


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported('unique axis')
    a = asarray(a)
    cs = cells(a)
    order = _bykey(list(range(len(cs))), lambda i: cs[i])
    groups = []
    for i in order:
        if groups and bool(cs[groups[-1][0]] == cs[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [fromcells([cs[g[0]] for g in groups], (len(groups),), a._ld)]
    if return_index:
        out.append(wrap(np.array([min(g) for g in groups], dtype=int)))
    if return_inverse:
        inv = np.zeros(len(cs), dtype=int)
        for gi, g in enumerate(groups):
            for i in g:
                inv[i] = gi
        out.append(wrap(inv))
    if return_counts:
        out.append(wrap(np.array([len(g) for g in groups], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def _searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)
    if sorter is not None:
        a = a[sorter]
    ac = cells(a)

    def f(x):
        s = 0
        for c in ac:
            t = (c < x) if side == 'left' else (c <= x)
            s = s + (T.to_symint(t) if isinstance(t, SymBool) else int(t))
        return s
    if isinstance(v, (np.ndarray, list, tuple)):
        return mapcells(f, asarray(v), I64)
    return as_ld(f(v), I64)


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xpc, fpc = cells(asarray(xp)), cells(asarray(fp))
    if len(xpc) != len(fpc):
        raise ValueError('fp and xp are not of the same length.')
    if not xpc:
        raise ValueError('array of sample points is empty')
    n = len(xpc)
    lo = fpc[0] if left is None else left
    hi = fpc[-1] if right is None else right

    def one(v):
        # numpy: j = last index with xp[j] <= x (binary search; assumes increasing xp)
        r = hi
        r = ite(v == xpc[-1], fpc[-1], r) if right is not None or True else r
        for j in range(n - 2, -1, -1):
            dx = xpc[j + 1] - xpc[j]
            if not is_sym(dx):
                seg = fpc[j] + (fpc[j + 1] - fpc[j]) * ((v - xpc[j]) * (1.0 / dx)) if dx != 0 else fpc[j]
            else:
                seg = fpc[j] + _divide((fpc[j + 1] - fpc[j]) * (v - xpc[j]), dx)
            r = ite(v < xpc[j + 1], seg, r)
        r = ite(v < xpc[0], lo, r)
        return T.to_real(r)
    if isinstance(x, (np.ndarray, list, tuple)):
        return mapcells(lambda c: cast_cell(one(c), F64), asarray(x), F64)
    return cast_cell(one(x), F64)


def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side='left' if right else 'right')


def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    def f(cs):
        s = _bykey(cs, lambda v: v)
        n = len(s)
        return [s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0]
    r = _along(a, axis, f, F64)
    if axis is None:
        return cells(r)[0]
    return mk(plain(r).squeeze(axis), F64)


def _isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    tc = cells(asarray(test_elements))
    f = (lambda c: lnot(lor(*[c == t for t in tc]))) if invert else (lambda c: lor(*[c == t for t in tc]))
    return mapcells(f, asarray(element), BOOL)


def _count_nonzero(a, axis=None, keepdims=False):
    a = asarray(a)
    b = mapcells(lambda c: (lambda z: T.to_symint(z) if isinstance(z, SymBool) else int(z))(_tb(c)), a, I64)
    return reduce_('add', b, axis, keepdims)


def _nonzero(a):
    a = asarray(a)
    if a._ld != BOOL:
        a = mapcells(_tb, a, BOOL)
    return WhereTuple(a)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarray(x) if isinstance(x, (np.ndarray, list)) else x
    return elementwise(lambda c: ite(T.s_isnan(c), nan, c), [x], x.dtype)


def _hist_edges(xs, bins, range):
    """(edges, membership tests) of numpy.histogram"""
    if np.ndim(bins) == 0 and not isinstance(bins, str):
        n = bins.__index__()
        if n < 1:
            raise ValueError('`bins` must be positive, when an integer')
        if range is not None:
            lo, hi = range
        elif not xs:
            lo, hi = 0.0, 1.0
        else:
            num = [x for x in xs if not is_sym(x)]
            rest = [x for x in xs if is_sym(x)]
            lo, hi = (builtins.min(num), builtins.max(num)) if num and not builtins.any(x != x for x in num) else (None, None)
            if lo is None:
                lo, hi, rest = xs[0], xs[0], xs[1:]
            for x in rest:
                lo, hi = ite(x < lo, x, lo), ite(x > hi, x, hi)
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        lo, hi = lo * 1.0, hi * 1.0
        w = hi - lo
        def test(x, j):
            y = (x - lo) * n
            c = y <= w * n if j == n - 1 else y < w * (j + 1)
            return land(y >= w * j, c)
        return [lo + w * j / n for j in builtins.range(n)] + [hi], test, n
    if isinstance(bins, str):
        raise Unsupported('histogram bins=%r' % bins)
    e = list(cells(asarray(bins)))
    n = len(e) - 1
    return e, lambda x, j: land(x >= e[j], x <= e[j + 1] if j == n - 1 else x < e[j + 1]), n


def _concrete(c):
    """fork until the count is a number (logarithms of counts follow)"""
    return c.__index__() if is_sym(c) else c


def _grouped(xs):
    """(value or values, how often): equal numbers are taken together"""
    n, out = {}, []
    for x in xs:
        if builtins.any(is_sym(v) for v in (x if isinstance(x, tuple) else (x,))):
            out.append((x, 1))
        else:
            n[x] = n.get(x, 0) + 1
    return list(n.items()) + out


def _histogram(a, bins=10, range=None, density=None, weights=None):
    if density or weights is not None:
        raise Unsupported('weighted histogram')
    xs = cells(asarray(a))
    edges, test, n = _hist_edges(xs, bins, range)
    out = []
    for j in builtins.range(n):
        c = 0
        for x, k in _grouped(xs):
            c = c + ite(test(x, j), k, 0)
        out.append(_concrete(c))
    return array(out, dtype=I64), array(edges, dtype=F64)


def _histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if density or weights is not None:
        raise Unsupported('weighted histogram')
    xs, ys = cells(asarray(x)), cells(asarray(y))
    if len(xs) != len(ys):
        raise ValueError('x and y must have the same length.')
    bx, by = bins if np.ndim(bins) and len(bins) == 2 else (bins, bins)
    rx, ry = range if range is not None else (None, None)
    ex, tx, nx = _hist_edges(xs, bx, rx)
    ey, ty, ny = _hist_edges(ys, by, ry)
    both = _grouped(list(zip(xs, ys)))
    out = []
    for i in builtins.range(nx):
        row = []
        for j in builtins.range(ny):
            c = 0
            for (a, b), k in both:
                c = c + ite(land(tx(a, i), ty(b, j)), k, 0)
            row.append(_concrete(c) * 1.0)
        out.append(row)
    return array(out, dtype=F64), array(ex, dtype=F64), array(ey, dtype=F64)


def _bincount(x, weights=None, minlength=0):
    xs = cells(asarray(x))
    n = max([v.__index__() for v in xs] + [minlength - 1]) + 1
    out = []
    for j in builtins.range(n):
        s = 0
        for i, v in enumerate(xs):
            t = v == j
            w = 1 if weights is None else cells(asarray(weights))[i]
            s = s + (w if t else 0)
        out.append(s)
    return array(out)


def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = np_call('broadcast_to', (src, dst.shape), {})[where] if isinstance(src, np.ndarray) else src


def _put(a, ind, v, mode='raise'):
    f = a.reshape(-1)
    f[ind] = v
    if not np.shares_memory(plain(f), plain(a)):
        a[...] = f.reshape(a.shape)


def _fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def _putmask(a, mask, values):
    a[mask] = values


def _squeeze(a, axis=None):
    a = asarray(a)
    r = plain(a).squeeze(axis)
    return mk(r, a._ld)


def _shape_of(a):
    if isinstance(a, np.ndarray) or isinstance(a, SymMasked):
        return a.shape
    if is_sym(a):
        return ()
    return asarray(a).shape


def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = asarray(a)
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    for _ in range(n):
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def _apply_along_axis(f, axis, arr, *args, **kw):
    return np.apply_along_axis._implementation(f, axis, arr, *args, **kw)


def _einsum(sub, *ops, **k):
    ops = [asarray(o) for o in ops]
    ld = np.result_type(*[o._ld for o in ops])
    r = np.einsum(sub, *[_obj_promoted(o, ld) for o in ops])
    return mk(r, ld) if isinstance(r, np.ndarray) else r


def _tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    ld = np.result_type(a._ld, b._ld)
    r = np.tensordot(_obj_promoted(a, ld), _obj_promoted(b, ld), axes)
    return mk(r, ld)


def _cross(a, b, **k):
    a, b = asarray(a), asarray(b)
    ld = np.result_type(a._ld, b._ld)
    r = np.cross(_obj_promoted(a, ld), _obj_promoted(b, ld), **k)
    return mk(r, ld)


def _outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a.reshape((-1, 1)) * b.reshape((1, -1))


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        d = dx
    else:
        d = _diff(asarray(x))
    yy = np.moveaxis(plain(y), axis, -1)
    y = mk(yy, y._ld)
    return reduce_('add', d * (y[..., 1:] + y[..., :-1]) / 2.0, -1)


def _vectorize_unsupported(*a, **k):
    raise Unsupported('vectorize')


def _meshgrid(*xi, **k):
    xs = [asarray(x) for x in xi]
    rs = np.meshgrid(*[plain(x) for x in xs], **k)
    return [mk(r, x._ld) for r, x in zip(rs, xs)]


def _astuple_axis(x):
    return x


STRUCT = ('reshape ravel transpose stack concatenate dstack vstack hstack column_stack row_stack expand_dims swapaxes moveaxis rollaxis '
          'flip fliplr flipud rot90 tile repeat roll split array_split hsplit vsplit dsplit broadcast_to diag '
          'triu tril take delete insert append atleast_1d atleast_2d atleast_3d copy diagonal resize block '
          'broadcast_arrays pad ascontiguousarray asfortranarray trace_ compress take_along_axis choose_ require '
          'diagflat').split()


def _struct(name):
    f = getattr(np, name, None)

    def g(*args, **kw):
        lds = []

        def conv(x, top=True):
            if isinstance(x, SymArray):
                lds.append(x._ld)
                return plain(x)
            if is_sym(x):
                lds.append(x.dtype)
                o = np.empty((), dtype=object)
                o[()] = x
                return o
            if isinstance(x, (list, tuple)) and _has_arr(x):
                return type(x)([conv(c, False) for c in x])
            if isinstance(x, np.ndarray):
                lds.append(np.ndarray.dtype.__get__(x))
                return plain(wrap(x))
            return x
        a2 = list(args)
        # index-like arguments stay real
        nconv = {'take': 1, 'repeat': 1, 'delete': 1, 'reshape': 1, 'tile': 1, 'roll': 1, 'pad': 1, 'broadcast_to': 1,
                 'transpose': 1, 'split': 1, 'array_split': 1, 'expand_dims': 1, 'moveaxis': 1, 'swapaxes': 1, 'flip': 1,
                 'hsplit': 1, 'vsplit': 1, 'compress': None, 'take_along_axis': 1, 'rot90': 1, 'resize': 1, 'rollaxis': 1}.get(name)
        for i, x in enumerate(a2):
            if nconv is not None and i >= nconv:
                a2[i] = _deep_idx(x)
            else:
                if i == 0 and isinstance(x, (list, tuple)) and name in ('reshape', 'ravel', 'transpose', 'take', 'repeat', 'tile',
                                                                        'delete', 'append', 'insert', 'flip', 'diag', 'copy',
                                                                        'squeeze', 'roll', 'expand_dims', 'broadcast_to', 'pad', 'array_split', 'split'):
                    x = array(x)
                if name in ('append', 'insert') and isinstance(x, (list, tuple)) and (name == 'append' or i == 2):
                    x = array(x)
                if name in ('atleast_1d', 'atleast_2d', 'atleast_3d') and isinstance(x, (list, tuple)):
                    x = array(x)
                if name in ('stack', 'concatenate', 'vstack', 'hstack', 'dstack', 'column_stack') and i == 0:
                    x = [asarray(c) for c in x]
                if name == 'insert' and i == 1:
                    a2[i] = _deep_idx(x)
                else:
                    a2[i] = conv(x)
        kw = {k: (_deep_idx(v) if k in ('axis', 'indices', 'repeats', 'shape', 'newshape') else conv(v)) for k, v in kw.items()}
        if name in ('append',) and not isinstance(a2[1], np.ndarray):
            lds.append(infer_ld([a2[1]]))
        if name == 'concatenate' and 'dtype' in kw:
            kw.pop('dtype')
        if name == 'stack' and 'dtype' in kw:
            kw.pop('dtype')
        impl = getattr(f, '_implementation', f)
        r = impl(*a2, **kw)
        ld = lds[0] if lds else F64
        for d in lds[1:]:
            ld = np.result_type(ld, d)
        if name in ('take', 'delete', 'repeat', 'tile', 'roll', 'insert', 'pad'):
            ld = lds[0] if lds else F64

        def out(x):
            if isinstance(x, np.ndarray):
                o = mk(x if np.ndarray.dtype.__get__(x) == OBJ else x.astype(object), ld)
                if len(set(lds)) > 1:
                    of = plain(o).reshape(-1)
                    o = fromcells([cast_cell(c, ld) for c in of], o.shape, ld)
                return o
            if isinstance(x, (list, tuple)):
                return type(x)([out(c) for c in x])
            return x if isinstance(x, SymMasked) else as_ld(x, ld)
        return out(r)
    return g


def _deep_idx(x):
    if isinstance(x, SymArray):
        return np.array([c.__index__() if is_sym(c) else c for c in cells(x)], dtype=x._ld).reshape(x.shape)
    if isinstance(x, (SymInt, SymBool)):
        return x.__index__()
    if isinstance(x, (list, tuple)):
        return type(x)([_deep_idx(c) for c in x])
    return x


def _has_arr(x):
    return any(isinstance(c, np.ndarray) or is_sym(c) or (isinstance(c, (list, tuple)) and _has_arr(c)) for c in x)


def _ndim(a):
    return len(_shape_of(a))


def _size(a, axis=None):
    s = _shape_of(a)
    if axis is not None:
        return s[axis]
    n = 1
    for v in s:
        n *= v
    return n


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    return land(*cells(r)) if isinstance(r, np.ndarray) else r


def _unravel_index(indices, shape, order='C'):
    if order != 'C':
        raise Unsupported('order')
    out = []
    rem = indices if isinstance(indices, np.ndarray) else indices
    strides = []
    n = 1
    for s in reversed(shape):
        strides.append(n)
        n *= s
    strides.reverse()
    for st in strides:
        d = rem // st
        out.append(d)
        rem = rem - d * st
    return tuple(out)


def _ravel_multi_index(mi, dims, **k):
    r = 0
    for i, d in zip(mi, dims):
        r = r * d + i
    return r


def _trace(a, offset=0, **k):
    a = asarray(a)
    s = 0
    for i in range(min(a.shape[:2])):
        s = s + a[i, i]
    return s


def _astr(*a, **k):
    raise Unsupported('array to string')


def _result_type(*args):
    return np.result_type(*[_dummy(a) for a in args])


def _frompyfunc(*a):
    raise Unsupported('frompyfunc')


FUNCS = {
    'where': np_where, 'clip': _clip, 'sum': _red('add'), 'prod': _red('multiply'), 'product': _red('multiply'),
    'amax': _red('maximum'), 'amin': _red('minimum'), 'max': _red('maximum'), 'min': _red('minimum'),
    'all': _red('logical_and'), 'any': _red('logical_or'), 'alltrue': _red('logical_and'), 'sometrue': _red('logical_or'),
    'mean': _mean, 'var': _var,
    'std': lambda *a, **k: ufunc_dispatch(np.sqrt, '__call__', [_var(*a, **k)], {}),
    'nansum': _nansum, 'nanmean': _nanmean, 'nanmax': _nanext('max'), 'nanmin': _nanext('min'),
    'around': _around, 'round': _around, 'round_': _around, 'isclose': _isclose, 'allclose': _allclose,
    'array_equal': _array_equal, 'array_equiv': _array_equal, 'dot': dot, 'matmul': matmul, 'inner': lambda a, b: dot(a, asarray(b).transpose()),
    'vdot': lambda a, b: dot(asarray(a).ravel(), asarray(b).ravel()), 'outer': _outer, 'cov': _cov, 'average': _average,
    'sort': _sort, 'argsort': _argsort, 'argmax': _argext(1), 'argmin': _argext(-1), 'unique': _unique,
    'searchsorted': _searchsorted, 'interp': _interp, 'digitize': _digitize, 'median': _median, 'isin': _isin, 'in1d': _isin,
    'count_nonzero': _count_nonzero, 'nonzero': _nonzero, 'flatnonzero': lambda a: _nonzero(asarray(a).ravel())[0],
    'argwhere': lambda a: np_call('stack', (list(_nonzero(a)),), dict(axis=-1)),
    'nan_to_num': _nan_to_num, 'copyto': _copyto, 'put': _put, 'fill_diagonal': _fill_diagonal, 'putmask': _putmask, 'place': _putmask,
    'squeeze': _squeeze, 'shape': _shape_of, 'ndim': _ndim, 'size': _size, 'diff': _diff, 'einsum': _einsum,
    'tensordot': _tensordot, 'cross': _cross, 'trapz': _trapz, 'meshgrid': _meshgrid, 'bincount': _bincount,
    'unravel_index': _unravel_index, 'ravel_multi_index': _ravel_multi_index, 'trace': _trace, 'histogram': _histogram, 'histogram2d': _histogram2d,
    'cumsum': lambda a, axis=None, **k: ufunc_dispatch(np.add, 'accumulate', [asarray(a).ravel() if axis is None else a], dict(axis=axis or 0)),
    'cumprod': lambda a, axis=None, **k: ufunc_dispatch(np.multiply, 'accumulate', [asarray(a).ravel() if axis is None else a], dict(axis=axis or 0)),
    'ptp': lambda a, axis=None, **k: reduce_('maximum', a, axis) - reduce_('minimum', a, axis),
    'linalg.inv': linalg_inv, 'linalg.det': linalg_det, 'linalg.norm': linalg_norm, 'linalg.solve': linalg_solve,
    'linalg.multi_dot': lambda arrs: __import__('functools').reduce(dot, arrs),
    'real': lambda a: a, 'fix': lambda a: ufunc_dispatch(np.trunc, '__call__', [a], {}), 'isreal': lambda a: asarray(a) == asarray(a),
    'array': array, 'asarray': asarray, 'asanyarray': asarray, 'zeros_like': zeros_like, 'ones_like': ones_like,
    'empty_like': empty_like, 'full_like': full_like, 'result_type': _result_type, 'array2string': _astr, 'array_repr': _astr, 'array_str': _astr,
    'nanargmax': _argext(1), 'nanargmin': _argext(-1), 'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True,
    'shares_memory': lambda a, b, **k: np.shares_memory(plain(a) if isinstance(a, SymArray) else a, plain(b) if isinstance(b, SymArray) else b),
    'may_share_memory': lambda a, b, **k: np.shares_memory(plain(a) if isinstance(a, SymArray) else a, plain(b) if isinstance(b, SymArray) else b),
    'ndenumerate': None, 'mod': None,
}
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}
for _n in STRUCT:
    if hasattr(np, _n):
        FUNCS[_n] = _struct(_n)
# functions that must see the SymArray itself even if everything in it is concrete (they write into it, or return views)
ALWAYS = {'copyto', 'put', 'fill_diagonal', 'putmask', 'place', 'array', 'asarray', 'asanyarray', 'zeros_like', 'ones_like', 'empty_like',
          'full_like', 'reshape', 'ravel', 'transpose', 'squeeze', 'shape', 'ndim', 'size', 'expand_dims', 'swapaxes', 'moveaxis', 'rollaxis',
          'flip', 'fliplr', 'flipud', 'rot90', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'split', 'array_split', 'broadcast_to', 'diagonal',
          'shares_memory', 'may_share_memory', 'result_type', 'ascontiguousarray'}


def np_call(name, args, kwargs):
    f = FUNCS.get(name)
    if name in ALWAYS and f is not None and args and (isinstance(args[0], (SymArray, SymMasked)) or _deep_sym(args) or name in (
            'array', 'asarray', 'asanyarray')):
        return f(*args, **kwargs)
    if not _deep_sym(args) and not _deep_sym(kwargs):
        g = np
        for part in name.split('.'):
            g = getattr(g, part)
        return _deep_wrap(g(*_deep_real(tuple(args)), **_deep_real(dict(kwargs))))
    if any(T.is_quantity(a) for a in args):
        return quantity_call(name, args, kwargs)
    if f is None:
        u = getattr(np, name, None)
        if isinstance(u, np.ufunc):
            return ufunc_dispatch(u, '__call__', args, kwargs)
        g = np
        for part in name.split('.'):
            g = getattr(g, part, None)
        impl = getattr(g, '_implementation', None)
        if impl is not None:
            try:
                return impl(*args, **kwargs)
            except T.EngineSignal:
                raise
            except Exception as ex:
                raise Unsupported('numpy.%s on symbolic values (%s: %s)' % (name, type(ex).__name__, ex))
        raise Unsupported('numpy.%s on symbolic values' % name)
    if name != 'where' and any(isinstance(a, WhereTuple) for a in args):
        args = tuple(a.mat() if isinstance(a, WhereTuple) else a for a in args)
    return f(*args, **kwargs)


def quantity_call(name, args, kwargs):
    """ufuncs on pint quantities that hold symbolic magnitudes"""
    if name in ('cos', 'sin', 'tan'):
        m = args[0].to('radians').magnitude
        r = np_call(name, (m,), kwargs)
        return type(args[0])(r, 'dimensionless')
    if name in ('array', 'asarray'):
        return FUNCS[name](*args, **kwargs)
    raise Unsupported('numpy.%s on a quantity' % name)


def function_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', 'numpy') or 'numpy'
    if mod.startswith('numpy.'):
        sub = mod.split('.', 1)[1]
        if sub.startswith('linalg'):
            name = 'linalg.' + name
        elif sub.startswith('fft'):
            name = 'fft.' + name
    return np_call(name, args, kwargs)


# ------------------------------------------------------------ masked arrays

class SymMasked:
    """model of np.ma.MaskedArray with (possibly symbolic) data and a concrete or symbolic mask"""
    __array_priority__ = 200

    def __init__(self, data, mask):
        self.data = asarray(data)
        m = asarray(mask)
        if m._ld != BOOL:
            m = mapcells(_tb, m, BOOL)
        if m.shape != self.data.shape:
            if m.size == 1:
                m = full(self.data.shape, cells(m)[0], bool)
            elif m.size == self.data.size:
                m = m.reshape(self.data.shape)
            else:
                raise np.ma.MaskError('Mask and data not compatible: data size is %i, mask size is %i.' % (self.data.size, m.size))
        self._mask = m

    @staticmethod
    def coerce(x):
        return SymMasked(wrap(np.asarray(x.data)), wrap(np.ma.getmaskarray(x)))

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        m = asarray(m)
        if m.size == 1:
            m = full(self.data.shape, cells(m)[0], bool)
        self._mask = m

    @property
    def shape(self): return self.data.shape
    @property
    def ndim(self): return self.data.ndim
    @property
    def size(self): return self.data.size
    @property
    def dtype(self): return self.data.dtype
    @property
    def T(self): return SymMasked(self.data.T, self._mask.T)

    def __len__(self): return len(self.data)
    def __getitem__(self, k):
        d = self.data[k]
        m = self._mask[k]
        if isinstance(d, np.ndarray):
            return SymMasked(d, m)
        if bool(m):
            return np.ma.masked
        return d

    def __setitem__(self, k, v):
        if v is np.ma.masked:
            self._mask[k] = True
            return
        self.data[k] = v.data if isinstance(v, SymMasked) else v
        self._mask[k] = v._mask if isinstance(v, SymMasked) else False

    def transpose(self, *a): return SymMasked(self.data.transpose(*a), self._mask.transpose(*a))
    def reshape(self, *a): return SymMasked(self.data.reshape(*a), self._mask.reshape(*a))
    def ravel(self): return SymMasked(self.data.ravel(), self._mask.ravel())
    flatten = ravel
    def copy(self): return SymMasked(self.data.copy(), self._mask.copy())
    def astype(self, d): return SymMasked(self.data.astype(d), self._mask)
    def filled(self, fill_value=None):
        fv = 1e20 if fill_value is None else fill_value
        return np_where3(self._mask, fv, self.data).astype(self.data.dtype)
    def sum(self, axis=None, **k): return masked_reduce('add', self, axis)
    def mean(self, axis=None, **k): return masked_mean(self, axis)
    def min(self, axis=None, **k): return masked_reduce('minimum', self, axis)
    def max(self, axis=None, **k): return masked_reduce('maximum', self, axis)
    def count(self, axis=None, **k): return masked_count(self, axis)
    def compressed(self): return self.data.ravel()[np_call('logical_not', (self._mask.ravel(),), {})]
    def __array__(self, dtype=None): return plain(self.data)
    def __array_function__(self, func, types, args, kwargs): return function_dispatch(func, args, kwargs)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw): return ufunc_dispatch(ufunc, method, inputs, kw)
    __hash__ = None

    def dot(self, o):
        return ma_dot(self, o)


def _mop(uf, rev=False):
    def f(self, o):
        return masked_ufunc(uf, [o, self] if rev else [self, o])
    return f


for _n, _u in dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.divide, pow=np.power, floordiv=np.floor_divide).items():
    setattr(SymMasked, '__%s__' % _n, _mop(_u))
    setattr(SymMasked, '__r%s__' % _n, _mop(_u, True))
for _n, _u in dict(lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal, eq=np.equal, ne=np.not_equal).items():
    setattr(SymMasked, '__%s__' % _n, _mop(_u))
SymMasked.__neg__ = lambda self: SymMasked(-self.data, self._mask)


def _md(x):
    if isinstance(x, np.ma.MaskedArray):
        x = SymMasked.coerce(x)
    if isinstance(x, SymMasked):
        return x.data, x._mask
    return x, None


def masked_ufunc(uf, inputs):
    ds, m = [], None
    for x in inputs:
        d, mm = _md(x)
        ds.append(d)
        if mm is not None:
            m = mm if m is None else ufunc_dispatch(np.logical_or, '__call__', [m, mm], {})
    r = ufunc_dispatch(uf, '__call__', ds, {})
    m = np_call('broadcast_to', (m, r.shape), {}).copy()
    return SymMasked(r, m)


def masked_count(x, axis=None):
    one = elementwise(lambda c: (lambda z: T.to_symint(z) if isinstance(z, SymBool) else int(z))(lnot(c)), [x._mask], I64)
    return reduce_('add', one, axis)


def masked_reduce(name, x, axis=None):
    ident = {'add': 0, 'multiply': 1}.get(name)
    if ident is None:
        def f(a, b):
            raise Unsupported('masked min/max')
        cs = np_where3(x._mask, np.nan, x.data)
        r = reduce_('fmax' if name == 'maximum' else 'fmin', cs, axis)
        return SymMasked(r, reduce_('logical_and', x._mask, axis)) if isinstance(r, np.ndarray) else r
    z = np_where3(x._mask, ident, x.data).astype(x.data.dtype)
    r = reduce_(name, z, axis)
    if isinstance(r, np.ndarray):
        return SymMasked(r, reduce_('logical_and', x._mask, axis))
    return r


def masked_mean(x, axis=None, **k):
    s = masked_reduce('add', x, axis)
    n = masked_count(x, axis)
    if isinstance(s, SymMasked):
        r = ufunc_dispatch(np.divide, '__call__', [s.data, n], {})
        return SymMasked(r, s._mask)
    return _divide(s, n)


def ma_dot(a, b, strict=False):
    da, ma = _md(a)
    db, mb = _md(b)
    fa = np_where3(ma, 0, da) if ma is not None else asarray(da)
    fb = np_where3(mb, 0, db) if mb is not None else asarray(db)
    d = dot(fa, fb)
    na = np_call('logical_not', (ma,), {}).astype(int) if ma is not None else ones(asarray(da).shape, int)
    nb = np_call('logical_not', (mb,), {}).astype(int) if mb is not None else ones(asarray(db).shape, int)
    m = dot(na, nb) == 0
    return SymMasked(d, m)


def ma_cov(x, y=None, rowvar=True, bias=False, allow_masked=True, ddof=None):
    """np.ma.cov: pairwise-complete normalisation, as numpy 1.26 does it"""
    if y is not None:
        raise Unsupported('ma.cov y')
    if isinstance(x, np.ma.MaskedArray):
        x = SymMasked.coerce(x)
    if not isinstance(x, SymMasked):
        a = asarray(x)
        x = SymMasked(a, zeros(a.shape, bool))
    if x.ndim < 2:
        x = x.reshape((1, -1))
    if x.shape[0] == 1:
        rowvar = True
    rowvar = int(bool(rowvar))
    axis = 1 - rowvar
    if ddof is None:
        ddof = 0 if bias else 1
    mean = masked_mean(x, axis=rowvar)
    md = mean.data if isinstance(mean, SymMasked) else asarray(mean)
    tup = (slice(None), None) if rowvar else (None, slice(None))
    d = x.data - md[tup]
    z = SymMasked(np_where3(x._mask, 0.0, d), x._mask)
    nn = np_call('logical_not', (x._mask,), {}).astype(float)
    if not rowvar:
        fact = dot(nn.T, nn) - ddof
        r = dot(z.data.T, z.data)
    else:
        fact = dot(nn, nn.T) - ddof
        r = dot(z.data, z.data.T)
    q = ufunc_dispatch(np.divide, '__call__', [r, fact], {})
    m = fact <= 0 if isinstance(fact, np.ndarray) else None
    sq = _squeeze(q)
    res = SymMasked(sq, (ufunc_dispatch(np.less_equal, '__call__', [fact, -ddof], {}) if False else (fact + ddof == 0)).reshape(sq.shape))
    return res
