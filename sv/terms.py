"""Symbolic scalars over z3 terms: SymReal, SymInt, SymBool.

Everything the code under check computes on symbolic inputs becomes one of
these.  float64 values are modelled as exact reals with a `nan` flag (set where
a division by zero or an out-of-domain sqrt/arccos could produce a non-finite
value); integers as mathematical integers which are wrapped explicitly where a
numpy dtype narrower than 64 bits would wrap.
"""
import math
import numbers
import functools
from fractions import Fraction

import numpy as np
import z3


class EngineSignal(BaseException):
    """Base class of everything the engine raises through the code under check
    (BaseException, so that `except Exception` in that code cannot catch it)."""


class Unsupported(EngineSignal):
    pass


class PathAbort(EngineSignal):
    """The current path is infeasible (an assumption is false)."""


class BudgetExceeded(EngineSignal):
    pass


class _State:
    engine = None


def engine():
    e = _State.engine
    if e is None:
        raise RuntimeError("no symbolic engine is active")
    return e


F64 = np.dtype('float64')
I64 = np.dtype('int64')
BOOL = np.dtype('bool')
OBJ = np.dtype(object)


@functools.lru_cache(maxsize=200000)
def snap(f):
    """simplest rational within a few ulp of this float (0.3048, not 0.30479999999999996)"""
    if f == int(f) and abs(f) < 1e18:
        return Fraction(int(f))
    ex = Fraction(f)
    d = 10
    while d < 10 ** 17:
        c = ex.limit_denominator(d)
        if abs(c - ex) <= abs(ex) * Fraction(1, 10 ** 15):
            return c
        d *= 10
    return ex


def q(fr):
    return z3.RatVal(fr.numerator, fr.denominator)


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def is_nanval(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (float('inf'), float('-inf')))


def is_quantity(x):
    return hasattr(x, 'magnitude') and hasattr(x, 'dimensionality')


def _b(x):
    """python/np/z3/SymBool -> z3 BoolRef"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def zor(*xs):
    ys = []
    for x in xs:
        if x is None or x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def znot(x):
    if x is False or x is None:
        return True
    if x is True:
        return False
    return z3.Not(x)


def zand(*xs):
    ys = []
    for x in xs:
        if x is None or x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def mkbool(t, ld=None):
    """z3 Bool / python bool -> python bool when constant, else SymBool"""
    if t is True or t is False:
        return np.bool_(t) if ld is not None else t
    if isinstance(t, (bool, np.bool_)):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    __slots__ = ('t',)
    ld = BOOL
    dtype = BOOL
    shape = ()
    ndim = 0
    size = 1
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().fork(self.t)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(z3.simplify(z3.And(self.t, _b(o))))
        return to_symint(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.simplify(z3.Or(self.t, _b(o))))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.simplify(z3.Xor(self.t, _b(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.simplify(z3.Not(self.t)))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(z3.simplify(self.t == _b(o)))
        return to_symint(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def _num(self):
        return to_symint(self)

    def astype(self, dt, copy=True):
        return cast_cell(self, np.dtype(dt))

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, args, kwargs)

    def __repr__(self):
        return 'SymBool(%s)' % self.t

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic bool')


def _via_int(name):
    def f(self, *a):
        return getattr(to_symint(self), name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ '
           '__rfloordiv__ __mod__ __rmod__ __pow__ __neg__ __lt__ __le__ __gt__ __ge__').split():
    setattr(SymBool, _n, _via_int(_n))


def lnot(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def land(*xs):
    """non-forking conjunction"""
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def lor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def to_symint(b):
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
    return b


# ---------------------------------------------------------------- numbers

class SymNum(numbers.Number):
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, args, kwargs)

    @property
    def dtype(self):
        return self.ld if self.ld is not None else self._default_ld

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    def item(self):
        return type(self)._strip(self)

    def copy(self):
        return self

    def flatten(self):
        from . import arr
        return arr.wrap([self], self.dtype)
    ravel = flatten

    def reshape(self, *shape):
        from . import arr
        a = arr.wrap([self], self.dtype)
        return a.reshape(*shape)

    def squeeze(self, axis=None):
        return self

    def astype(self, dt, copy=True):
        return cast_cell(self, np.dtype(dt))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sum(self, *a, **k):
        return self
    mean = max = min = prod = sum

    def any(self, *a, **k):
        return self != 0
    all = any

    def tolist(self):
        return self.item()

    def clip(self, lo=None, hi=None):
        x = self
        if lo is not None:
            x = smax(x, lo)
        if hi is not None:
            x = smin(x, hi)
        return x

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        raise Unsupported('float() of a symbolic value in native code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __format__(self, spec):
        return engine().placeholder(self, spec)

    def __str__(self):
        return engine().placeholder(self, '')

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    # unary maths, also used by numpy's object loops
    def sqrt(self): return s_sqrt(self)
    def cos(self): return s_cos(self)
    def sin(self): return s_sin(self)
    def tan(self): return s_sin(self) / s_cos(self)
    def arccos(self): return s_arccos(self)
    def arcsin(self): return s_arcsin(self)
    def arctan(self): return s_arctan(self)
    def arctan2(self, o): return s_arctan2(self, o)
    def rint(self): return s_rint(self)
    def floor(self): return s_floor(self)
    def ceil(self): return s_ceil(self)
    def trunc(self): return s_trunc(self)
    def square(self): return self * self
    def log(self): return s_uf('log', self)
    def exp(self): return s_uf('exp', self)
    def deg2rad(self): return self * (math.pi / 180.0)
    radians = deg2rad
    def rad2deg(self): return self * (180.0 / math.pi)
    degrees = rad2deg
    def log10(self): return s_uf('log10', self)
    def fabs(self): return abs(self)
    def isnan(self): return s_isnan(self)
    def __floor__(self): return s_toint(s_floor(self))
    def __ceil__(self): return s_toint(s_ceil(self))
    def __trunc__(self): return s_toint(self)

    def __round__(self, n=None):
        r = s_round(self, n or 0)
        if n is None:
            return s_toint(r)
        return r
    def round(self, decimals=0): return s_round(self, decimals)

    def is_integer(self):
        return s_floor(self) == self


def _ld_join(a, b, default):
    la = getattr(a, 'ld', None)
    lb = getattr(b, 'ld', None)
    if isinstance(a, np.generic):
        la = a.dtype
    if isinstance(b, np.generic):
        lb = b.dtype
    if la is None:
        return lb
    if lb is None:
        return la
    if la == lb:
        return la
    return np.result_type(la, lb)


def wrap_int(t, ld):
    """wrap a z3 int term as the integer dtype `ld` would (64 bit kinds are left alone)"""
    if ld is None or ld.kind not in 'iu' or ld.itemsize >= 8:
        return t
    w = 1 << (8 * ld.itemsize)
    if ld.kind == 'u':
        return t % w
    h = w >> 1
    return (t + h) % w - h


class SymInt(SymNum):
    __slots__ = ('t', 'ld')
    _default_ld = I64

    def __init__(self, t, ld=None):
        self.t = t
        self.ld = ld

    @staticmethod
    def _strip(x):
        return SymInt(x.t)

    @property
    def nan(self):
        return False

    def __hash__(self):
        return hash(int(self.__index__()))

    def __index__(self):
        return engine().enumerate_int(self.t)

    def __int__(self):
        return engine().enumerate_int(self.t)

    def __repr__(self):
        return 'SymInt(%s)' % self.t

    def _bin(self, o, f, wrapit=True):
        if isinstance(o, SymBool):
            o = to_symint(o)
        if isinstance(o, SymInt):
            ld = _ld_join(self, o, None)
            t = f(self.t, o.t)
        elif isinstance(o, (bool, np.bool_)):
            t = f(self.t, z3.IntVal(int(o)))
            ld = self.ld
        elif isinstance(o, (int, np.integer)):
            t = f(self.t, z3.IntVal(int(o)))
            if isinstance(o, np.integer) and self.ld is not None:
                ld = np.result_type(self.ld, o.dtype)
            elif isinstance(o, np.integer):
                ld = o.dtype
            else:
                ld = self.ld
                if ld is not None and ld.itemsize < 8:
                    ld = np.result_type(ld, o)
        else:
            return None
        return mkint(wrap_int(t, ld) if wrapit else t, ld)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        r = self._bin(o, lambda a, b: a + b)
        return r if r is not None else _real_op(self, o, '__add__')

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        r = self._bin(o, lambda a, b: b + a)
        return r if r is not None else _real_op(self, o, '__radd__')

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return r if r is not None else _real_op(self, o, '__sub__')

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return r if r is not None else _real_op(self, o, '__rsub__')

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        r = self._bin(o, lambda a, b: a * b)
        return r if r is not None else _real_op(self, o, '__mul__')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        r = self._bin(o, lambda a, b: b * a)
        return r if r is not None else _real_op(self, o, '__rmul__')

    def __neg__(self):
        return mkint(wrap_int(-self.t, self.ld), self.ld)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(wrap_int(-self.t - 1, self.ld), self.ld)

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t), self.ld)

    def __truediv__(self, o):
        return _real_op(self, o, '__truediv__')

    def __rtruediv__(self, o):
        return _real_op(self, o, '__rtruediv__')

    def __floordiv__(self, o):
        return int_floordiv(self, o)

    def __rfloordiv__(self, o):
        return int_floordiv(o, self)

    def __mod__(self, o):
        return int_mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (engine().placeholder(self, ''),)
        return int_mod(o, self)

    def __divmod__(self, o):
        return int_floordiv(self, o), int_mod(self, o)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= int(o) <= 16:
            r = SymInt(z3.IntVal(1), self.ld) if o == 0 else self
            for _ in range(int(o) - 1):
                r = r * self
            return r
        return to_real(self) ** o

    def __rpow__(self, o):
        e = self.__index__()
        return o ** e

    def __and__(self, o):
        # x & (2^k - 1)
        if isinstance(o, (int, np.integer)) and o >= 0 and (int(o) + 1) & int(o) == 0:
            return self._bin(int(o) + 1, lambda a, b: a % b, wrapit=False)
        return self.__index__() & (o.__index__() if isinstance(o, SymInt) else o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | (o.__index__() if isinstance(o, SymInt) else o)
    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return int_floordiv(self, 1 << int(o))

    def _cmp(self, o, f, fr):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            o = to_symint(o)
        if isinstance(o, SymInt):
            return mkbool(z3.simplify(f(self.t, o.t)))
        if isinstance(o, (int, np.integer, np.bool_)):
            return mkbool(z3.simplify(f(self.t, z3.IntVal(int(o)))))
        if isinstance(o, (float, np.floating)):
            if is_nanval(o):
                return _cmp_inf(fr, o)
            if o == int(o):
                return mkbool(z3.simplify(f(self.t, z3.IntVal(int(o)))))
            return getattr(to_real(self), fr)(o)
        if isinstance(o, SymReal):
            return getattr(to_real(self), fr)(o)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, '__ne__')
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


def mkint(t, ld=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return ld.type(v) if ld is not None and ld.kind in 'iu' else v
    return SymInt(t, ld)


def int_floordiv(a, b):
    if isinstance(a, (SymReal, float, np.floating)) or isinstance(b, (SymReal, float, np.floating)):
        return s_floor(to_real(a) / b)
    if is_quantity(a) or is_quantity(b) or isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    return _int_divlike(a, b, 'div')


def int_mod(a, b):
    if isinstance(a, (SymReal, float, np.floating)) or isinstance(b, (SymReal, float, np.floating)):
        return real_mod(a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    return _int_divlike(a, b, 'mod')


def _int_divlike(a, b, which):
    ld = _ld_join(a, b, None)
    at = a.t if isinstance(a, SymInt) else z3.IntVal(int(a))
    if isinstance(b, SymInt):
        bt = b.t
        if bool(mkbool(z3.simplify(bt == 0))):
            if ld is None:
                raise ZeroDivisionError('integer division or modulo by zero')
            return ld.type(0)
        pos = z3.If(bt > 0, at / bt, (-at) / (-bt))
        t = pos if which == 'div' else at - bt * pos
    else:
        bi = int(b)
        if bi == 0:
            if ld is None:
                raise ZeroDivisionError('integer division or modulo by zero')
            return ld.type(0)
        if bi > 0:
            t = at / z3.IntVal(bi) if which == 'div' else at % z3.IntVal(bi)
        else:
            d = (-at) / z3.IntVal(-bi)
            t = d if which == 'div' else at - bi * d
    return mkint(t, ld)


def real_mod(a, b):
    a = to_real(a)
    qd = s_floor(a / b)
    return a - qd * b


def _cmp_inf(op, o):
    """comparison of a finite symbolic value with nan/inf"""
    if o != o:
        return op == '__ne__'
    pos = o > 0
    return {'__lt__': pos, '__le__': pos, '__gt__': not pos, '__ge__': not pos,
            '__eq__': False, '__ne__': True}[op]


def to_real(x):
    """SymInt / SymBool -> SymReal, others unchanged"""
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t), ld=None if x.ld is None else F64)
    return x


def _real_op(a, b, name):
    if isinstance(b, (SymReal, SymInt, SymBool, int, float, np.number, Fraction)):
        return getattr(to_real(a), name)(to_real(b) if isinstance(b, (SymInt, SymBool)) else b)
    return NotImplemented


def _const(o):
    """concrete number -> Fraction, or None"""
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return Fraction(int(o))
    if isinstance(o, (float, np.floating)):
        if is_nanval(o):
            return None
        return snap(float(o))
    if isinstance(o, Fraction):
        return o
    return None


class Lin:
    """linear combination of angle atoms: sum coef*atom + const"""
    __slots__ = ('d', 'c')

    def __init__(self, d, c):
        self.d = d
        self.c = c

    def scale(self, f):
        return Lin({k: v * f for k, v in self.d.items()}, self.c * f)

    def add(self, o, sgn=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + sgn * v
            if abs(d[k]) < Fraction(1, 10 ** 12):
                del d[k]
        return Lin(d, self.c + sgn * o.c)


class Atom:
    __slots__ = ('c', 's', 'val', 'name')

    def __init__(self, c, s, val, name):
        self.c, self.s, self.val, self.name = c, s, val, name


class SymReal(SymNum):
    __slots__ = ('t', 'nan', 'ld', 'lin')
    _default_ld = F64

    def __init__(self, t, nan=False, ld=None, lin=None):
        self.t = t
        self.nan = nan
        self.ld = ld
        self.lin = lin

    @staticmethod
    def _strip(x):
        return SymReal(x.t, x.nan, None, x.lin)

    def __hash__(self):
        return self.t.hash()

    def __repr__(self):
        return 'SymReal(%s)' % (self.t,)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return engine().enumerate_int(s_toint(self).t)

    def _other(self, o):
        """-> (z3 term, nan flag, ld, lin, Fraction or None) or None"""
        if isinstance(o, SymReal):
            return o.t, o.nan, o.ld, o.lin, None
        if isinstance(o, (SymInt, SymBool)):
            o = to_real(o)
            return o.t, o.nan, o.ld, o.lin, None
        c = _const(o)
        if c is not None:
            ld = o.dtype if isinstance(o, np.generic) else None
            return q(c), False, ld, None, c
        if is_nanval(o):
            return z3.RealVal(0), True, None, None, None
        return None

    def _ldj(self, ld):
        if self.ld is None or self.ld.kind in 'iub':
            return ld if (ld is not None and ld.kind == 'f') else (F64 if self.ld is not None or ld is not None else None)
        if ld is None or ld.kind in 'iub':
            return self.ld
        return self.ld if ld == self.ld else np.result_type(ld, self.ld)

    def _addsub(self, o, sgn, rev):
        r = self._other(o)
        if r is None:
            return NotImplemented
        ot, onan, old, olin, c = r
        ld = self._ldj(old)
        lin = None
        if self.lin is not None or olin is not None:
            la = self.lin or self._aslin()
            lb = olin if olin is not None else (Lin({}, c) if c is not None else None)
            if la is not None and lb is not None:
                lin = (la.add(lb, sgn) if not rev else lb.add(la, sgn))
        if c is not None and c == 0:
            if not rev or sgn == 1:
                return SymReal(self.t, self.nan, ld, self.lin)
            return SymReal(-self.t, self.nan, ld, lin)
        if sgn == 1:
            t = self.t + ot
        else:
            t = (ot - self.t) if rev else (self.t - ot)
        return SymReal(t, zor(self.nan, onan), ld, lin)

    def _aslin(self):
        return None

    def __add__(self, o): return self._addsub(o, 1, False)
    def __radd__(self, o): return self._addsub(o, 1, True)
    def __sub__(self, o): return self._addsub(o, -1, False)
    def __rsub__(self, o): return self._addsub(o, -1, True)

    def __mul__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        ot, onan, old, olin, c = r
        ld = self._ldj(old)
        if c is not None:
            if c == 1:
                return SymReal(self.t, self.nan, ld, self.lin)
            if c == 0 and self.nan is False:
                return ld.type(0) if ld is not None else 0.0
            return SymReal(self.t * ot if c != -1 else -self.t, self.nan, ld, self.lin.scale(c) if self.lin else None)
        return SymReal(self.t * ot, zor(self.nan, onan), ld)
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.t, self.nan, self.ld, self.lin.scale(-1) if self.lin else None)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        ot, onan, old, olin, c = r
        ld = self._ldj(old)
        if c is not None:
            if c == 0:
                if self.ld is None and not isinstance(o, np.generic):
                    raise ZeroDivisionError('float division by zero')
                return SymReal(z3.RealVal(0), True, ld)
            return SymReal(self.t * q(1 / c), self.nan, ld, self.lin.scale(1 / c) if self.lin else None)
        return _div(self.t, self.nan, ot, onan, ld)

    def __rtruediv__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        ot, onan, old, olin, c = r
        ld = self._ldj(old)
        if c is not None and c == 0 and False:
            return 0.0
        return _div(ot, onan, self.t, self.nan, ld)

    def __floordiv__(self, o):
        r = self / o
        return r if r is NotImplemented else s_floor(r)

    def __rfloordiv__(self, o):
        return s_floor(o / self)

    def __mod__(self, o):
        return real_mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (engine().placeholder(self, ''),)
        return real_mod(o, self)

    def __divmod__(self, o):
        qd = s_floor(self / o)
        return qd, self - qd * o

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t), self.nan, self.ld)

    def __pow__(self, o):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_uf2('pow', o, self)

    def _cmp(self, o, f, name):
        if isinstance(o, np.ndarray) or is_quantity(o):
            return NotImplemented
        r = self._other(o)
        if r is None:
            return NotImplemented
        if is_nanval(o):
            if self.nan is False:
                return _cmp_inf(name, o)
            if o != o:
                return name == '__ne__'
            return mkbool(z3.simplify(_b(zand(znot(self.nan), _cmp_inf(name, o)))))
        ot, onan = r[0], r[1]
        t = f(self.t, ot)
        if self.nan is not False or onan is not False:
            bad = zor(self.nan, onan)
            if name == '__ne__':
                t = zor(bad, t)
            else:
                t = zand(znot(bad), t)
            t = _b(t)
        return mkbool(z3.simplify(t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return False if r is NotImplemented and not isinstance(o, np.ndarray) and not is_quantity(o) else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, '__ne__')
        return True if r is NotImplemented and not isinstance(o, np.ndarray) and not is_quantity(o) else r


def _div(nt, nnan, dt, dnan, ld):
    ds = z3.simplify(dt)
    if z3.is_rational_value(ds):
        fr = Fraction(ds.numerator_as_long(), ds.denominator_as_long())
        if fr == 0:
            if ld is None:
                raise ZeroDivisionError('float division by zero')
            return SymReal(z3.RealVal(0), True, ld)
        return SymReal(nt * q(1 / fr), zor(nnan, dnan), ld)
    e = engine()
    if ld is None:
        # python scalars raise instead of producing inf/nan
        if e.fork(ds == 0):
            raise ZeroDivisionError('float division by zero')
        return SymReal(nt / dt, zor(nnan, dnan), ld)
    zero = e.den_zero(ds)
    return SymReal(nt / dt, zor(nnan, dnan, zero), ld)


# ---------------------------------------------------------------- functions

def lift(x):
    """any real scalar -> SymReal"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x)
    c = _const(x)
    if c is not None:
        return SymReal(q(c), ld=x.dtype if isinstance(x, np.generic) else None)
    if is_nanval(x):
        return SymReal(z3.RealVal(0), True)
    raise Unsupported('lift %r' % (x,))


def conc(x):
    """constant-fold a SymReal whose term is a plain rational"""
    if isinstance(x, SymReal) and x.nan is False:
        t = z3.simplify(x.t)
        if z3.is_rational_value(t):
            v = float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
            return x.ld.type(v) if x.ld is not None and x.ld.kind == 'f' else v
    return x


def s_isnan(x):
    if isinstance(x, SymReal):
        if x.nan is False:
            return False
        return mkbool(z3.simplify(_b(x.nan)))
    if isinstance(x, (SymInt, SymBool)):
        return False
    return np.isnan(x)


def s_isfinite(x):
    if is_sym(x):
        return lnot(s_isnan(x))
    return np.isfinite(x)


def ite(c, a, b):
    """non-forking if-then-else on scalars"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return mkbool(z3.simplify(z3.If(c.t, _b(a), _b(b))))
        try:
            same = type(a) is type(b) and a == b
        except Exception:
            same = False
        if same:
            return a
    bools = (SymBool, bool, np.bool_)
    if isinstance(a, bools) and isinstance(b, bools):
        return mkbool(z3.simplify(z3.If(c.t, _b(a), _b(b))))
    ints = (SymInt, SymBool, int, np.integer, np.bool_)
    if isinstance(a, ints) and isinstance(b, ints):
        at = to_symint(a).t if is_sym(a) else z3.IntVal(int(a))
        bt = to_symint(b).t if is_sym(b) else z3.IntVal(int(b))
        return SymInt(z3.If(c.t, at, bt), _ld_join(a, b, None))
    nums = (SymReal, SymInt, SymBool, int, float, np.number, np.bool_)
    if isinstance(a, nums) and isinstance(b, nums):
        A, B = lift(a), lift(b)
        nan = False
        if A.nan is not False or B.nan is not False:
            nan = z3.simplify(z3.If(c.t, _b(A.nan), _b(B.nan)))
            if z3.is_false(nan):
                nan = False
            elif z3.is_true(nan):
                nan = True
        if A.t.eq(B.t):
            t = A.t
        else:
            t = z3.If(c.t, A.t, B.t)
        lin = A.lin if (A.lin is not None and A.t.eq(B.t)) else None
        if lin is None and (A.lin is not None or B.lin is not None):
            lin = engine().ite_angle(c, A, B, t)
        return SymReal(t, nan, _ld_join(a, b, None), lin)
    return a if bool(c) else b


def smax(a, b):
    r = np_nanprop(a, b)
    if r is not None:
        return r
    return ite(a >= b, a, b)


def smin(a, b):
    r = np_nanprop(a, b)
    if r is not None:
        return r
    return ite(a <= b, a, b)


def np_nanprop(a, b):
    """np.maximum/minimum propagate nan"""
    if is_nanval(a) and a != a:
        return a
    if is_nanval(b) and b != b:
        return b
    an = getattr(a, 'nan', False)
    bn = getattr(b, 'nan', False)
    if an is not False or bn is not False:
        return None
    return None


def s_sqrt(x):
    if not is_sym(x):
        return np.sqrt(x)
    x = lift(x)
    x = conc(x)
    if not is_sym(x):
        return np.sqrt(x)
    return engine().sqrt(x)


def s_pow(x, o):
    if is_sym(o):
        o2 = conc(o) if isinstance(o, SymReal) else o
        if is_sym(o2):
            return s_uf2('pow', x, o)
        o = o2
    if not is_sym(x):
        return x ** o
    if isinstance(o, np.ndarray) or is_quantity(o):
        return NotImplemented
    x = lift(x)
    fo = float(o)
    if fo == int(fo):
        n = int(fo)
        if n == 0:
            return x.ld.type(1) if x.ld is not None else 1.0
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        return r if n > 0 else 1.0 / r
    if (2 * fo) == int(2 * fo):
        n = int(math.floor(fo))
        s = s_sqrt(x)
        if n == 0:
            return s
        return s * s_pow(x, n)
    return s_uf2('pow', x, o)


def s_floor(x):
    if not is_sym(x):
        return np.floor(x)
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x)
    return SymReal(z3.ToReal(z3.ToInt(x.t)), x.nan, x.ld)


def s_ceil(x):
    if not is_sym(x):
        return np.ceil(x)
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x)
    return SymReal(-z3.ToReal(z3.ToInt(-x.t)), x.nan, x.ld)


def _trunc_t(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def s_trunc(x):
    if not is_sym(x):
        return np.trunc(x)
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x)
    return SymReal(z3.ToReal(_trunc_t(x.t)), x.nan, x.ld)


def _rint_t(t):
    f = z3.ToInt(t)
    fr = t - z3.ToReal(f)
    half = z3.Q(1, 2)
    return z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def s_rint(x):
    if not is_sym(x):
        return np.rint(x)
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x)
    return SymReal(z3.ToReal(_rint_t(x.t)), x.nan, x.ld)


def s_round(x, decimals=0):
    if not is_sym(x):
        return np.round(x, decimals)
    if isinstance(x, (SymInt, SymBool)):
        return x
    if decimals == 0:
        return s_rint(x)
    k = 10 ** int(decimals)
    return s_rint(x * k) / k


def s_toint(x):
    """python int(): truncation"""
    if isinstance(x, (SymInt,)):
        return SymInt(x.t)
    if isinstance(x, SymBool):
        return to_symint(x)
    if isinstance(x, SymReal):
        if x.nan is not False:
            if bool(mkbool(z3.simplify(_b(x.nan)))):
                raise ValueError('cannot convert float NaN to integer')
        r = mkint(_trunc_t(x.t))
        return r
    return int(x)


def s_uf(name, x):
    if not is_sym(x):
        return getattr(np, name)(x)
    x = lift(x)
    return engine().uninterpreted(name, x)


def s_uf2(name, a, b):
    return engine().uninterpreted2(name, lift(a), lift(b))


def s_sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0)) if isinstance(x, SymInt) else ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def s_cos(x):
    if not is_sym(x):
        return np.cos(x)
    return engine().cossin(lift(x))[0]


def s_sin(x):
    if not is_sym(x):
        return np.sin(x)
    return engine().cossin(lift(x))[1]


def s_arcsin(x):
    if not is_sym(x):
        return np.arcsin(x)
    x = lift(x)
    e = engine()
    ok = SymReal(x.t)
    c = e.sqrt(1 - ok * ok)
    v = e.angle_from(SymReal(c.t), ok, 'arcsin', half='s')
    return SymReal(v.t, zor(x.nan, _nf(z3.Or(x.t > 1, x.t < -1))), x.ld, v.lin)


def s_arccos(x):
    if not is_sym(x):
        return np.arccos(x)
    x = lift(x)
    e = engine()
    ok = SymReal(x.t)
    s = e.sqrt(1 - ok * ok)
    v = e.angle_from(ok, SymReal(s.t), 'arccos', half='c')
    return SymReal(v.t, zor(x.nan, _nf(z3.Or(x.t > 1, x.t < -1))), x.ld, v.lin)


def _nf(t):
    t = z3.simplify(t)
    if z3.is_false(t):
        return False
    if z3.is_true(t):
        return True
    return t


def s_arctan(x):
    if not is_sym(x):
        return np.arctan(x)
    return s_arctan2(x, lift(1.0))


def s_arctan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return np.arctan2(y, x)
    x, y = lift(x), lift(y)
    e = engine()
    xx, yy = SymReal(x.t), SymReal(y.t)
    h = e.sqrt(xx * xx + yy * yy)
    z = z3.simplify(z3.And(x.t == 0, y.t == 0))
    if z3.is_false(z):
        c, s = SymReal(x.t / h.t), SymReal(y.t / h.t)
    else:
        c = SymReal(z3.If(z, z3.RealVal(1), x.t / h.t))
        s = SymReal(z3.If(z, z3.RealVal(0), y.t / h.t))
    v = e.angle_from(c, s, 'arctan2', half=None)
    return SymReal(v.t, zor(x.nan, y.nan), x.ld or y.ld, v.lin)


# ---------------------------------------------------------------- casting

def cast_cell(x, ld):
    """value `x` stored into / converted to numpy dtype `ld`"""
    if is_quantity(x):
        x = x.to('dimensionless').magnitude
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item() if x.dtype != OBJ else np.ndarray.item(x)
    if not is_sym(x):
        if ld == OBJ:
            return x
        if isinstance(x, ld.type):
            return x
        if type(x) is ld.type:
            return x
        a = np.empty((), dtype=ld)
        a[()] = x       # raises exactly as numpy would (nan into int, ...)
        return a[()]
    k = ld.kind
    if k == 'O':
        return x
    if k == 'f':
        if isinstance(x, SymReal):
            if ld.itemsize < 8 and (x.ld is None or x.ld.kind == "f" and x.ld.itemsize > ld.itemsize):
                return engine().narrow(x, ld)
            return SymReal(x.t, x.nan, ld, x.lin)
        r = to_real(x)
        if ld.itemsize < 8 and isinstance(x, SymInt) and (x.ld is None or x.ld.itemsize >= ld.itemsize):
            return engine().narrow(SymReal(r.t, False, ld), ld, exact=True)
        return SymReal(r.t, False, ld)
    if k in 'iu':
        if isinstance(x, SymBool):
            return SymInt(to_symint(x).t, ld)
        if isinstance(x, SymInt):
            src = x.ld
            if src is not None and src.kind in 'iu' and np.can_cast(src, ld, 'safe'):
                return SymInt(x.t, ld)
            return mkint(wrap_int(x.t, ld), ld)
        if x.nan is not False:
            if bool(mkbool(z3.simplify(_b(x.nan)))):
                if x.ld is None:
                    raise ValueError('cannot convert float NaN to integer')
                return ld.type(np.iinfo(ld).min if ld.kind == 'i' and ld.itemsize >= 4 else 0)
        return mkint(wrap_int(_trunc_t(x.t), ld), ld)
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        return x != 0
    if k == 'c':
        if isinstance(x, SymReal):
            return SymReal(x.t, x.nan, F64, x.lin)
        return to_real(x)
    if k in 'US':
        return engine().placeholder(x, '')
    raise Unsupported('cast of symbolic value to %s' % ld)
