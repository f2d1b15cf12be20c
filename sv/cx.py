"""Harness context: the same harness function is executed symbolically and on the real code."""
import json
import math
import zlib
import os
import sys
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from . import arr as A
from . import poly
from . import text as TX
from .engine import Engine, Stats, Input, sat, unsat, unknown
from .loader import ModuleSet, NPShim
from .terms import (SymReal, SymInt, SymBool, is_sym, Unsupported, PathAbort, BudgetExceeded, EngineSignal, lift, snap, q, mkbool)


class Invalid(EngineSignal):
    """replay input does not satisfy the harness assumptions"""


class CheckFailed(EngineSignal):
    pass


def flat(x):
    """nested lists / arrays / scalars -> (shape signature, list of scalars)"""
    if isinstance(x, A.SymMasked):
        x = x.data
    if isinstance(x, np.ndarray):
        return tuple(x.shape), A.cells(x)
    if isinstance(x, (list, tuple)):
        subs = [flat(y) for y in x]
        out = []
        for s, f in subs:
            out += f
        if subs and all(s == subs[0][0] for s, f in subs):
            return (len(x),) + subs[0][0], out
        return (len(x), tuple(s for s, f in subs)), out
    if T.is_quantity(x):
        return (), [x.magnitude]
    return (), [x]


def isnum(x):
    return isinstance(x, (int, float, np.number, np.bool_, SymReal, SymInt, SymBool, Fraction))


def other(v):
    if isinstance(v, np.ndarray) and v.ndim and v.size > 1 and v.dtype != object:
        return v[(slice(None, None, -1),) * v.ndim].copy()
    return v


def nudged(v):
    if isinstance(v, (bool, np.bool_, SymBool)) or T.is_quantity(v):
        return v
    if isinstance(v, (int, np.integer)):
        return v - 1 if v > 0 else v + 1
    if isinstance(v, (float, np.floating, SymReal, SymInt)):
        return v + (1 if isinstance(v, SymInt) else 0.5)
    return v


def close(a, b, rtol, atol):
    if isinstance(a, (str, bytes)) or a is None or isinstance(b, (str, bytes)) or b is None:
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    if isinstance(a, (int, np.integer, bool, np.bool_)) and isinstance(b, (int, np.integer, bool, np.bool_)):
        return int(a) == int(b)
    return abs(fa - fb) <= atol + rtol * max(abs(fa), abs(fb))


class Cx:
    def __init__(self, mode, tier='quick', values=None, engine=None, case=None, param=None, pre=False):
        self.mode = mode
        self.sym = mode == 'sym'
        self.tier = tier
        self.values = values or {}
        self.eng = engine
        self.case = case
        self.p = param
        self.records = []      # (label, a, b)
        self.failures = []     # real mode
        self.goals_seen = 0
        self.fakes = {}
        self._ms = None
        self._open = None
        self.hits = set()
        self.job = None
        self.rtol = 1e-6
        self.atol = 1e-7
        self.guarded = []
        self.pre = pre         # an earlier use of the code, with fixed values and without checks
        self.earlier = None
        self.conc = pre or not self.sym
        self.delivered_before = []
        self.requery = False
        self.delivered = []    # results of an earlier use, and their values then
        self.between = None    # called once, at the first assertion

    # ------------------------------------------------------------ modules
    @property
    def ms(self):
        if self._ms is None and self.earlier is not None:
            self._ms = self.earlier
            self._ms.rebind(self.fakes, self._open)
        if self._ms is None:
            self._ms = ModuleSet(self.mode, self.fakes, self.hits, self._open)
            if self.requery:
                self._ms.twice = self.ask_another
        return self._ms

    @property
    def np(self):
        return self.ms.np

    def mod(self, name):
        return self.ms.load(name)

    def fake(self, name, module):
        self.fakes[name] = module

    def set_open(self, f):
        self._open = f

    # ------------------------------------------------------------ inputs
    def _value(self, name):
        if name not in self.values:
            raise Invalid('no value for input %s' % name)
        return self.values[name]

    def _fill(self, name, kind, lo=None, hi=None, nice=None):
        """an earlier use of another kind takes some value in the range"""
        if not self.pre or name in self.values:
            return
        h = zlib.crc32(('%s %s' % (name, self.p)).encode()) % 997 / 997.0
        if nice is not None:
            lo, hi = nice
        if kind == 'bool':
            v = h < 0.5
        elif kind == 'angle':
            v = 1.4 * (h - 0.5) * lo
        else:
            lo, hi = (hi - 8 if hi is not None else -4) if lo is None else lo, (lo + 8 if lo is not None else 4) if hi is None else hi
            v = lo + (hi - lo) * h
            v = int(v) if kind == 'int' else round(v, 3) if lo <= round(v, 3) <= hi else v
        self.values[name] = v

    def real(self, name, lo=None, hi=None, nice=None, ld=None):
        if self.conc:
            self._fill(name, 'real', lo, hi, nice)
            v = float(self._value(name))
            if (lo is not None and v < lo - 1e-9) or (hi is not None and v > hi + 1e-9):
                raise Invalid(name)
            return v if ld is None or self.sym else np.dtype(ld).type(v)
        v = z3.Real(name)
        if lo is not None:
            self.eng.add_side(v >= q(snap(float(lo))))
        if hi is not None:
            self.eng.add_side(v <= q(snap(float(hi))))
        self.eng.inputs.append(Input(name, 'real', v, lo, hi, nice))
        return SymReal(v, ld=np.dtype(ld) if ld else None)

    def int(self, name, lo=None, hi=None, ld=None, nice=None):
        if self.conc:
            self._fill(name, 'int', lo, hi, nice)
            v = int(self._value(name))
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Invalid(name)
            return v if ld is None or self.sym else np.dtype(ld).type(v)
        v = z3.Int(name)
        if lo is not None:
            self.eng.add_side(v >= int(lo))
        if hi is not None:
            self.eng.add_side(v <= int(hi))
        self.eng.inputs.append(Input(name, 'int', v, lo, hi, nice))
        return SymInt(v, ld=np.dtype(ld) if ld else None)

    def string(self, name, n, exclude='', hi=0x2fff):
        """arbitrary text of n characters, none of which is in exclude"""
        cs = [self.int('%s_%d' % (name, i), 1, hi) for i in range(n)]
        for c in cs:
            for k in exclude:
                self.assume(c != ord(k))
        return TX.make(cs) if not self.conc else ''.join(map(chr, cs))

    def memory_files(self):
        """text files in memory (symbolic mode); the real file system otherwise"""
        if not self.sym:
            return None
        store = {}

        def op(name, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **k):
            return TX.TextFile(store, str(name), mode, newline)
        self.set_open(op)
        return store

    def bool(self, name):
        if self.conc:
            self._fill(name, 'bool')
            return bool(self._value(name))
        v = z3.Bool(name)
        self.eng.inputs.append(Input(name, 'bool', v))
        return SymBool(v)

    def angle(self, name, unit='rad', within=None):
        """an arbitrary angle; within=h restricts to |angle| < h for h in (pi/2, pi)"""
        scale = {'rad': 1.0, 'deg': 180.0 / math.pi}.get(unit, unit)
        if self.conc:
            self._fill(name, 'angle', scale)
            return float(self._value(name))
        a = self.eng.new_atom(name)
        pi = q(snap(math.pi))
        self.eng.add_side(z3.And(a.val >= -pi, a.val <= pi, (a.val > 0) == z3.Or(a.s > 0, z3.And(a.s == 0, a.c < 0)),
                                 (a.val == 0) == z3.And(a.s == 0, a.c > 0),
                                 z3.Implies(z3.And(a.val < pi / 2, a.val > -pi / 2), a.c > 0),
                                 z3.Implies(z3.Or(a.val > pi / 2, a.val < -pi / 2), a.c < 0)))
        if within is not None and within < 2:
            self.eng.add_side(z3.And(a.c > 0))
        f = snap(scale) if scale != 1.0 else Fraction(1)
        self.eng.inputs.append(Input(name, 'angle', a.val, atom=a, scale=scale))
        return SymReal(a.val if f == 1 else a.val * q(f), False, None, self.eng.atom_lin(a, f))

    def array(self, name, shape, dtype='float64', lo=None, hi=None, nice=None):
        dtype = np.dtype(dtype)
        if isinstance(shape, int):
            shape = (shape,)
        cs = []
        for idx in np.ndindex(*shape):
            n = '%s[%s]' % (name, ','.join(map(str, idx)))
            if dtype.kind == 'f':
                cs.append(self.real(n, lo, hi, nice, ld=dtype))
            elif dtype.kind == 'b':
                cs.append(self.bool(n))
            else:
                ii = np.iinfo(dtype)
                l, h = (lo if lo is not None else ii.min if dtype.itemsize < 8 else None), (hi if hi is not None else ii.max if dtype.itemsize < 8 else None)
                cs.append(self.int(n, l, h, ld=dtype, nice=nice))
        a = A.fromcells(cs, shape, dtype) if self.sym else np.array(cs, dtype=dtype).reshape(shape)
        return self.guard(self.layout(a, name), name)

    def layout(self, a, name):
        """the same array in one of the memory orders that callers use (by row, by column, by band), fixed by the case and the name"""
        if a.ndim < 2 or min(a.shape) < 2:
            return a
        k = zlib.crc32(('%s %r %s' % (getattr(self.case, 'name', self.case), self.p, name)).encode()) % 3
        axes = (2, 1, 0) if k == 1 else (2, 0, 1) if k == 2 else (0, 1, 2)
        if a.ndim == 2:
            axes = (1, 0) if k == 1 else (0, 1)
        if a.ndim > 3 or axes == tuple(sorted(axes)):
            return a
        return a.transpose(axes).copy().transpose([axes.index(i) for i in range(len(axes))])

    def guard(self, a, name):
        """an argument that the code has to leave alone (checked at the end of the case)"""
        self.guarded.append((name, a, a.copy()))
        return a

    def own(self, a):
        """an argument that the code, or the harness, may change"""
        self.guarded = [g for g in self.guarded if g[1] is not a]
        return a

    def settle(self):
        for name, a, b in self.guarded:
            self.eq(a, b, 'input %s left alone' % name, nan_ok=True)
        for name, v, was in self.delivered_before:
            self.eq(flat(v)[1], was, 'result of another use left alone: ' + name, nan_ok=True)

    def choice(self, name, options):
        """an arbitrary element of a finite list (every one is explored)"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if not self.conc:
            i = self.eng.enumerate_int(i.t)
        return options[i]

    def arr(self, x, dtype=None):
        """array constructor of the current mode"""
        return A.array(x, dtype=dtype) if self.sym else np.array(x, dtype=dtype)

    def assume(self, cond):
        if self.pre:
            return
        if self.sym:
            if isinstance(cond, np.ndarray):
                for c in A.cells(cond):
                    self.eng.assume(c)
            else:
                self.eng.assume(cond)
        else:
            ok = bool(np.all(cond))
            if not ok:
                raise Invalid('assumption')

    # non-forking connectives usable in both modes
    def And(self, *xs):
        return T.land(*xs) if self.sym else all(bool(x) for x in xs)

    def Or(self, *xs):
        return T.lor(*xs) if self.sym else any(bool(x) for x in xs)

    def Not(self, x):
        return T.lnot(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        return T.ite(c, a, b) if self.sym else (a if c else b)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(r >= x, r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(r <= x, r, x)
        return r

    def sqrt(self, x):
        return T.s_sqrt(x) if self.sym else math.sqrt(x)

    def cos(self, x):
        return T.s_cos(x) if is_sym(x) else math.cos(x)

    def sin(self, x):
        return T.s_sin(x) if is_sym(x) else math.sin(x)

    def write_raw(self, fname, cells, dtype):
        """samples to a binary file"""
        if self.sym:
            self.eng.tofile(A.array(list(cells), dtype=np.dtype(dtype)), fname)
        else:
            np.array(list(cells), dtype=dtype).tofile(fname)

    def read_raw(self, fname, dtype):
        if self.sym and str(fname) in self.eng.files:
            return list(self.eng.fromfile(fname, dtype))
        return list(np.fromfile(fname, dtype))

    def text(self, x):
        """decimal text of a value that parses back to exactly that value"""
        if is_sym(x):
            return self.eng.placeholder(x, '')
        return repr(float(x)) if isinstance(x, (float, np.floating)) else str(x)

    def tan_of(self, x):
        return T.s_sin(lift(x)) / T.s_cos(lift(x)) if is_sym(x) else math.tan(x)

    def floor(self, x):
        """mathematical floor as an integer"""
        return T.s_toint(T.s_floor(lift(x))) if is_sym(x) else math.floor(x)

    def trunc(self, x):
        return T.s_toint(x) if is_sym(x) else int(x)

    def sel(self, seq, i):
        """seq[i] for a possibly symbolic in-range index"""
        if is_sym(i):
            return A._sel(list(seq), i)
        return seq[int(i)]

    def isnan(self, x):
        return T.s_isnan(x)

    def ask_another(self, f, name, obj, a, k):
        """before a question about arrays, the same object is asked about the same places in another order"""
        shifted = False
        b, l = [other(v) for v in a], {n: other(v) for n, v in k.items()}
        if all(x is y for x, y in zip(a, b)) and all(k[n] is l[n] for n in k):
            shifted = True
            b = [nudged(v) for v in a]
            if all(x is y for x, y in zip(a, b)):
                return
        t, self._ms.twice = self._ms.twice, None
        try:
            r = f(obj, *b, **l)
            if shifted:          # what was asked by place or time is a new array (one band of an image may be a view of it)
                r = ()
            for n, v in enumerate(r if isinstance(r, tuple) else (r,)):
                if isinstance(v, np.ndarray) and len(self.delivered_before) < 12:
                    self.delivered_before.append(('%s %d' % (name, n), v, list(flat(v)[1])))
        except Exception as ex:
            if os.environ.get('SVDBG'):
                print('another question:', name, repr(ex), file=sys.stderr)
        finally:
            self._ms.twice = t

    # ------------------------------------------------------------ assertions
    def note(self, v, label):
        """an earlier use remembers its results; the first assertion of a use may be preceded by another use"""
        if self.pre:
            if isinstance(v, (np.ndarray, list)) and len(self.delivered) < 12:
                try:
                    self.delivered.append((label, v, flat(v)[1]))
                except Exception:
                    pass
            return True
        if self.between is not None:
            f, self.between = self.between, None
            f()
        return False

    def observe(self, label, v):
        if self.note(v, label):
            return
        self.records.append((label, v, v))

    def eq(self, a, b, label, rtol=None, atol=None, dtype=False, nan_ok=False):
        if self.note(a, label):
            return True
        rtol = self.rtol if rtol is None else rtol
        atol = self.atol if atol is None else atol
        sa, fa = flat(a)
        sb, fb = flat(b)
        self.records.append((label, fa, fb))
        if sa != sb:
            return self.true(False, label + ': shape %s != %s' % (sa, sb))
        if dtype:
            da, db = getattr(a, 'dtype', None), getattr(b, 'dtype', None)
            if da != db:
                return self.true(False, label + ': dtype %s != %s' % (da, db))
        if not self.sym:
            for i, (x, y) in enumerate(zip(fa, fb)):
                if not close(x, y, rtol, atol):
                    self.failures.append((label, '[%d] %r != %r' % (i, x, y)))
                    return False
                if not nan_ok and isinstance(x, (float, np.floating)) and x != x and not (y != y):
                    self.failures.append((label, '[%d] nan' % i))
                    return False
            return True
        pairs = []
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not is_sym(x) and not is_sym(y):
                if not close(x, y, rtol, atol):
                    return self.true(False, label)
                continue
            if not isnum(x) or not isnum(y):
                return self.true(False, label)
            if T.is_nanval(x) or T.is_nanval(y):
                if nan_ok and T.is_nanval(x):
                    self.job.prove(self, [('flag', T.s_isnan(y))], label)
                elif nan_ok:
                    self.job.prove(self, [('flag', T.s_isnan(x))], label)
                else:
                    self.true(False, label)
                continue
            pairs.append((x, y))
        if pairs:
            self.job.prove(self, [('eq', x, y, nan_ok) for x, y in pairs], label)
        else:
            self.job.trivial(self, label)
        return True

    def same(self, a, b):
        """whether two numbers are recognised as the same expression (symbolic mode; used to pair up values before comparing them)"""
        if not self.sym:
            return close(a, b, 1e-9, 1e-9)
        X, Y = lift(a), lift(b)
        if X.t.eq(Y.t):
            return True
        try:
            return not poly.Norm(self.eng.trig, self.eng.sqrts).diff(X.t, Y.t)
        except (poly.TooBig, z3.Z3Exception):
            return False

    def eq_if(self, cond, a, b, label, rtol=None, atol=None):
        """where cond holds, a equals b"""
        if self.note(a, label):
            return True
        if not self.sym:
            ok = not bool(cond) or close(a, b, self.rtol if rtol is None else rtol, self.atol if atol is None else atol)
            return self.true(ok, label)
        nn = self.Not(self.isnan(a)) if isinstance(a, SymReal) and a.nan is not False else True
        return self.true(self.Implies(cond, self.And(nn, a == b)), label)

    def angle_eq(self, a, b, label):
        """equal modulo full turns"""
        if self.note(a, label):
            return True
        if self.sym:
            self.eq([T.s_cos(lift(a)), T.s_sin(lift(a))], [T.s_cos(lift(b)), T.s_sin(lift(b))], label)
        else:
            self.eq([math.cos(a), math.sin(a)], [math.cos(b), math.sin(b)], label)

    def true(self, cond, label):
        if self.note(None, label):
            return True
        if isinstance(cond, np.ndarray):
            cs = A.cells(cond)
            cond = T.land(*cs) if self.sym else bool(np.all(cond))
        self.records.append((label, [True], [True]))
        if not self.sym:
            if not bool(cond):
                self.failures.append((label, 'false'))
                return False
            return True
        if isinstance(cond, SymBool):
            self.job.prove(self, [('bool', cond)], label)
        elif not cond:
            self.job.refuted(self, label)
        else:
            self.job.trivial(self, label)
        return True

    def raises(self, f, exc, label):
        """f() must raise one of exc"""
        try:
            f()
        except EngineSignal:
            raise
        except exc as ex:
            self.true(True, label)
            return ex
        self.true(False, label)
        return None

    def attempt(self, f):
        """-> (value, None) or (None, exception) for ordinary exceptions of the code"""
        try:
            return f(), None
        except EngineSignal:
            raise
        except Exception as ex:
            return None, ex


class Violation(Exception):
    pass


class Job:
    """one (case, parameter) obligation: explore every path, discharge every check"""

    def __init__(self, prop, case, fn, param, tier, budget, seed=1, cfg=None):
        self.prop, self.case, self.fn, self.param, self.tier = prop, case, fn, param, tier
        self.stats = Stats()
        self.t0 = time.time()
        self.cfg = dict(cfg or {})
        self.cfg['deadline'] = self.t0 + budget
        self.obligations = 0
        self.discharged = 0
        self.trivially = 0
        self.normalised = 0
        self.margin = 0
        self.confirmed = 0
        self.inconclusive = []
        self.violations = []
        self.validated = 0
        self.mismatch = []
        self.samples = []
        self.hits = set()
        self.done_goals = set()
        self.rng = random.Random(seed)
        self.cur_cx = None
        self.notes = set()
        self.paths_checked = 0
        self.exports = []
        self.max_validate = self.cfg.get('validate', 24)
        self.warm = None            # an earlier use of the same modules
        self.others = [(fn, case, param)]      # possible earlier uses
        self.first_values = None
        self.warm_paths = self.warm_open = 0

    # ------------------------------------------------------------ exploration
    def run(self, progress=None):
        self.explore(self.cfg.get('max_paths', 3000))
        if not self.violations and not self.inconclusive and self.validated == 0:
            self.inconclusive.append('vacuous: no path was confirmed reachable')
        if not self.violations and all('budget' in i for i in self.inconclusive) and self.first_values is not None and not self.cfg.get('cold') and progress:
            progress(self.result())
            self.again()
        return self.result()

    def again(self):
        """a few paths once more, after the same modules were used with other values (state that outlives its objects must not matter)"""
        keep = list(self.inconclusive), list(self.mismatch), self.stats.paths, self.max_validate
        self.max_validate = 10 ** 9
        took = time.time() - self.t0
        undecided = self.obligations - self.discharged
        for k in ('query_ms', 'confirm_ms', 'fork_ms'):
            self.cfg[k] = min(self.cfg.get(k, 2500), 2500)
        for n, when in [(0, 'another question'), (0, 'before'), (0, 'between')] + [(i, 'before' if i == 1 else 'between') for i in range(1, len(self.others))]:
            if when == 'another question' and self.cfg.get('once'):
                continue
            self.warm = dict(when=when, use=n, values=self.first_values if n == 0 else {})
            self.cfg['deadline'] = time.time() + 2 + 0.2 * min(took, 80)
            self.explore(self.stats.paths + 6)
            if self.violations:
                break
        self.warm_paths = self.stats.paths - keep[2]
        self.warm_open = self.obligations - self.discharged - undecided
        self.inconclusive, self.mismatch = keep[:2]
        self.max_validate = keep[3]

    def explore(self, limit):
        stack = [[]]
        try:
            while stack:
                if time.time() > self.cfg['deadline']:
                    self.inconclusive.append('time budget exhausted with %d paths pending' % len(stack))
                    break
                if self.stats.paths >= limit:
                    self.inconclusive.append('path budget exhausted')
                    break
                dec = stack.pop(0 if self.warm is not None and self.stats.paths % 2 else -1)
                self.one_path(dec, stack)
                if self.violations:
                    break
        finally:
            T._State.engine = None

    def earlier_use(self, cx):
        """the harness function once on fixed values, unchecked; the main run goes on with the modules as it left them"""
        fn, case, param = self.others[self.warm['use']]
        p = Cx(cx.mode, self.tier, values=dict(self.warm['values']), engine=cx.eng, case=case, param=param, pre=True)
        p.job, p.hits, p.earlier = self, cx.hits, cx._ms
        snap = cx._ms.snapshot() if cx._ms is not None else {}
        try:
            fn(p)
        except Exception as ex:
            if os.environ.get('SVDBG'):
                print('earlier use:', cx.mode, repr(ex), file=sys.stderr)
        except EngineSignal as ex:
            if os.environ.get('SVDBG'):
                print('earlier use:', cx.mode, repr(ex), file=sys.stderr)
        cx.delivered_before = p.delivered
        if p._ms is not None:
            p._ms.restore(snap)
        if cx._ms is not None:
            cx._ms.rebind(cx.fakes, cx._open)
        else:
            cx.earlier = p._ms

    def other_use(self, cx):
        if self.warm is None:
            return
        if self.warm['when'] == 'another question':
            cx.requery = True
        elif self.warm['when'] == 'before':
            self.earlier_use(cx)
        else:
            cx.between = lambda: self.earlier_use(cx)

    def one_path(self, dec, stack):
        eng = Engine(dec, self.stats, self.cfg)
        T._State.engine = eng
        cx = Cx('sym', self.tier, engine=eng, case=self.case, param=self.param)
        cx.job = self
        cx.hits = self.hits
        self.cur_cx = cx
        done = False
        try:
            self.other_use(cx)
            self.fn(cx)
            cx.settle()
            done = True
        except PathAbort:
            pass
        except Unsupported as ex:
            self.unsupported(cx, str(ex))
        except BudgetExceeded as ex:
            self.inconclusive.append('budget: %s' % ex)
        except CheckFailed:
            pass
        except EngineSignal:
            raise
        except z3.Z3Exception as ex:
            self.inconclusive.append('z3: %s' % ex)
        except RecursionError as ex:
            self.inconclusive.append('recursion')
        except Exception as ex:
            self.code_exception(cx, ex)
        finally:
            for a in reversed(eng.new_alts):
                stack.append(a)
        if done:
            self.stats.paths += 1
            self.finish_path(cx)

    def finish_path(self, cx):
        """reachability witness + validation of the encoding against the real code"""
        if self.validated >= self.max_validate and self.stats.paths % 7:
            return
        if self.violations:
            return
        bad = None
        fails = []
        strict = self.cfg.get('strict')
        opaque = self.cfg.get('opaque_trig') or self.cfg.get('uf')
        for attempt in (range(6) if strict else range(4)):
            m = self.nice_model(cx, [], min(attempt, 2))
            if m is None:
                if attempt == 0:
                    return
                break
            vals = self.values_of(cx, m)
            real = self.run_real(vals)
            if real.invalid:
                continue
            if real.failures or real.exc:
                if real.exc is None or not real.engine_problem:
                    fails.append((real.failures[0] if real.failures else ('exception', repr(real.exc) + '\n' + getattr(real, 'tb', '')[-1500:]), vals))
                    if strict:
                        break
                    continue
            diffs = self.compare(cx, m, real)
            if not diffs:
                self.validated += 1
                if self.first_values is None:
                    self.first_values = vals
                if len(self.samples) < 3:
                    self.samples.append({'case': self.case, 'param': repr(self.param), 'path': len(cx.eng.trace), 'inputs': short(vals)})
                if strict:
                    continue
                return
            bad = diffs
        if fails and (strict or bad is None):
            # the real code fails on every solver-chosen input of this path
            what, vals = fails[0]
            self.violation(what[0], vals, what[1])
        elif bad and not opaque:
            self.mismatch.append({'inputs': short(vals), 'diffs': bad[:3]})
        elif bad:
            self.validated += 1

    # ------------------------------------------------------------ models
    def nice_constraints(self, cx, attempt):
        ex = []
        if attempt >= 2:
            return ex
        for i in cx.eng.inputs:
            if i.kind == 'real':
                lo, hi = i.nice if i.nice else (-4, 4)
                if i.lo is not None:
                    if i.lo > lo or i.lo > hi:
                        lo = i.lo
                        hi = max(hi, lo + 4) if not i.nice else hi
                if i.hi is not None and i.hi < hi:
                    hi = i.hi
                    lo = min(lo, hi - 4) if not i.nice and (i.lo is None or i.lo <= hi - 4) else lo
                if i.lo is not None:
                    lo = max(lo, i.lo)
                ex.append(i.var >= q(snap(float(lo))))
                ex.append(i.var <= q(snap(float(hi))))
        return ex

    def nice_model(self, cx, goals, attempt=0, ms=4000):
        """a model of path + goals, with inputs in a friendly range and preferably distinct, generic values"""
        eng = cx.eng
        nice = self.nice_constraints(cx, attempt)
        if getattr(cx, 'witness', None) and attempt == 0:
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*eng.constraints(), *goals)
            for i in eng.inputs:
                if i.name in cx.witness:
                    s.add(i.var == q(Fraction(cx.witness[i.name])))
            self.stats.queries += 1
            if s.check() == sat:
                return s.model()
        # 1: try pinning inputs to random friendly values, as many as stay satisfiable
        if attempt <= 1:
            s = z3.Solver()
            s.set('timeout', 700)
            s.add(*eng.constraints(), *goals, *nice)
            t_end = time.time() + 2.5
            r0 = s.check()
            self.stats.queries += 1
            if r0 == sat:
                m = s.model()
                ins = list(eng.inputs)
                self.rng.shuffle(ins)
                for i in ins[:40]:
                    if time.time() > t_end:
                        break
                    c = self.pin(i)
                    if c is None:
                        continue
                    s.push()
                    s.add(c)
                    if s.check() == sat:
                        m = s.model()
                    else:
                        s.pop()
                return m
            if r0 == unsat and not nice:
                return None
        r, m = eng.check_portfolio(list(goals), ms=ms, extra=nice)
        if r == sat:
            return m
        # 2: nonlinear: pin everything but a few inputs at random
        for k in range(4):
            ex = list(nice)
            for i in eng.inputs:
                if self.rng.random() < 0.6 + 0.1 * k:
                    c = self.pin(i)
                    if c is not None:
                        ex.append(c)
            r, m = eng.check_portfolio(list(goals), ms=1500, extra=ex)
            if r == sat:
                return m
        return None

    def pin(self, i):
        rng = self.rng
        if i.kind == 'real':
            lo, hi = i.nice if i.nice else (-4, 4)
            if i.lo is not None and i.lo > lo:
                lo = i.lo
                if not i.nice:
                    hi = max(hi, lo + 4)
            if i.hi is not None and i.hi < hi:
                hi = i.hi
            if hi <= lo:
                return None
            k = rng.randint(0, 64)
            v = snap(float(lo)) + (snap(float(hi)) - snap(float(lo))) * Fraction(k, 64)
            if hi - lo <= 64:
                v = Fraction(round(v * 64), 64)
            return i.var == q(v)
        if i.kind == 'angle':
            # pythagorean rotation
            tt = Fraction(rng.randint(-9, 9), 10)
            d = 1 + tt * tt
            return z3.And(i.atom.c == q((1 - tt * tt) / d), i.atom.s == q(2 * tt / d))
        if i.kind == 'int':
            lo = i.nice[0] if i.nice else (i.lo if i.lo is not None else -8)
            hi = i.nice[1] if i.nice else (i.hi if i.hi is not None else 8)
            if hi - lo > 10 ** 6 and i.lo is None and i.hi is None:
                lo, hi = -100, 100
            return i.var == rng.randint(int(lo), int(hi))
        if i.kind == 'bool':
            return i.var == rng.choice([True, False])
        return None

    def values_of(self, cx, m):
        vals = {}
        for i in cx.eng.inputs:
            if i.kind == 'angle':
                c = self.num(m, i.atom.c)
                s = self.num(m, i.atom.s)
                a = math.atan2(s, c)
                if abs(abs(a) - math.pi) < 1e-12 and self.num(m, i.var) < 0:
                    a = -math.pi
                vals[i.name] = a * i.scale
            elif i.kind == 'bool':
                vals[i.name] = z3.is_true(m.eval(i.var, model_completion=True))
            elif i.kind == 'int':
                vals[i.name] = m.eval(i.var, model_completion=True).as_long()
            else:
                vals[i.name] = self.num(m, i.var)
        return vals

    def num(self, m, t):
        key = id(m)
        if getattr(self, '_alg', (None,))[0] != key:
            sub = []
            for dcl in m.decls():
                if dcl.arity() == 0:
                    v = m[dcl]
                    if z3.is_algebraic_value(v):
                        w = v.approx(40)
                        sub.append((dcl(), z3.RatVal(w.numerator_as_long(), w.denominator_as_long())))
            self._alg = (key, sub, m)
        if self._alg[1]:
            t = z3.substitute(t, *self._alg[1])
        v = m.eval(t, model_completion=True)
        v = z3.simplify(v)
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_algebraic_value(v):
            w = v.approx(30)
            return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def run_real(self, vals, tight=False):
        cx = Cx('real', self.tier, values=vals, case=self.case, param=self.param)
        if tight:
            cx.rtol, cx.atol = 1e-9, 1e-12
        saved = T._State.engine
        T._State.engine = None
        cx.invalid = False
        cx.exc = None
        cx.engine_problem = False
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    self.other_use(cx)
                    self.fn(cx)
                    cx.settle()
        except Invalid:
            cx.invalid = not cx.failures      # the symbolic run stopped at the failing check: inputs made after it have no value
        except EngineSignal as ex:
            cx.exc = ex
            cx.engine_problem = True
        except Exception as ex:
            cx.exc = ex
            cx.tb = traceback.format_exc()
        finally:
            T._State.engine = saved
        return cx

    def evalc(self, m, x):
        if isinstance(x, SymReal):
            if x.nan is not False and (x.nan is True or z3.is_true(z3.simplify(m.eval(x.nan, model_completion=True)))):
                return float('nan')
            return self.num(m, x.t)
        if isinstance(x, (SymInt, SymBool)):
            return self.num(m, x.t)
        return x

    def compare(self, cx, m, real):
        diffs = []
        if len(cx.records) != len(real.records):
            return ['different number of observations: %d vs %d' % (len(cx.records), len(real.records))]
        for (l1, a1, b1), (l2, a2, b2) in zip(cx.records, real.records):
            if l1 != l2:
                return ['different observation order %s / %s' % (l1, l2)]
            for x, y in ((a1, a2), (b1, b2)):
                if not isinstance(x, list):
                    x = flat(x)[1]
                if not isinstance(y, list):
                    y = flat(y)[1]
                if len(x) != len(y):
                    diffs.append('%s: length %d vs %d' % (l1, len(x), len(y)))
                    continue
                for u, v in zip(x, y):
                    if isinstance(u, (str, bytes)) or u is None or isinstance(v, str):
                        continue
                    if not isnum(u):
                        continue
                    w = self.evalc(m, u)
                    if w is None:
                        continue
                    if isinstance(w, float) and w != w and isinstance(v, (float, np.floating)) and not math.isfinite(v):
                        continue
                    if not close(w, v, 1e-5, 1e-6):
                        diffs.append('%s: encoding %r, real %r' % (l1, w, v))
        return diffs

    # ------------------------------------------------------------ proving
    def trivial(self, cx, label):
        self.obligations += 1
        self.discharged += 1
        self.trivially += 1

    def refuted(self, cx, label):
        """a check is false on the whole path"""
        self.obligations += 1
        self.candidate(cx, label, [], None)

    def prove(self, cx, items, label):
        eng = cx.eng
        key = (tuple(map(repr, eng.trace)), len(cx.records), label)
        cx.goals_seen += 1
        if eng.pos < len(eng.decisions):
            # this check is inside the replayed prefix: it was discharged on the path that created the prefix
            return
        self.obligations += 1
        neg_terms = []
        self.cur_margin = []
        norm = poly.Norm(eng.trig, eng.sqrts)
        norm0 = poly.Norm(eng.trig, {}) if eng.sqrts else None
        nrm = 0
        closed = []
        for it in items:
            if it[0] == 'bool':
                neg_terms.append(z3.Not(it[1].t))
                continue
            if it[0] == 'flag':
                f = it[1]
                neg_terms.append(z3.Not(f.t) if isinstance(f, SymBool) else z3.BoolVal(not f))
                continue
            _, x, y, nan_ok = it
            if isinstance(x, (SymInt, SymBool, int, np.integer, np.bool_)) and isinstance(y, (SymInt, SymBool, int, np.integer, np.bool_)):
                r = (T.to_symint(x) == T.to_symint(y)) if is_sym(x) or is_sym(y) else x == y
                if isinstance(r, SymBool):
                    neg_terms.append(z3.Not(r.t))
                elif not r:
                    neg_terms.append(z3.BoolVal(True))
                continue
            X, Y = lift(x), lift(y)
            bad = T.zor(X.nan, Y.nan)
            if nan_ok:
                if bad is not False:
                    neg_terms.append(z3.Xor(T._b(X.nan), T._b(Y.nan)))
                guard = T.znot(bad)
            else:
                if bad is not False:
                    neg_terms.append(T._b(bad))
                guard = True
            if X.t.eq(Y.t):
                continue
            if time.time() < self.t0 + 0.7 * (self.cfg['deadline'] - self.t0):
                xt, yt = eng.resolve_ites(X.t), eng.resolve_ites(Y.t)
                if not (xt.eq(X.t) and yt.eq(Y.t)):
                    X, Y = SymReal(xt, X.nan), SymReal(yt, Y.nan)
                    if xt.eq(yt):
                        continue
            d = None
            try:
                p = norm0.diff(X.t, Y.t) if norm0 is not None else None      # square roots opaque
            except (poly.TooBig, z3.Z3Exception):
                p = None
            try:
                if p is None or p:
                    p = norm.diff(X.t, Y.t)
                if not p:
                    nrm += 1
                    closed.append(z3.And(T._b(guard), X.t != Y.t) if guard is not True else X.t != Y.t)
                    continue
                if len(p) < 400:
                    d = norm.to_z3(p)
            except poly.TooBig:
                d = None
            except z3.Z3Exception:
                d = None
            ne = (X.t != Y.t) if d is None or len(p) > 60 else (d != 0)
            self.cur_margin.append((X.t, Y.t, guard))
            neg_terms.append(z3.And(T._b(guard), ne) if guard is not True else ne)
        self.normalised += nrm
        neg = [z3.simplify(t) for t in neg_terms]
        neg = [t for t in neg if not z3.is_false(t)]
        if closed and not self.confirm(eng, closed, label):
            return
        if not neg:
            self.discharged += 1
            self.trivially += 1
            return
        ms = self.cfg.get('query_ms', 10000)
        goal = z3.Or(*neg) if len(neg) > 1 else neg[0]
        r, m = eng.check_portfolio([goal], ms=ms)
        if r == unknown and len(neg) > 1:
            rs = []
            for g in neg:
                r1, m1 = eng.check_portfolio([g], ms=ms)
                rs.append(r1)
                if r1 == sat:
                    r, m, goal = sat, m1, g
                    break
            else:
                if all(x == unsat for x in rs):
                    r = unsat
        if r == unsat:
            self.discharged += 1
            if len(self.exports) < self.cfg.get('export', 0):
                self.export(eng, goal)
            return
        self.candidate(cx, label, [goal], m, r)

    def confirm(self, eng, closed, label):
        """equalities closed by the polynomial normal form are put to the solver as well, unsimplified"""
        if time.time() > self.t0 + 0.5 * (self.cfg['deadline'] - self.t0):
            return True
        g = z3.Or(*closed) if len(closed) > 1 else closed[0]
        r, m = eng.run_solver(z3.Solver, eng.coi([g]) + [g], self.cfg.get('confirm_ms', 400))
        if r == unsat:
            eng.stats.unsat += 1
            self.confirmed += 1
        elif r == sat:
            self.inconclusive.append('%s: normal form and solver disagree' % label)
            return False
        return True

    def export(self, eng, goal):
        s = z3.Solver()
        for c in eng.coi([goal]):
            s.add(c)
        s.add(goal)
        self.exports.append(s.to_smt2())

    def candidate(self, cx, label, goals, m, r=sat):
        """a check may fail: find concrete inputs, replay them on the real code"""
        eng = cx.eng
        tried = []
        margins = []
        for X, Y, g in getattr(self, 'cur_margin', []) if goals else []:
            d = X - Y
            margins.append(z3.And(T._b(g), z3.Or(d > z3.Q(1, 100), d < z3.Q(-1, 100))))
        plans = []
        if margins:
            for a in range(2):
                plans.append((goals + [z3.Or(*margins)], a))
        plans += [(goals, 0), (goals, 1), (goals, 2)]
        if m is not None:
            plans.insert(1, ('given', m))
        for gs, a in plans:
            if time.time() > self.cfg['deadline']:
                break
            mm = a if gs == 'given' else self.nice_model(cx, gs, a)
            if mm is None:
                continue
            vals = self.values_of(cx, mm)
            if vals in tried:
                continue
            tried.append(vals)
            if __import__('os').environ.get('SVDBG'): print('DBG', label, vals, [str(g)[:1500] for g in goals if not z3.is_false(z3.simplify(g))], file=__import__('sys').stderr)
            for v, tight in [(vals, False)] + ([(self.nudged(cx, vals), True)] if self.has_narrowed(eng, goals) else []):
                real = self.run_real(v, tight)
                if real.invalid or (real.exc and real.engine_problem):
                    continue
                if real.failures:
                    self.violation(real.failures[0][0], v, real.failures[0][1])
                    raise CheckFailed()
                if real.exc is not None:
                    self.violation('exception', v, repr(real.exc) + '\n' + getattr(real, 'tb', '')[-1500:])
                    raise CheckFailed()
        # not reproduced: is the disagreement only of rounding size?
        if margins and goals:
            big = []
            for X, Y, g in self.cur_margin:
                d = X - Y
                ay = z3.If(Y >= 0, Y, -Y)
                big.append(z3.And(T._b(g), z3.Or(d > z3.Q(1, 10 ** 6) * (1 + ay), d < -z3.Q(1, 10 ** 6) * (1 + ay))))
            rr, mm = eng.check_portfolio([z3.Or(*big)], ms=self.cfg.get('query_ms', 10000))
            if rr == unsat:
                self.discharged += 1
                self.margin += 1
                return
        self.inconclusive.append('%s: %s, not reproduced on the real code in %d replays' %
                                 (label, 'solver gave unknown' if r == unknown else 'counterexample', len(tried)))
        raise CheckFailed()

    def has_narrowed(self, eng, goals):
        """does the goal depend on a value that was rounded to a shorter float?"""
        if not eng.narrowed:
            return False
        seen, todo = set(), list(goals)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in eng.narrowed:
                return True
            todo.extend(t.children())
        return False

    def nudged(self, cx, vals):
        """numbers that a shorter float cannot hold"""
        out = {}
        for i in cx.eng.inputs:
            v = vals[i.name]
            if i.kind == 'real' and isinstance(v, float):
                w = v * (1 + 7 * 2.0 ** -27) if v else 2.0 ** -30
                v = w if i.hi is None or w <= i.hi else v * (1 - 7 * 2.0 ** -27)
            elif i.kind == 'int' and i.hi is not None and i.hi > 2 ** 25 and not v % 2:
                v = (v if v > 2 ** 25 else 2 ** 25) + 1
            out[i.name] = v
        return out

    def code_exception(self, cx, ex):
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if '/resippy/' in (f.filename or '')]
        label = 'exception %s' % type(ex).__name__
        tried = 0
        for a in range(3):
            mm = self.nice_model(cx, [], a)
            if mm is None:
                continue
            tried += 1
            vals = self.values_of(cx, mm)
            real = self.run_real(vals)
            if real.invalid or (real.exc and real.engine_problem):
                continue
            if real.failures:
                self.violation(real.failures[0][0], vals, real.failures[0][1])
                return
            if real.exc is not None:
                self.violation('exception', vals, repr(real.exc) + '\n' + getattr(real, 'tb', '')[-1500:])
                return
        if tried == 0 and not cx.eng.alive():
            return
        if os.environ.get('SVDBG'):
            print(''.join(traceback.format_exception(ex)), file=sys.stderr)
        self.inconclusive.append('%s in symbolic run, not reproduced: %s @ %s' % (label, ex, where[-1:] or tb[-2:]))

    def unsupported(self, cx, why):
        """the encoding cannot continue on this path: look for a violation with solver-chosen witnesses, else give no answer"""
        for a in range(3):
            mm = self.nice_model(cx, [], a)
            if mm is None:
                continue
            vals = self.values_of(cx, mm)
            real = self.run_real(vals)
            if real.invalid or (real.exc and real.engine_problem):
                continue
            if real.failures:
                self.violation(real.failures[0][0], vals, real.failures[0][1])
                return
            if real.exc is not None:
                self.violation('exception', vals, repr(real.exc) + '\n' + getattr(real, 'tb', '')[-1500:])
                return
        tb = ''
        self.inconclusive.append('unsupported: %s' % why)

    def violation(self, label, vals, detail):
        v = {'label': label, 'values': vals, 'detail': str(detail)}
        if self.warm is not None:
            v['earlier'] = self.warm
        self.violations.append(v)

    def result(self):
        s = self.stats
        return dict(case=self.case, param=repr(self.param), paths=s.paths, forks=s.forks, queries=s.queries, solver_s=round(s.solver_s, 3),
                    unsat=s.unsat, sat=s.sat, unknown=s.unknown, obligations=self.obligations, discharged=self.discharged,
                    trivially=self.trivially, warm_paths=self.warm_paths, warm_open=self.warm_open, normalised=self.normalised, margin=self.margin, confirmed=self.confirmed, validated=self.validated,
                    inconclusive=self.inconclusive[:5], mismatch=self.mismatch[:3], violations=self.violations, samples=self.samples,
                    hits=sorted(self.hits), wall=round(time.time() - self.t0, 3), exports=self.exports,
                    opaque=bool(self.cfg.get('opaque_trig') or self.cfg.get('uf')))


def short(vals):
    out = {}
    for k, v in list(vals.items())[:14]:
        out[k] = round(v, 9) if isinstance(v, float) else v
    return out
