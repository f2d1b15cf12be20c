"""Path exploration and solver queries."""
import itertools
import math
import os
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from . import poly
from .terms import (SymReal, SymInt, SymBool, is_sym, Unsupported, PathAbort, BudgetExceeded, zor, snap, q, Lin, Atom,
                    mkbool, lift)

TRACE = os.environ.get('SV_TRACE')
sat, unsat, unknown = z3.sat, z3.unsat, z3.unknown


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.paths = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.normalised = 0


def term_vars(t, memo):
    """set of ids of uninterpreted constants / uf applications in t"""
    i = t.get_id()
    if i in memo:
        return memo[i]
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(xi)
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(-x.decl().get_id() - 1)
                stack.extend(x.children())
    memo[i] = (out, t)
    return memo[i]


class Input:
    def __init__(self, name, kind, var, lo=None, hi=None, nice=None, atom=None, scale=None):
        self.name, self.kind, self.var = name, kind, var
        self.lo, self.hi, self.nice = lo, hi, nice
        self.atom, self.scale = atom, scale


def first_ite(t, kept):
    """an innermost if-then-else subterm not in kept"""
    seen, stack = set(), [t]
    found = None
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen or not z3.is_app(x):
            continue
        seen.add(i)
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT) and i not in kept:
            inner = None
            for ch in x.children():
                inner = inner if inner is not None else first_ite(ch, kept)
            return inner if inner is not None else x
        stack.extend(x.children())
    return found


class Engine:
    """symbolic engine for ONE path replay (a list of forced decisions), sharing statistics across paths"""

    def __init__(self, decisions, stats, cfg):
        self.decisions = list(decisions)
        self.pos = 0
        self.stats = stats
        self.cfg = cfg
        self.pc = []               # path condition (assumptions + branch conditions)
        self.side = []             # definitional constraints of fresh symbols
        self.trace = []            # list of (choice, alternatives list) taken on this path
        self.new_alts = []         # decision prefixes still to explore
        self.inputs = []
        self.fresh_n = itertools.count()
        self.atoms = {}
        self.opaque = {}
        self.narrowed = set()
        self.sqrt_memo = {}
        self.sqrts = {}
        self.trig = {}
        self.uf_memo = {}
        self.den_memo = {}
        self.placeholders = {}
        self.vmemo = {}
        self.files = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', cfg.get('fork_ms', 1500))
        self.path_len = 0
        self.keep = []

    # ------------------------------------------------------------ symbols
    def fresh_real(self, hint):
        return z3.Real('%s!%d' % (hint, next(self.fresh_n)))

    def fresh_int(self, hint, lo=None, hi=None):
        v = z3.Int('%s!%d' % (hint, next(self.fresh_n)))
        if lo is not None:
            self.add_side(v >= int(lo))
        if hi is not None:
            self.add_side(v <= int(hi))
        return v

    def add_side(self, c):
        self.side.append(c)
        self.solver.add(c)

    def add_pc(self, c):
        self.pc.append(c)
        self.solver.add(c)

    # ------------------------------------------------------------ angles
    def new_atom(self, name, lo=None, hi=None):
        c, s, v = z3.Real('cos(%s)' % name), z3.Real('sin(%s)' % name), z3.Real(name)
        self.add_side(c * c + s * s == 1)
        self.add_side(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        a = Atom(c, s, v, name)
        self.atoms[name] = a
        self.trig[s.get_id()] = c
        self.keep += [c, s, v]
        return a

    def atom_lin(self, a, f=Fraction(1)):
        return Lin({a.name: f}, Fraction(0))

    def angle_from(self, c, s, hint, half):
        """fresh angle whose cosine/sine are the given terms"""
        key = (hint, c.t.get_id(), s.t.get_id())
        if key in self.opaque:
            a = self.opaque[key]
        else:
            name = '%s!%d' % (hint, next(self.fresh_n))
            v = z3.Real(name)
            a = Atom(c.t, s.t, v, name)
            self.atoms[name] = a
            self.opaque[key] = a
            self.keep += [c.t, s.t, v]
            pi = q(snap(math.pi))
            if half == 's':      # arcsin
                self.add_side(z3.And(v >= -pi / 2, v <= pi / 2, (v > 0) == (s.t > 0), (v == 0) == (s.t == 0)))
            elif half == 'c':    # arccos
                self.add_side(z3.And(v >= 0, v <= pi, (v > pi / 2) == (c.t < 0), (v == 0) == (c.t == 1)))
            else:
                self.add_side(z3.And(v >= -pi, v <= pi, z3.Implies(s.t > 0, v > 0), z3.Implies(s.t < 0, v < 0),
                                     z3.Implies(z3.And(s.t == 0, c.t > 0), v == 0), z3.Implies(z3.And(s.t == 0, c.t < 0), v == pi)))
        return SymReal(a.val, False, T.F64, self.atom_lin(a))

    def ite_angle(self, c, A, B, t):
        """angle chosen by a symbolic condition: cos/sin chosen the same way"""
        ca, sa = self.cossin(A)
        cb, sb = self.cossin(B)
        key = ('ite', c.t.get_id(), A.t.get_id(), B.t.get_id())
        if key not in self.opaque:
            name = 'ite!%d' % next(self.fresh_n)
            cc = z3.If(c.t, lift(ca).t, lift(cb).t)
            ss = z3.If(c.t, lift(sa).t, lift(sb).t)
            a = Atom(cc, ss, t, name)
            self.atoms[name] = a
            self.opaque[key] = a
            self.keep += [cc, ss, t, c.t, A.t, B.t]
        return self.atom_lin(self.opaque[key])

    def cossin(self, x):
        """(cos x, sin x) as SymReal, via angle addition over integer combinations of atoms"""
        lin = x.lin
        if lin is None:
            xc = T.conc(x)
            if not is_sym(xc):
                return np.cos(xc), np.sin(xc)
            t = z3.simplify(x.t)
            key = ('op', t.get_id())
            if key not in self.opaque:
                self.keep.append(t)
                a = self.new_atom('ang!%d' % next(self.fresh_n))
                self.add_side(a.val == t)
                self.opaque[key] = a
                pi = q(snap(math.pi))
                self.add_side(z3.Implies(t == 0, z3.And(a.c == 1, a.s == 0)))
                self.add_side(z3.Implies(z3.And(t > 0, t < pi), a.s > 0))
                self.add_side(z3.Implies(z3.And(t < 0, t > -pi), a.s < 0))
                self.add_side(z3.Implies(z3.And(t < pi / 2, t > -pi / 2), a.c > 0))
                self.add_side(z3.Implies(z3.And(t > 0, t < pi), a.s <= t))
                self.cfg['opaque_trig'] = True
            lin = self.atom_lin(self.opaque[key])
        C, S = Fraction(1), Fraction(0)
        C, S = z3.RealVal(1), z3.RealVal(0)

        def addang(C, S, c, s):
            one = z3.is_rational_value(C) and C.as_fraction() == 1
            if one and z3.is_rational_value(S) and S.as_fraction() == 0:
                return c, s
            return C * c - S * s, S * c + C * s
        for name, f in sorted(lin.d.items()):
            n = round(f)
            a = self.atoms[name]
            if abs(f - n) > Fraction(1, 10 ** 9) or n == 0 or abs(n) > 6:
                key = ('frac', name, f)
                if key not in self.opaque:
                    b = self.new_atom('%s*%s' % (name, f))
                    self.add_side(b.val == a.val * q(f))
                    self.opaque[key] = b
                    self.cfg['opaque_trig'] = True
                    if abs(f * 2 - round(f * 2)) < Fraction(1, 10 ** 9) and round(f * 2) == 1:
                        self.add_side(a.c == 2 * b.c * b.c - 1)
                        self.add_side(a.s == 2 * b.c * b.s)
                a = self.opaque[key]
                n = 1
            for _ in range(abs(n)):
                C, S = addang(C, S, a.c, a.s if n > 0 else -a.s)
        if lin.c != 0:
            k = float(lin.c) / (math.pi / 2)
            if abs(k - round(k)) < 1e-9:
                kk = round(k) % 4
                C, S = [(C, S), (-S, C), (-C, -S), (S, -C)][kk]
            else:
                C, S = addang(C, S, q(snap(math.cos(float(lin.c)))), q(snap(math.sin(float(lin.c)))))
        return SymReal(C, x.nan, x.ld), SymReal(S, x.nan, x.ld)

    # ------------------------------------------------------------ functions
    def sqrt(self, x):
        if not is_sym(x):
            return lift(np.sqrt(x))
        t = z3.simplify(x.t)
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            if f >= 0:
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return SymReal(q(Fraction(n, d)), x.nan, x.ld)
                return SymReal(q(snap(math.sqrt(f))), x.nan, x.ld)
            return SymReal(z3.RealVal(0), True, x.ld)
        i = t.get_id()
        if i not in self.sqrt_memo:
            r = self.fresh_real('sqrt')
            self.add_side(r >= 0)
            self.add_side(z3.Implies(x.t >= 0, r * r == x.t))
            self.sqrt_memo[i] = r
            self.sqrts[r.get_id()] = x.t
            self.keep += [t, r, x.t]
        r = self.sqrt_memo[i]
        neg = self.simp_flag(x.t < 0)
        return SymReal(r, zor(x.nan, neg), x.ld)

    def narrow(self, x, ld, exact=False):
        """conversion to a shorter float: some number within half a unit of the last place (whole numbers that fit are kept)"""
        bits = 24 if ld.itemsize == 4 else 11
        t = z3.simplify(x.t)
        if z3.is_rational_value(t):
            v = float(ld.type(float(Fraction(t.numerator_as_long(), t.denominator_as_long()))))
            return SymReal(q(Fraction(v)), x.nan, ld)
        k = ('n', bits, t.get_id())
        if k not in self.sqrt_memo:
            r = self.fresh_real('narrow')
            a = z3.If(t >= 0, t, -t) / 2 ** bits
            self.add_side(z3.And(r - t <= a, t - r <= a))
            if exact:
                self.add_side(z3.Implies(z3.And(t <= 2 ** bits, t >= -2 ** bits), r == t))
            self.sqrt_memo[k] = r
            self.narrowed.add(r.get_id())
            self.keep += [t, r]
        return SymReal(self.sqrt_memo[k], x.nan, ld)

    def simp_flag(self, t):
        t = z3.simplify(t)
        if z3.is_false(t):
            return False
        if z3.is_true(t):
            return True
        # drop the flag when it is infeasible here
        key = ('f', t.get_id())
        if key not in self.den_memo:
            self.keep.append(t)
            self.den_memo[key] = not self.feasible(t)
        return False if self.den_memo[key] else t

    def den_zero(self, d):
        """flag: denominator may be zero on this path (False when the solver excludes it)"""
        if not z3.is_rational_value(d) and self.known_nonzero(d):
            return False
        return self.simp_flag(d == 0)

    # ------------------------------------------------------------ denominators excluded by an assumption
    def nonzero_terms(self, c):
        """terms that a constraint makes non-zero"""
        neg = z3.is_not(c)
        a = c.arg(0) if neg else c
        if z3.is_and(c):
            return [t for k in c.children() for t in self.nonzero_terms(k)]
        if z3.is_or(c):
            per = [self.nonzero_terms(k) for k in c.children()]
            if not per or not all(per):
                return []
            return [t for t in per[0] if all(any(self.proportional(t, u) for u in k) for k in per[1:])]
        if a.num_args() != 2 or not z3.is_arith(a.arg(0)):
            return []
        x, y = a.arg(0), a.arg(1)
        if not z3.is_real(x):
            return []
        if z3.is_eq(a):
            return [x - y] if neg else []
        if neg and z3.is_le(a) or not neg and z3.is_gt(a):
            strict = True
        elif neg and z3.is_ge(a) or not neg and z3.is_lt(a):
            x, y, strict = y, x, True
        elif neg and z3.is_lt(a) or not neg and z3.is_ge(a):
            strict = False
        elif neg and z3.is_gt(a) or not neg and z3.is_le(a):
            x, y, strict = y, x, False
        else:
            return []
        # x > y, or x >= y
        for big, small, sign in ((x, y, 1), (y, x, -1)):
            if z3.is_rational_value(small) or z3.is_int_value(small):
                v = sign * (small.as_long() if z3.is_int_value(small) else small.as_fraction())
                if v > 0 or v == 0 and strict:
                    return [big] + (big.children() if z3.is_mul(big) else [])
                return []
        return [x - y] if strict else []

    def proportional(self, a, b):
        try:
            n = self.nz_norm
            (an, ad), (bn, bd) = n.frac(a), n.frac(b)
            p, q_ = n.pmul(an, bd), n.pmul(bn, ad)
            if not p or not q_ or len(p) != len(q_):
                return False
            m = next(iter(p))
            if m not in q_:
                return False
            k = p[m] / q_[m]
            return all(q_.get(x) is not None and q_[x] * k == c for x, c in p.items())
        except (poly.TooBig, z3.Z3Exception):
            return False

    def known_nonzero(self, d, depth=3):
        if not hasattr(self, 'nz_norm'):
            self.nz_norm = poly.Norm(self.trig, {}, cap=2500)
            self.nz, self.nz_pos = [], 0
        while self.nz_pos < len(self.pc):
            c = self.pc[self.nz_pos]
            self.nz_pos += 1
            self.nz += self.nonzero_terms(c)
        if not self.nz:
            return False
        if z3.is_mul(d) and depth and all((z3.is_rational_value(k) and k.as_fraction() != 0) or self.known_nonzero(k, depth - 1) for k in d.children()):
            return True
        return any(self.proportional(t, d) for t in self.nz)

    def uninterpreted(self, name, x):
        t = z3.simplify(x.t)
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
        nan = x.nan
        r = f(t)
        if (name, t.get_id()) not in self.uf_memo:
            self.uf_memo[(name, t.get_id())] = 1
            self.keep.append(t)
            self.cfg['uf'] = True
            if name == 'exp':
                self.add_side(r > 0)
            if name in ('log', 'log2', 'log10'):
                self.add_side(z3.And((r > 0) == (t > 1), (r == 0) == (t == 1)))
        if name in ('log', 'log2', 'log10'):
            nan = zor(nan, self.simp_flag(t <= 0))
        return SymReal(r, nan, x.ld)

    def uninterpreted2(self, name, a, b):
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.cfg['uf'] = True
        return SymReal(f(z3.simplify(a.t), z3.simplify(b.t)), zor(a.nan, b.nan), a.ld or b.ld)

    def placeholder(self, x, spec):
        """text form of a symbolic value: a token that the float()/int() shims map back"""
        tok = '9%07d7777' % (len(self.placeholders) + 1)
        t = x.t
        for k, v in self.placeholders.items():
            if v[0].t.eq(t) and v[1] == spec:
                return k
        self.placeholders[tok] = (self.rounded_text(x, spec), spec)
        return tok

    def rounded_text(self, x, spec):
        """the value that a text with this format spec stands for: any number that rounds to the same digits"""
        import re
        m = re.fullmatch(r'[-+ 0<>=^]*\d*,?(\.\d+)?([a-zA-Z%]?)', spec or '')
        if not isinstance(x, SymReal) or not spec:
            return x
        if not m or m.group(2) not in ('', 'e', 'E', 'f', 'F', 'g', 'G'):
            raise T.Unsupported('format %r of a symbolic value' % spec)
        kind = m.group(2).lower()
        if not m.group(1) and not kind:
            return x
        n = int(m.group(1)[1:]) if m.group(1) else 6
        r = self.fresh_real('text')
        t = x.t if z3.is_real(x.t) else z3.ToReal(x.t)
        if kind == 'f':
            h = z3.RealVal(1) / (2 * 10 ** n)
        else:
            n = n + 1 if kind == 'e' else max(n, 1)
            if n >= 17:
                return x
            h = z3.If(t < 0, -t, t) / (2 * 10 ** (n - 1))
        self.add_side(z3.And(r - t <= h, t - r <= h))
        return SymReal(r, x.nan, x.ld)

    # ------------------------------------------------------------ raw sample files
    def tofile(self, a, fname, sep='', format='%s'):
        if sep:
            raise T.Unsupported('tofile as text')
        self.files[str(fname)] = (a.dtype, list(a.reshape(-1)))

    def fromfile(self, fname, dtype=float, count=-1, sep='', offset=0):
        from . import arr as A
        dt, cells = self.files[str(fname)]
        want = np.dtype(dtype if dtype is not None else float)
        if sep or count != -1 or offset:
            raise T.Unsupported('partial fromfile')
        if want == dt:
            return A.array(cells, dtype=dt)
        # other type than written: the same bytes mean unrelated values
        n = len(cells) * dt.itemsize // want.itemsize
        if want.kind == 'f':
            return A.array([SymReal(self.fresh_real('raw')) for _ in range(n)], dtype=want)
        if want.kind in 'iu':
            i = np.iinfo(want)
            return A.array([SymInt(self.fresh_int('raw', i.min, i.max)) for _ in range(n)], dtype=want)
        raise T.Unsupported('reading %s as %s' % (dt, want))

    # ------------------------------------------------------------ forking
    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        t0 = time.time()
        r = self.solver.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        self.solver.pop()
        if r == unknown:
            r = self.check_portfolio([c], ms=self.cfg.get('fork_ms', 1500), want_model=False)[0]
        if r == unsat:
            self.stats.unsat += 1
        elif r == sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r != unsat

    def fork(self, cond):
        """decide a branch condition; explores both feasible sides over successive replays"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if time.time() > self.cfg['deadline']:
            raise BudgetExceeded('time')
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[0] == 'f':
                self.add_pc(cond if d[1] else z3.Not(cond))
                return d[1]
            raise RuntimeError('replay diverged: expected %r at a boolean fork' % (d,))
        self.pos += 1
        self.stats.forks += 1
        if TRACE:
            import traceback
            print('FORK', str(cond)[:200], '@', [f for f in traceback.extract_stack() if '/sv/' not in f.filename][-1:])
        if len(self.trace) > self.cfg.get('max_depth', 400):
            raise BudgetExceeded('fork depth')
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond)) if ft else True
        if ft and ff:
            self.new_alts.append(list(self.trace) + [('f', False)])
            d = ('f', True)
        elif ft:
            d = ('f', True)
        else:
            d = ('f', False)
        self.trace.append(d)
        self.add_pc(cond if d[1] else z3.Not(cond))
        return d[1]

    def enumerate_int(self, t, limit=64):
        """a concrete value of an integer term; all feasible values are explored over successive replays"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if time.time() > self.cfg['deadline']:
            raise BudgetExceeded('time')
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[0] != 'i':
                raise RuntimeError('replay diverged at integer enumeration')
            if d[1] == 'other':
                for v in d[2]:
                    self.add_pc(t != v)
                self.trace.pop()
                self.pos -= 1
                self.decisions = self.decisions[:self.pos]
                return self._enum_new(t, list(d[2]), limit)
            self.add_pc(t == d[1])
            return d[1]
        return self._enum_new(t, [], limit)

    def _enum_new(self, t, seen, limit):
        self.pos += 1
        self.stats.forks += 1
        if len(seen) > limit:
            raise BudgetExceeded('integer enumeration over %d values' % limit)
        r, m = self.check_portfolio([], ms=self.cfg.get('fork_ms', 1500) * 3, want_model=True)
        if r == unsat:
            raise PathAbort()
        if r == unknown or m is None:
            raise Unsupported('enumeration of an integer term: solver gave no model')
        mv = m.eval(t, model_completion=True)
        v = z3.simplify(mv)
        if z3.is_int_value(v):
            v = v.as_long()
        else:
            # the model is not numeric (an algebraic number, say): look for a value by hand
            v = next((k for j in range(limit) for k in ((j, -j) if j else (0,)) if k not in seen and self.feasible(t == k)), None)
            if v is None:
                raise Unsupported('enumeration: no integer value')
        if self.feasible(t != v):
            self.new_alts.append(list(self.trace) + [('i', 'other', seen + [v])])
        self.trace.append(('i', v))
        self.add_pc(t == v)
        return v

    def assume(self, cond):
        if isinstance(cond, SymBool):
            c = z3.simplify(cond.t)
        elif isinstance(cond, z3.BoolRef):
            c = z3.simplify(cond)
        else:
            if not cond:
                raise PathAbort()
            return
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add_pc(c)

    def alive(self):
        return self.feasible(z3.BoolVal(True))

    # ------------------------------------------------------------ queries
    def constraints(self):
        return self.side + self.pc

    def coi(self, goals):
        """constraints connected to the goals through shared symbols (sound for unsat)"""
        memo = self.vmemo
        want = set()
        for g in goals:
            want |= term_vars(g, memo)[0]
        cs = [(c, term_vars(c, memo)[0]) for c in self.constraints()]
        out, changed = [], True
        left = cs
        while changed:
            changed = False
            rest = []
            for c, vs in left:
                if vs & want or not vs:
                    out.append(c)
                    want |= vs
                    changed = True
                else:
                    rest.append((c, vs))
            left = rest
        return out

    def resolve_ites(self, t, limit=60):
        """t with those if-then-else subterms decided whose condition the path constraints determine"""
        t0, n, kept = time.time(), 0, set()
        cache = self.__dict__.setdefault('ite_cache', {})
        while n < limit and time.time() - t0 < 4:
            ite = first_ite(t, kept)
            if ite is None:
                break
            c = ite.arg(0)
            n += 1
            key = (c.get_id(), len(self.constraints()))
            if key not in cache:
                cache[key] = (self.decided(c), c)
            v = cache[key][0]
            if v is None:
                kept.add(ite.get_id())
                continue
            t = z3.substitute(t, (ite, ite.arg(1) if v else ite.arg(2)))
        return t

    def decided(self, c):
        vs = term_vars(c, self.vmemo)[0]
        direct = [k for k in self.constraints() if term_vars(k, self.vmemo)[0] <= vs]
        for cs, ms in ((direct, 150), (self.coi([c]), 250)):
            for neg, val in ((z3.Not(c), True), (c, False)):
                r, _ = self.run_solver(z3.Solver, cs + [neg], ms)
                if r == unsat:
                    return val
        return None

    def run_solver(self, mk, cs, ms):
        s = mk()
        s.set('timeout', int(ms))
        for c in cs:
            s.add(c)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        m = s.model() if r == sat else None
        return r, m

    def check_portfolio(self, goals, ms=8000, want_model=True, extra=()):
        """is (constraints and goals) satisfiable?"""
        allc = self.constraints() + list(goals) + list(extra)
        sub = self.coi(goals) + list(goals) if goals else allc
        nl = any_nonlinear(sub)
        mk_default = z3.Solver
        mk_nra = lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'qfnra-nlsat').solver()
        mk_nra2 = lambda: z3.Tactic('qfnra').solver()
        best = unknown
        plans = [(mk_default, min(ms, 1200)), (mk_nra, ms / 2), (mk_default, ms / 2), (mk_nra2, ms / 2)] if nl else [(mk_default, ms)]
        for mk, lim in plans:
            if time.time() > self.cfg['deadline']:
                break
            if len(sub) < len(allc) and goals and not extra:
                r, m = self.run_solver(mk, sub, lim)
                if r == unsat:
                    self.stats.unsat += 1
                    return unsat, None
                if r == sat and not want_model:
                    # the rest of the constraints are independent and known satisfiable
                    return sat, None
            r, m = self.run_solver(mk, allc, lim)
            if r == unsat:
                self.stats.unsat += 1
                return unsat, None
            if r == sat:
                self.stats.sat += 1
                return sat, m
        self.stats.unknown += 1
        return best, None


def any_nonlinear(cs):
    seen = set()
    stack = list(cs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in t.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
                    return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1))):
                return True
            if k == z3.Z3_OP_POWER:
                return True
            stack.extend(t.children())
    return False
