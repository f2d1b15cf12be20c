"""Exact normal form of z3 arithmetic terms as quotients of multivariate polynomials.

Used as a preprocessing step for equality goals: a == b is rewritten to
num(a)*den(b) - num(b)*den(a) == 0 (denominators are non-zero on the path: a
separate obligation), with s^2 -> 1 - c^2 for sine/cosine pairs and r^2 -> x for
square roots.  The rewritten goal is then what the solver is asked about.
"""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


class Norm:
    def __init__(self, trig=None, sqrts=None, cap=6000):
        self.ids = {}          # ast id -> var index
        self.terms = []        # var index -> z3 term
        self.trig = trig or {}     # ast id of sin var -> ast id term of cos
        self.sqrts = sqrts or {}   # ast id of r -> z3 term x
        self.cap = cap
        self.keys = {}
        self.memo = {}
        self.redmemo = {}
        self.keep = []

    def var(self, t):
        i = t.get_id()
        if i not in self.ids:
            k = self.key(t)
            j = self.keys.get(k) if k is not None else None
            if j is None:
                j = len(self.terms)
                self.terms.append(t)
                if k is not None:
                    self.keys[k] = j
            self.ids[i] = j
            self.keep.append(t)
        return self.ids[i]

    def key(self, t):
        """atoms that are the same function (floor, choice) of equal polynomials are the same atom"""
        k = t.decl().kind()
        try:
            if k == z3.Z3_OP_TO_INT:
                return ('floor',) + self.canon(t.children()[0])
            if k == z3.Z3_OP_ITE and not z3.is_bool(t):
                c, a, b = t.children()
                return ('ite', self.cond(c)) + self.canon(a) + self.canon(b)
        except TooBig:
            pass
        return None

    def canon(self, t):
        n, d = self.frac(t)
        return frozenset(n.items()), frozenset(d.items())

    def cond(self, c):
        k = c.decl().kind()
        ch = c.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            n, d = self._fadd(self.frac(ch[0]), self.frac(ch[1]), -1)
            return k, frozenset(n.items()), frozenset(d.items())
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (k,) + tuple(self.cond(x) for x in ch)
        self.keep.append(c)
        return 'id', c.get_id()

    # polynomials: dict monomial(tuple of (var,exp) sorted) -> Fraction
    def padd(self, a, b, s=1):
        if len(a) < len(b) and s == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 40 * self.cap:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            d1 = dict(m1)
            for m2, c2 in b.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(d1)
                    for v, e in m2:
                        d[v] = d.get(v, 0) + e
                    m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        r = self.reduce(r)
        if len(r) > self.cap:
            raise TooBig()
        return r

    def subst_of(self, v):
        """polynomial (num, den) that var^2 rewrites to, or None"""
        if v in self.redmemo:
            return self.redmemo[v]
        i = self.terms[v].get_id()
        r = None
        if i in self.trig:
            c = self.var(self.trig[i])
            r = ({(): Fraction(1), ((c, 2),): Fraction(-1)}, None)
        elif i in self.sqrts:
            self.redmemo[v] = None
            n, d = self.frac(self.sqrts[i])
            if d == {(): Fraction(1)}:
                r = (n, None)
        self.redmemo[v] = r
        return r

    def reduce(self, p):
        for _ in range(60):
            todo = None
            for m in p:
                for v, e in m:
                    if e >= 2 and self.subst_of(v) is not None:
                        todo = v
                        break
                if todo is not None:
                    break
            if todo is None:
                return p
            sub = self.subst_of(todo)[0]
            r = {}
            pieces = {}
            for m, c in p.items():
                e = dict(m).get(todo, 0)
                k = e // 2
                if k == 0:
                    r[m] = r.get(m, 0) + c
                    if r[m] == 0:
                        del r[m]
                else:
                    rest = tuple(sorted([(v, x) for v, x in m if v != todo] + ([(todo, e % 2)] if e % 2 else [])))
                    q = pieces.setdefault(k, {})
                    q[rest] = q.get(rest, 0) + c
            for k, q in pieces.items():
                q = {m: c for m, c in q.items() if c != 0}
                for _i in range(k):
                    q = self._rawmul(q, sub)
                r = self.padd(r, q)
            p = r
            if len(p) > self.cap:
                raise TooBig()
        raise TooBig()

    def _rawmul(self, a, b):
        r = {}
        if len(a) * len(b) > 40 * self.cap:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for v, e in m2:
                    d[v] = d.get(v, 0) + e
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def frac(self, t):
        """z3 term -> (num, den)"""
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._frac(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    ONE = {(): Fraction(1)}

    def _frac(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}), self.ONE
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}), self.ONE
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            acc = self.frac(ch[0])
            for c in ch[1:]:
                acc = self._fadd(acc, self.frac(c), 1 if k == z3.Z3_OP_ADD else -1)
            return acc
        if k == z3.Z3_OP_UMINUS:
            n, d = self.frac(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            acc = self.frac(ch[0])
            for c in ch[1:]:
                n, d = self.frac(c)
                acc = self._fmul(acc, (n, d))
            return acc
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.frac(ch[0])
            n2, d2 = self.frac(ch[1])
            if not n2:
                raise TooBig()
            return self._fmul((n1, d1), (d2, n2))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if e.denominator == 1 and 0 <= e <= 12:
                acc = (self.ONE, self.ONE)
                b = self.frac(ch[0])
                for _ in range(int(e)):
                    acc = self._fmul(acc, b)
                return acc
        if k == z3.Z3_OP_TO_REAL:
            inner = ch[0]
            if inner.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(inner):
                return self.frac(inner)
            return {((self.var(inner), 1),): Fraction(1)}, self.ONE
        return {((self.var(t), 1),): Fraction(1)}, self.ONE

    def _fadd(self, a, b, s):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.padd(n1, n2, s), d1
        if d1 == self.ONE:
            return self.padd(self.pmul(n1, d2), n2, s), d2
        if d2 == self.ONE:
            return self.padd(n1, self.pmul(n2, d1), s), d1
        return self.padd(self.pmul(n1, d2), self.pmul(n2, d1), s), self.pmul(d1, d2)

    def _fmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if n1 == d2 and n1:
            return n2, d1
        if n2 == d1 and n2:
            return n1, d2
        return self.pmul(n1, n2), (d1 if d2 == self.ONE else d2 if d1 == self.ONE else self.pmul(d1, d2))

    def to_z3(self, p):
        ts = []
        for m, c in p.items():
            fs = [z3.RatVal(c.numerator, c.denominator)]
            for v, e in m:
                t = self.terms[v]
                if t.is_int():
                    t = z3.ToReal(t)
                fs += [t] * e
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def diff(self, a, b):
        """polynomial that is zero iff a == b (denominators non-zero)"""
        n, d = self._fadd(self.frac(a), self.frac(b), -1)
        return self.reduce(n)
