"""Text with arbitrary characters: a list of characters, each a concrete one-character str or the code of an arbitrary one (SymInt).
Lengths are concrete (the harness enumerates them); comparisons with characters fork."""
from . import terms as T
from .terms import SymInt, Unsupported, land, lnot

SPACES = [c for c in map(chr, range(0x3001)) if c.isspace()]
BREAKS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def same(a, b):
    """equality of two characters"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return (ord(a) if isinstance(a, str) else a) == (ord(b) if isinstance(b, str) else b)


def items(x):
    if isinstance(x, SymStr):
        return x.cs
    if isinstance(x, str):
        return list(x)
    raise TypeError('must be str, not %s' % type(x).__name__)


def make(cs):
    return ''.join(cs) if all(isinstance(c, str) for c in cs) else SymStr(cs)


def among(c, chars):
    return c in chars if isinstance(c, str) else bool(T.lor(*[c == ord(k) for k in chars]))


class SymStr:
    def __init__(self, cs):
        self.cs = list(cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        return (make([c]) for c in self.cs)

    def __getitem__(self, k):
        return make(self.cs[k] if isinstance(k, slice) else [self.cs[k]])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(self.cs + items(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(list(o) + self.cs)

    def __mul__(self, n):
        return make(self.cs * n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        o = items(o)
        if len(o) != len(self.cs):
            return False
        r = land(*[same(a, b) for a, b in zip(self.cs, o)])
        return r

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        o = items(o)
        for a, b in zip(self.cs, o):
            if bool(same(a, b)):
                continue
            return bool((ord(a) if isinstance(a, str) else a) < (ord(b) if isinstance(b, str) else b))
        return len(self.cs) < len(o)

    def __gt__(self, o):
        return not self < o and not bool(self == o)

    def __le__(self, o):
        return bool(self == o) or self < o

    def __ge__(self, o):
        return not self < o

    def __hash__(self):
        raise Unsupported('hash of arbitrary text')

    def __str__(self):
        raise Unsupported('formatting of arbitrary text')
    __format__ = lambda self, spec: self.__str__()

    def __repr__(self):
        return 'SymStr(%d)' % len(self.cs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr('', n):
            raise Unsupported('str.%s of arbitrary text' % n)
        raise AttributeError("'str' object has no attribute %r" % n)

    def at(self, i, sub):
        """forks: does sub occur at i"""
        if i < 0 or i + len(sub) > len(self.cs):
            return False
        return all(bool(same(a, b)) for a, b in zip(self.cs[i:i + len(sub)], sub))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def find(self, sub, start=0, end=None):
        sub = items(sub)
        end = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(start, end - len(sub) + 1):
            if self.at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = items(sub)
        end = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(end - len(sub), start - 1, -1):
            if self.at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def startswith(self, p, start=0):
        return any(self.at(start, items(k)) for k in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p):
        return any(self.at(len(self.cs) - len(k), items(k)) for k in (p if isinstance(p, tuple) else (p,)))

    def count(self, sub):
        return len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        out, cur, i, n = [], [], 0, 0
        if sep is None:
            cs = self.cs
            while i < len(cs):
                if among(cs[i], SPACES):
                    if cur:
                        out.append(make(cur))
                        cur = []
                    i += 1
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        rest = make(cs[i:])
                        rest = rest.strip() if isinstance(rest, str) else rest.lstrip()
                        return out + ([rest] if rest else [])
                else:
                    cur.append(cs[i])
                    i += 1
            return out + ([make(cur)] if cur else [])
        sep = items(sep)
        if not sep:
            raise ValueError('empty separator')
        while i < len(self.cs):
            if (maxsplit < 0 or n < maxsplit) and self.at(i, sep):
                out.append(make(cur))
                cur, n = [], n + 1
                i += len(sep)
            else:
                cur.append(self.cs[i])
                i += 1
        return out + [make(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        raise Unsupported('rsplit of arbitrary text')

    def partition(self, sep):
        i = self.find(sep)
        return (make(self.cs), '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        old, new = items(old), items(new)
        if not old:
            raise Unsupported('replacing the empty text')
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and self.at(i, old):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return make(out)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        while i < len(self.cs):
            c = self.cs[i]
            if among(c, BREAKS):
                end = [c]
                if bool(same(c, '\r')) and self.at(i + 1, ['\n']):
                    end.append(self.cs[i + 1])
                out.append(make(cur + (end if keepends else [])))
                cur = []
                i += len(end)
            else:
                cur.append(c)
                i += 1
        return out + ([make(cur)] if cur else [])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and among(self.cs[i], SPACES if chars is None else items(chars)):
            i += 1
        return make(self.cs[i:])

    def rstrip(self, chars=None):
        i = len(self.cs)
        while i and among(self.cs[i - 1], SPACES if chars is None else items(chars)):
            i -= 1
        return make(self.cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removesuffix(self, s):
        return self[:len(self) - len(s)] if s and self.endswith(s) else self[:]

    def removeprefix(self, s):
        return self[len(s):] if self.startswith(s) else self[:]

    def lower(self):
        return make([x for c in self.cs for x in recase(c, 'lower')])

    def upper(self):
        return make([x for c in self.cs for x in recase(c, 'upper')])

    def casefold(self):
        return make([x for c in self.cs for x in recase(c, 'casefold')])

    def join(self, xs):
        return join(self, xs)

    def translate(self, table):
        out = []
        for c in self.cs:
            r = [c]
            for k, v in table.items():
                if bool(same(c, chr(k) if isinstance(k, int) else k)):
                    r = [] if v is None else [chr(v)] if isinstance(v, int) else items(v)
                    break
            out += r
        return make(out)


_runs = {}


def case_runs(how):
    """(first, last, step, shift) runs of characters that change into one other character, and the characters that change otherwise"""
    if how not in _runs:
        one, odd = {}, []
        for k in range(0x3000):
            r = getattr(chr(k), how)()
            if len(r) != 1 or (k == 0x3a3 and how == 'lower'):
                odd.append(k)
            elif ord(r) != k:
                one[k] = ord(r) - k
        out, left = [], sorted(one)
        while left:
            a = left[0]
            best = max(([k for k in range(a, 0x3000, s)] for s in (1, 2)), key=lambda r: run(one, r, one[a]))
            n = run(one, best, one[a])
            s = best[1] - best[0]
            out.append((a, a + s * (n - 1), s if n > 1 else 1, one[a]))
            gone = set(best[:n])
            left = [k for k in left if k not in gone]
        _runs[how] = (out, odd)
    return _runs[how]


def run(one, ks, shift):
    n = 0
    for k in ks:
        if one.get(k) != shift:
            break
        n += 1
    return n


def recase(c, how):
    if isinstance(c, str):
        return list(getattr(c, how)())
    runs, odd = case_runs(how)
    if bool(c < 128):
        return [T.ite(land(c >= 97, c <= 122) if how == 'upper' else land(c >= 65, c <= 90), c + (-32 if how == 'upper' else 32), c)]
    if bool(c >= 0x3000):
        raise Unsupported('letter case above U+2FFF')
    if odd and bool(T.lor(*[c == k for k in odd])):
        for k in odd:
            if k != 0x3a3 and bool(c == k):
                return list(getattr(chr(k), how)())
        raise Unsupported('letter case of a final sigma')
    r = c
    for a, b, s, shift in runs:
        inside = land(c >= a, c <= b) if s == 1 else land(c >= a, c <= b, (c - a) % 2 == 0)
        r = T.ite(inside, c + shift, r)
    return [r]


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        out += (items(sep) if i else []) + items(x)
    return make(out)


def sv_join(o, *a, **k):
    if isinstance(o, (str, SymStr)) and len(a) == 1 and not k:
        xs = list(a[0])
        if isinstance(o, SymStr) or any(isinstance(x, SymStr) for x in xs):
            return join(o, xs)
        return o.join(xs)
    return o.join(*a, **k)


def sv_fstr(*parts):
    """parts of a formatted string: text, or (value, conversion, spec)"""
    if not any(isinstance(p, tuple) and isinstance(p[0], SymStr) for p in parts):
        return ''.join(p if isinstance(p, str) else format({'s': str, 'r': repr, 'a': ascii}[p[1]](p[0]) if p[1] else p[0], p[2]) for p in parts)
    out = []
    for p in parts:
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p[0], SymStr) and p[1] in ('', 's') and not p[2]:
            out += p[0].cs
        else:
            out += items(format(p[0], p[2]))
    return make(out)


def sv_mod(fmt, args):
    """'...' % args"""
    xs = args if isinstance(args, tuple) else (args,)
    if isinstance(fmt, bytes) or isinstance(args, dict) or not any(T.is_sym(x) or isinstance(x, SymStr) for x in xs):
        return fmt % args
    import re
    out, n = [], 0
    for m in re.finditer(r'%([-+ 0#]*)(\d*)(\.\d+)?([diuoxXeEfFgGcrsa%])|([^%]+)|%', fmt):
        if m.group(5) is not None:
            out += list(m.group(5))
        elif m.group(4) == '%':
            out.append('%')
        elif m.group(4) is None or n >= len(xs):
            raise Unsupported('format %r' % fmt)
        else:
            x = xs[n]
            n += 1
            if not T.is_sym(x) and not isinstance(x, SymStr):
                out += list(m.group(0) % x)
            elif isinstance(x, SymStr) and m.group(0) == '%s':
                out += x.cs
            elif isinstance(x, SymStr):
                raise Unsupported('format %r of a symbolic text' % m.group(0))
            elif m.group(4) in 'eEfFgG':
                out += list(format(x, m.group(2) + (m.group(3) or '') + m.group(4)))
            elif m.group(4) in 'sra' and not m.group(3):
                out += list(format(x, ''))
            elif m.group(4) in 'diu' and isinstance(x, T.SymInt):
                out += list(format(x, ''))
            else:
                raise Unsupported('format %r of a symbolic value' % m.group(0))
    if n != len(xs):
        raise TypeError('not all arguments converted during string formatting')
    return make(out)


class TextFile:
    """a text file held in memory, with the newline translation of Python text files"""
    def __init__(self, store, name, mode, newline=None):
        self.store, self.name, self.mode, self.newline = store, name, mode, newline
        if 'b' in mode or '+' in mode:
            raise Unsupported('mode %s of a text file' % mode)
        if 'w' in mode or 'x' in mode or 'a' in mode:
            if 'a' not in mode:
                store[name] = []
            store.setdefault(name, [])
        elif name not in store:
            raise FileNotFoundError(name)
        else:
            cs = store[name]
            if newline is None:
                out, i = [], 0
                while i < len(cs):
                    if bool(same(cs[i], '\r')):
                        out.append('\n')
                        i += 2 if i + 1 < len(cs) and bool(same(cs[i + 1], '\n')) else 1
                    else:
                        out.append(cs[i])
                        i += 1
                cs = out
            elif newline not in ('', '\n'):
                raise Unsupported('newline=%r' % newline)
            self.cs, self.pos = cs, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass
    flush = close

    def write(self, x):
        cs = items(x)
        if self.newline not in (None, '', '\n'):
            raise Unsupported('newline=%r' % self.newline)
        self.store[self.name] += cs
        return len(cs)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, *a):
        if a:
            raise Unsupported('partial read')
        r, self.pos = make(self.cs[self.pos:]), len(self.cs)
        return r

    def readline(self):
        i = self.pos
        while i < len(self.cs):
            i += 1
            if bool(same(self.cs[i - 1], '\n')) or self.newline == '' and bool(same(self.cs[i - 1], '\r')) and not (i < len(self.cs) and bool(same(self.cs[i], '\n'))):
                break
        r, self.pos = make(self.cs[self.pos:i]), i
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l
