"""plain reference mathematics shared by the harnesses (written from the property statements, not from the code)"""


def mul(a, b):
    return [[sum0([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def sum0(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def vec(m, v):
    return [sum0([m[i][k] * v[k] for k in range(len(v))]) for i in range(len(m))]


def tr(m):
    return [list(r) for r in zip(*m)]


def axis(cx, which, a):
    c, s = cx.cos(a), cx.sin(a)
    if which == 'r':
        return [[1, 0, 0], [0, c, s], [0, -s, c]]
    if which == 'p':
        return [[c, 0, -s], [0, 1, 0], [s, 0, c]]
    return [[c, s, 0], [-s, c, 0], [0, 0, 1]]


ID3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
ORDERS = ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr']


def rotation(cx, order, r, p, y):
    ang = {'r': r, 'p': p, 'y': y}
    m = ID3
    for w in order:
        m = mul(axis(cx, w, ang[w]), m)
    return m


def det3(m):
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) \
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])


def rows(m, n=3):
    return [[m[i, j] for j in range(n)] for i in range(n)]


def rand_like(cx, name, n, m, lo=None, hi=None):
    return [[cx.real('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]


class Scratch:
    """a directory for the files of one run"""
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix='sv')
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d)


def put_text(fname, text):
    import os
    os.makedirs(os.path.dirname(fname), exist_ok=True)
    with open(fname, 'wb') as f:
        f.write(text.encode())
    return fname


def utm_definition(proj):
    """(zone, south) a (stand-in) UTM projection was defined with"""
    k = dict(proj.kwargs)
    for a in proj.args:
        if isinstance(a, dict):
            k.update(a)
        elif isinstance(a, int):
            k['init'] = 'epsg:%d' % a
        else:
            for t in str(a).split():
                n, _, v = t.partition('=')
                if n.lower().startswith('epsg'):
                    k['init'] = n
                else:
                    k[n.lstrip('+')] = v or True
    code = str(k.get('init', '')).lower()
    if code.startswith('epsg:32'):
        n = int(code[5:])
        return (n - 32600, False) if n < 32700 else (n - 32700, True)
    if k.get('proj') != 'utm':
        return None, None
    z = k.get('zone')
    if isinstance(z, str):
        z = int(z) if z.isdigit() else None
    return z, k.get('south', False)


def mixed(cx, name, shape, dtype='float64', free=2, lo=-100, hi=100, seed=1):
    """a larger array: fixed pseudo-random numbers, arbitrary at a few places (the last one included)"""
    import random
    import numpy
    r = random.Random(seed)
    n = int(numpy.prod(shape))
    if dtype.startswith('u'):
        lo = max(lo, 0)
    v = [r.randint(lo, hi) + (0.0 if 'int' in dtype else r.randint(0, 7) / 8.0) for _ in range(n)]
    if 'int' in dtype:
        v = [int(x) for x in v]
    at = [n - 1] + r.sample(range(n - 1), min(free, n) - 1)
    for k, i in enumerate(at):
        v[i] = cx.int('%s%d' % (name, k), lo, hi) if 'int' in dtype else cx.real('%s%d' % (name, k), lo, hi)
    a = numpy.empty(n, dtype=object)
    a[:] = v
    return cx.arr(a.reshape(shape).tolist(), dtype)
