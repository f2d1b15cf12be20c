import random
import numpy
from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P36', bounds='2 to 4 records at arbitrary increasing times with arbitrary contents, up to four lookup times (scalar, list, table of any shape up to 2x3) anywhere, at record times and outside, both formats, every quantity; several questions in a row; 30 and 90 records at fixed times',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'record times are distinct'],
         outside='a single record, angles that wrap around between two records, more records at arbitrary times')
N = 'resippy.photogrammetry.nav.'
EO = dict(get_world_xs='easting', get_world_ys='northing', get_alts='height', get_rolls='omega', get_pitches='phi', get_headings='kappa')
SBET = dict(get_world_xs='x', get_world_ys='y', get_alts='z', get_rolls='roll', get_pitches='pitch', get_headings='azimuth')
MORE = {'eo': ['lat', 'lon'], 'sbet': ['wander_angle', 'x_velocity']}
GET = {'eo': EO, 'sbet': SBET}


class Dtype:
    def __init__(self, names):
        self.names = tuple(names)


class Records(dict):
    """a structured array"""
    @property
    def dtype(self):
        return Dtype(self)

    def __len__(self):
        return len(next(iter(self.values())))


def pdal(cx, arrays, seen):
    class Pipeline:
        def __init__(self, spec):
            seen.append(spec)

        def validate(self):
            return True

        def execute(self):
            return len(arrays[0])

        @property
        def arrays(self):
            return arrays
    cx.fake('pdal', fakes.Namespace('pdal', Pipeline=Pipeline))


def camel(n):
    return ''.join(w.capitalize() for w in n.split('_'))


def nav_of(cx, fmt, cols, seen=None, args=('utm', '18', 'WGS84', 'WGS84')):
    """a navigation file of these columns, loaded"""
    fakes.use_pyproj(cx)
    n = len(cols['gps_time'])
    if fmt == 'sbet':
        raw = Records((camel(k), cx.arr(v)) for k, v in cols.items())
        pdal(cx, [raw], [] if seen is None else seen)
        return cx.mod(N + 'nav_factory').NavFactory.from_applanix_sbet_file('/x.sbet', *args)
    pdal(cx, [], [])
    order = ['gps_time', 'easting', 'northing', 'height', 'omega', 'phi', 'kappa', 'lat', 'lon']
    with Scratch() as d:
        f = put_text(d + '/eo.txt', 'head\n\n' + ''.join('id%d %s\n' % (i, ' '.join(cx.text(cols[k][i]) for k in order)) for i in range(n)))
        return cx.mod(N + 'nav_factory').NavFactory.from_applanix_eo_file(f, *args)


def columns(cx, fmt, n, keys=None):
    t = [cx.real('t0', 0, 604800)]
    for i in range(1, n):
        t.append(cx.real('t%d' % i, 0, 604800))
        cx.assume(t[i] - t[i - 1] > 0.0001)
    cols = {'gps_time': t}
    for k in list(GET[fmt].values()) + MORE[fmt]:
        cols[k] = [cx.real('%s%d' % (k, i), -10 ** 6, 10 ** 6) for i in range(n)] if keys is None or k in keys else [float(100 * i + len(k)) for i in range(n)]
    return cols


def between(t, v, x):
    """forks on the interval"""
    for i in range(len(t) - 1):
        if x <= t[i + 1]:
            return v[i] + (v[i + 1] - v[i]) * (x - t[i]) / (t[i + 1] - t[i])
    return v[-1]


@P.case(quick=[(f, g, n) for f in GET for g in EO for n in (2, 3)], thorough=[(f, g, 5) for f in GET for g in EO], budget=60)
def interpolated(cx):
    """two arbitrary times inside the span, in any order"""
    fmt, get, n = cx.p
    key = GET[fmt][get]
    cols = columns(cx, fmt, n, [key])
    nav = nav_of(cx, fmt, cols)
    t, v = cols['gps_time'], cols[key]
    x = [cx.real('x%d' % i, 0, 604800) for i in range(2)]
    for q in x:
        cx.assume(q >= t[0])
        cx.assume(q <= t[-1])
    want = [between(t, v, q) for q in x]
    got = getattr(nav, get)(cx.arr(x))
    cx.true(got is not None and tuple(got.shape) == (2,), 'one value per time')
    cx.eq(vecof(got), want, 'interpolation')
    cx.eq(getattr(nav, get)(x[0]), want[0], 'scalar time')


@P.case(quick=[(f, n) for f in GET for n in (30, 90)])
def many_records(cx):
    """many records at fixed times, arbitrary values here and there, times in no order"""
    fmt, n = cx.p
    r = random.Random(n)
    cols = {k: [float(100 * i + len(k)) for i in range(n)] for k in list(GET[fmt].values()) + MORE[fmt]}
    cols['gps_time'] = [1000.0 + 0.5 * i for i in range(n)]
    for g in EO:
        cols[GET[fmt][g]] = vecof(mixed(cx, g[4:], (n,), 'float64', 4, -10 ** 6, 10 ** 6, seed=len(g)))
    nav = nav_of(cx, fmt, cols)
    at = [r.randrange(0, (n - 1) * 8) for _ in range(24)] + [0, (n - 1) * 8]
    t = [1000.0 + k / 16 for k in at]
    for g in EO:
        v = cols[GET[fmt][g]]
        got = getattr(nav, g)(numpy.array(t).reshape(13, 2))
        cx.true(got is not None and tuple(got.shape) == (13, 2), 'one value per time')
        cx.eq([got[i, j] for i in range(13) for j in range(2)], [between(cols['gps_time'], v, x) for x in t], 'interpolation')
        cx.true(getattr(nav, g)(numpy.array(t + [999.0])) is None and getattr(nav, g)(1000.0 + 0.5 * n) is None, 'outside the span')


@P.case(quick=[(f, g) for f in GET for g in EO], thorough=[(f, g) for f in GET for g in EO])
def at_records(cx):
    """exactly the record at every record time; results have the shape of the times"""
    fmt, get = cx.p
    key = GET[fmt][get]
    cols = columns(cx, fmt, 3, [key])
    nav = nav_of(cx, fmt, cols)
    t, v = cols['gps_time'], cols[key]
    f = getattr(nav, get)
    cx.eq(vecof(f(cx.arr(t))), v, 'at every record')
    for i in range(3):
        g = f(t[i])
        cx.true(not hasattr(g, 'shape') or tuple(g.shape) == (), 'scalar result')
        cx.eq(g, v[i], 'at one record')
    g = f(cx.arr([[t[2], t[0], t[1]], [t[1], t[1], t[2]]]))
    cx.true(tuple(g.shape) == (2, 3), 'table of results')
    cx.eq([[g[i, j] for j in range(3)] for i in range(2)], [[v[2], v[0], v[1]], [v[1], v[1], v[2]]], 'table of times')
    g = f(cx.arr([[t[1]], [t[0]], [t[2]]]))
    cx.true(tuple(g.shape) == (3, 1), 'column of results')
    cx.eq([g[i, 0] for i in range(3)], [v[1], v[0], v[2]], 'column of times')
    g = f(cx.arr([[t[1], t[0]], [t[2], t[1]]]))
    cx.true(tuple(g.shape) == (2, 2), 'square of results')
    cx.eq([[g[i, j] for j in range(2)] for i in range(2)], [[v[1], v[0]], [v[2], v[1]]], 'square of times')
    g = f(cx.arr([t[2]]))
    cx.true(tuple(g.shape) == (1,), 'list of one result')


@P.case(quick=[(f, g) for f in GET for g in list(EO) + ['get_nav_records']])
def outside(cx):
    """a time outside the span gives no result, alone or among others"""
    fmt, get = cx.p
    cols = columns(cx, fmt, 2, [])
    nav = nav_of(cx, fmt, cols)
    t = cols['gps_time']
    x = cx.real('x', -1000, 10 ** 6)
    cx.assume(cx.Or(x < t[0], x > t[-1]))
    f = getattr(nav, get)
    cx.true(f(x) is None, 'scalar time')
    cx.true(f(cx.arr([t[0], x])) is None, 'among others')
    cx.true(f(cx.arr([[x, t[1]], [t[0], t[0]]])) is None, 'in a table')


@P.case(quick=[('eo', 2), ('sbet', 2), ('eo', 3), ('sbet', 3)], thorough=[('eo', 4), ('sbet', 4)], budget=60)
def records(cx):
    """whole records: every quantity interpolated under its own name"""
    fmt, n = cx.p
    cols = columns(cx, fmt, n)
    nav = nav_of(cx, fmt, cols)
    t = cols['gps_time']
    x = cx.real('x', 0, 604800)
    cx.assume(x >= t[0])
    cx.assume(x <= t[-1])
    want = {k: between(t, v, x) for k, v in cols.items()}

    def check(r):
        cx.true(sorted(r) == sorted(want), 'every quantity')
        for k in want:
            cx.eq(r[k], want[k], k)
    check(nav.get_nav_records(x))
    r = nav.get_nav_records(cx.arr([t[0], x, t[-1]]))
    cx.true(tuple(r.shape) == (3,), 'one record per time')
    check(r[1])
    for k in cols:
        cx.eq([r[0][k], r[2][k]], [cols[k][0], cols[k][-1]], 'first and last record')
    r = nav.get_nav_records(cx.arr([[t[0]], [x]]))
    cx.true(tuple(r.shape) == (2, 1), 'table of records')
    check(r[1, 0])


@P.case(quick=[(f, g) for f in GET for g in EO])
def again(cx):
    """each question is answered on its own, whatever was asked before; a single row of times gives a single row"""
    fmt, get = cx.p
    key = GET[fmt][get]
    cols = columns(cx, fmt, 3, [key])
    nav = nav_of(cx, fmt, cols)
    t, v = cols['gps_time'], cols[key]
    x = cx.real('x', 0, 604800)
    cx.assume(x >= t[0])
    cx.assume(x <= t[-1])
    w = between(t, v, x)
    f = getattr(nav, get)
    cx.eq(vecof(f(cx.arr([t[1], t[0], x]))), [v[1], v[0], w], 'first question')
    cx.eq(vecof(f(cx.arr([t[1], t[2], t[2]]))), [v[1], v[2], v[2]], 'other times, the same at first')
    cx.eq(vecof(f(cx.arr([t[0], t[2], x]))), [v[0], v[2], w], 'other times, the same at last')
    g = f(cx.arr([[t[2], x, t[0], t[1]]]))
    cx.true(tuple(g.shape) == (1, 4), 'row of results')
    cx.eq([g[0, j] for j in range(4)], [v[2], w, v[0], v[1]], 'row of times')
    g = f(cx.arr([[x]]))
    cx.true(tuple(g.shape) == (1, 1), 'table of one result')
    cx.eq(g[0, 0], w, 'table of one time')
    cx.true(f(cx.arr([t[1], t[2], t[2] + 1])) is None, 'outside after inside')
    cx.eq(f(x), w, 'inside after outside')
