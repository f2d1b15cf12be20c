from sv.prop import Prop
from sv import fakes
from .spectral import *
from .P36 import pdal, Records, camel, N

P = Prop('P37', bounds='text files of up to 4 complete records of arbitrary numbers (10 to 12 columns, several spacings, the two newline conventions) with up to two header, blank or incomplete lines (cut after any column, or with text in any column) at any place; stored-record files of 1 to 4 records and any of the quantities; every projection with and without a zone; a second file loaded into the same object; numbers with exponents and signs; up to 60 lines with mostly fixed numbers',
         assumptions=['decimal text parses back to the number it stands for', 'the binary record reader (pdal) returns the stored records'],
         outside='the binary decoding of pdal')
COLS = ['gps_time', 'easting', 'northing', 'height', 'omega', 'phi', 'kappa', 'lat', 'lon']
GETS = dict(gps_time=None, easting='get_world_xs', northing='get_world_ys', height='get_alts', omega='get_rolls', phi='get_pitches', kappa='get_headings')
SEPS = [' ', '\t', '    ']


def header(k):
    return ['POSPac export, mission 7', '', '# ID TIME E N H O P K LAT LONG', '      ', 'ID', '(sec) (m) (m) (m) (deg) (deg) (deg) (deg) (deg) (deg)', 'Grid: 18 zone'][k]


def table(cx, n, k=9):
    t0 = cx.real('t', 0, 604800)
    v = [[t0 + 0.5 * i] + [cx.real('v%d_%d' % (i, j), -10 ** 6, 10 ** 6) for j in range(1, k)] for i in range(n)]
    return v, [[cx.text(x) for x in r] for r in v]


def load(cx, text, args=('utm', '18', 'GRS80', 'NAD83')):
    fakes.use_pyproj(cx)
    pdal(cx, [], [])
    with Scratch() as d:
        return cx.mod(N + 'nav_factory').NavFactory.from_applanix_eo_file(put_text(d + '/a.txt', text), *args)


def check(cx, nav, v):
    n = len(v)
    cx.true(nav.get_num_records() == n, 'one record per complete line')
    t = cx.arr([r[0] for r in v])
    for k, g in GETS.items():
        if g:
            got = getattr(nav, g)(t)
            cx.true(got is not None and tuple(got.shape) == (n,), 'records at the times of the lines')
            cx.eq(vecof(got), [r[COLS.index(k)] for r in v], k)
    rec = nav.get_nav_records(t)
    for j, k in enumerate(COLS):
        cx.eq([rec[i][k] for i in range(n)], [r[j] for r in v], 'recorded ' + k)


@P.case(quick=[(2, 9), (3, 9), (2, 11)], thorough=[(5, 9)], budget=60)
def complete(cx):
    """header lines, blank lines, spacing and newlines do not matter"""
    n, k = cx.p
    v, t = table(cx, n, k)
    sep = cx.choice('separator', SEPS)
    nl = cx.choice('newline', ['\n', '\r\n'])
    nh = cx.choice('header lines', [0, 1, 7])
    lead = cx.choice('leading', ['', '  '])
    lines = [header(i) for i in range(nh)] + [lead + sep.join(['ev%d' % i] + r) for i, r in enumerate(t)]
    check(cx, load(cx, nl.join(lines) + nl), v)


@P.case(quick=[(60, 9, 0), (40, 11, 1), (25, 9, 2)])
def many(cx):
    """more lines, mostly fixed numbers, with broken lines in between"""
    n, k, style = cx.p
    m = mixed(cx, 'v', (n, k - 1), free=4, lo=-10 ** 5, hi=10 ** 5, seed=n)
    t0 = cx.real('t', 0, 604800)
    v = [[t0 + 0.5 * i] + [m[i, j] for j in range(k - 1)] for i in range(n)]
    t = [[cx.text(x) for x in r] for r in v]
    lines = [header(i) for i in range(7 - style)]
    for i, r in enumerate(t):
        lines.append(('  ' if style else '') + SEPS[style].join(['ev%d' % i] + r))
        if i % 7 == 3:
            lines.append('' if style else SEPS[style].join(['ev'] + r[:i % 9]))
    check(cx, load(cx, ('\r\n' if style else '\n').join(lines)), v)


@P.case(quick=[2, 3], thorough=[4], budget=120)
def incomplete(cx):
    """a line cut short, or with text in place of a number, contributes nothing"""
    n = cx.p
    v, t = table(cx, n)
    at = cx.choice('place', range(n + 1))
    cut = cx.choice('columns', range(10))
    kind = cx.choice('kind', ['cut', 'text', 'dash'])
    extra = [cx.text(cx.real('e%d' % j, -10 ** 6, 10 ** 6)) for j in range(9)]
    bad = ['bad'] + extra
    if kind == 'cut':
        bad = bad[:cut]
    else:
        bad[max(cut, 1)] = 'n/a' if kind == 'text' else '-'
    lines = [' '.join(['ev'] + r) for r in t]
    lines.insert(at, ' '.join(bad))
    check(cx, load(cx, '\n'.join(lines)), v)


@P.case(quick=[(0, 0, 1), (2, 0, 1), (2, 1, 0), (0, 0, 0)])
def any_times(cx):
    """lines are records whatever their times: repeated and going back"""
    v, t = table(cx, 3)
    for i, k in enumerate(cx.p):
        v[i][0], t[i][0] = float(500 + k), '%d.0' % (500 + k)
    nav = load(cx, '\n'.join(' '.join(['ev%d' % i] + r) for i, r in enumerate(t)) + '\n')
    cx.true(nav.get_num_records() == 3, 'one record per complete line')
    # times without an order can't be looked up: the columns themselves
    data = getattr(nav, '_nav_data', None)
    for j, k in enumerate(COLS):
        if isinstance(data, dict) and k in data:
            cx.eq(vecof(data[k]), [r[j] for r in v], 'column ' + k)


@P.case(quick=[0, 1], thorough=[0, 1])
def two_incomplete(cx):
    v, t = table(cx, 2)
    a, b = cx.choice('first', range(1, 10)), cx.choice('second', range(1, 10))
    bad = [['bad'] + [cx.text(cx.real('%s%d' % (s, j), -10 ** 6, 10 ** 6)) for j in range(9)] for s in 'ef']
    rows = [' '.join(['ev'] + r) for r in t]
    x, y = ' '.join(bad[0][:a]), ' '.join(bad[1][:b])
    lines = [x, rows[0], y, rows[1]] if cx.p else [rows[0], x, y, rows[1]]
    check(cx, load(cx, '\n'.join(lines)), v)


@P.case(quick=['eo', 'sbet'])
def projection(cx):
    """the projection named by the arguments, with a zone only when there is one"""
    proj = cx.choice('proj', ['utm', 'longlat'])
    zone = cx.choice('zone', ['18', '', None, 7])
    ellps = cx.choice('ellps', ['WGS84', 'GRS80'])
    datum = cx.choice('datum', ['WGS84', 'NAD83'])
    v, t = table(cx, 2)
    if cx.p == 'eo':
        nav = load(cx, '\n'.join(' '.join(['e'] + r) for r in t), (proj, zone, ellps, datum))
    else:
        fakes.use_pyproj(cx)
        pdal(cx, [Records(GpsTime=cx.arr([r[0] for r in v]))], [])
        nav = cx.mod(N + 'nav_factory').NavFactory.from_applanix_sbet_file('/a.sbet', proj, zone, ellps, datum)
    k = nav.get_projection().kwargs
    cx.true(k.get('proj') == proj and k.get('ellps') == ellps and k.get('datum') == datum, 'projection, ellipsoid and datum')
    cx.true(k.get('zone') == zone if zone else not k.get('zone'), 'zone')


QUANTITIES = ['GpsTime', 'Y', 'X', 'Z', 'XVelocity', 'Roll', 'Pitch', 'Azimuth', 'WanderAngle', 'XBodyAccel']
SNAKE = dict(GpsTime='gps_time', Y='y', X='x', Z='z', XVelocity='x_velocity', Roll='roll', Pitch='pitch', Azimuth='azimuth', WanderAngle='wander_angle', XBodyAccel='x_body_accel')
SG = dict(X='get_world_xs', Y='get_world_ys', Z='get_alts', Roll='get_rolls', Pitch='get_pitches', Azimuth='get_headings')


@P.case(quick=[2, 3, 4], thorough=[6])
def stored(cx):
    """stored records under the names of their quantities, whatever order the file keeps them in"""
    n = cx.p
    fakes.use_pyproj(cx)
    names = list(QUANTITIES)
    k = cx.choice('rotation', range(len(names)))
    names = names[k:] + names[:k]
    v = {q: [cx.real('%s%d' % (q, i), -10 ** 6, 10 ** 6) for i in range(n)] for q in QUANTITIES[1:]}
    t0 = cx.real('t', 0, 604800)
    v['GpsTime'] = [t0 + 0.5 * i for i in range(n)]
    seen = []
    pdal(cx, [Records((q, cx.arr(v[q])) for q in names)], seen)
    nav = cx.mod(N + 'nav_factory').NavFactory.from_applanix_sbet_file('/data/a.sbet', 'utm', '18', 'WGS84', 'WGS84')
    cx.true(nav.get_num_records() == n, 'number of records')
    cx.true(nav.get_record_length() == len(names), 'number of quantities')
    cx.true(len(seen) == 1 and '/data/a.sbet' in seen[0] and 'readers.sbet' in seen[0], 'the file is read as stored records')
    t = cx.arr(v['GpsTime'])
    for q, g in SG.items():
        cx.eq(vecof(getattr(nav, g)(t)), v[q], q)
    rec = nav.get_nav_records(t)
    for q, s in SNAKE.items():
        cx.eq([rec[i][s] for i in range(n)], v[q], 'recorded ' + q)


@P.case(quick=[(2, 3), (3, 2)])
def second_file(cx):
    """a file loaded later replaces what was loaded before, and other objects keep theirs"""
    n, m = cx.p
    fakes.use_pyproj(cx)
    pdal(cx, [], [])
    mod = cx.mod(N + 'applanix_eo_nav')
    cls = [c for k, c in vars(mod).items() if isinstance(c, type) and hasattr(c, 'load_from_file') and c.__module__ == mod.__name__][0]
    v, t = table(cx, n)
    w = [[cx.real('second%d_%d' % (i, j), -10 ** 6, 10 ** 6) for j in range(1, 9)] for i in range(m)]
    w = [[float(900000 + i)] + r for i, r in enumerate(w)]
    texts = ['\n'.join(' '.join(['ev'] + r) for r in t), '\n'.join(' '.join(['ev'] + [cx.text(x) for x in r]) for r in w)]
    with Scratch() as d:
        fs = [put_text('%s/%d.txt' % (d, i), s) for i, s in enumerate(texts)]
        a, b = cls(), cls()
        a.load_from_file(fs[0], 'utm', '18', 'GRS80', 'NAD83')
        b.load_from_file(fs[0], 'utm', '18', 'GRS80', 'NAD83')
        a.load_from_file(fs[1], 'utm', '18', 'GRS80', 'NAD83')
    check(cx, a, w)
    check(cx, b, v)


NOTATION = ['-1.0E-05', '2.5e+03', '+7.25', '.5', '-.125', '3.', '1E2', '-0', '0001.5', '1e-9']


@P.case(quick=[0, 3, 7])
def notations(cx):
    """numbers with exponents, signs, and no digits before or after the point"""
    k = cx.p
    v, t = table(cx, 2)
    for i in range(2):
        for j in range(1, 9):
            if (i + j + k) % 3:
                t[i][j] = NOTATION[(i * 4 + j + k) % len(NOTATION)]
                v[i][j] = float(t[i][j])
    check(cx, load(cx, '\n'.join(' '.join(['ev%d' % i] + r) for i, r in enumerate(t)) + '\n'), v)
