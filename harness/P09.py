import random
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P09', bounds='coordinate arrays of 2x3, 2x4 and 3x3 pixels with arbitrary real coordinates, one or two query positions at least 1/64 away from every pixel or exactly on a pixel whose neighbours are at least one unit away; pixel spacings from 1e-5 to 30 units; float32 and integer coordinate arrays; number and array altitudes; a sample of neighbour orderings per shape',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'scipy cKDTree.query returns the k nearest points in order of distance (each harness run fixes one ordering and covers every coordinate array with it)'],
         outside='neighbour orderings not listed, larger images, positions within 1/64 of a pixel without being on it, rounding error')
MOD = 'resippy.image_objects.earth_overhead.igm.igm_image'
PERMS = {(2, 3): [(0, 1, 2, 3, 4, 5), (5, 3, 1, 0, 2, 4), (4, 2, 0, 5, 1, 3)], (2, 4): [(7, 2, 5, 0, 3, 1), (0, 1, 2, 3, 4, 5), (2, 3, 6, 7, 1, 5)], (3, 3): [(4, 8, 3, 6, 0, 2), (8, 7, 6, 5, 4, 3), (1, 0, 2, 4, 3, 5)]}


def more(n):
    r = random.Random(9)
    out = []
    for s in PERMS:
        for _ in range(n):
            out.append((s, (tuple(r.sample(range(s[0] * s[1]), 6)),), 1))
    return out


def make(cx, shape, alt):
    fakes.use_pyproj(cx)
    lons, lats = cx.array('lon', shape, nice=(-8, 8)), cx.array('lat', shape, nice=(-8, 8))
    proj = cx.mod('pyproj').Proj('native')
    data = cx.array('data', shape + (4,), nice=(-8, 8))
    img = cx.mod(MOD).IgmImage.from_params(data, lons, lats, alt, 4, proj)
    return img, img.point_calc, lons, lats, data, proj


@P.case(quick=[(s, (p,), 0) for s in PERMS for p in PERMS[s][:2]] + [((2, 4), (PERMS[2, 4][0], PERMS[2, 4][2]), 2)],
        thorough=[(s, (p,), 0) for s in PERMS for p in PERMS[s]] + [((2, 4), (PERMS[2, 4][0], PERMS[2, 4][2]), 2), ((3, 3), (PERMS[3, 3][0], PERMS[3, 3][2]), 2)] + more(12))
def locate(cx):
    shape, perms, n = cx.p
    fakes.use_kdtree(cx, perms)
    img, calc, lons, lats, data, proj = make(cx, shape, 0.0)
    if n == 2:
        qx, qy = cx.array('qx', 2, nice=(-8, 8)), cx.array('qy', 2, nice=(-8, 8))
        q = [(qx[0], qy[0]), (qx[1], qy[1])]
    else:
        qx, qy = cx.real('qx', nice=(-8, 8)), cx.real('qy', nice=(-8, 8))
        q = [(qx, qy)]
    cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    exp = []
    for (a, b), p in zip(q, perms):
        d = [cx.sqrt((a - lons[c]) * (a - lons[c]) + (b - lats[c]) * (b - lats[c])) for c in cells]
        for x in d:
            cx.assume(x >= 0.015625)
        for u, v in zip(p[:5], p[1:6]):
            cx.assume(d[u] <= d[v])
        for v in set(range(len(cells))) - set(p):
            cx.assume(d[p[5]] <= d[v])
        w = sum0([1 / d[k] for k in p])
        exp.append((sum0([cells[k][1] / d[k] for k in p]) / w, sum0([cells[k][0] / d[k] for k in p]) / w))
    if n == 2:       # a sample point for the vacuity check: a pixel that is k-th for both queries lies at distances 1+k from both
        cx.witness = {'qx[0]': -4.0, 'qy[0]': 0.0, 'qx[1]': 4.0, 'qy[1]': 0.0}
        for k, c in enumerate(cells):
            r = [(p.index(k) if k in p else 6 + k) / 8.0 + 4.0 for p in perms]
            x = (r[0] * r[0] - r[1] * r[1]) / 16.0
            cx.witness['lon[%d,%d]' % c] = x
            cx.witness['lat[%d,%d]' % c] = round(max(r[0] * r[0] - (x + 4) * (x + 4), 0.0) ** 0.5, 6)
    x, y = calc.lon_lat_alt_to_pixel_x_y(qx, qy, 0)
    if n != 2:
        x, y = [x], [y]
    cx.eq(x, [e[0] for e in exp], 'mean column', rtol=1e-4, atol=1e-4)
    cx.eq(y, [e[1] for e in exp], 'mean row', rtol=1e-4, atol=1e-4)


@P.case(quick=[1e-5, 0.001, 30.0])
def spacing(cx):
    """a position among pixels of any spacing, metres apart in degrees as well as tens of metres apart"""
    h = cx.p
    fakes.use_kdtree(cx, [(4, 5, 1, 3, 2, 0)])
    fakes.use_pyproj(cx)
    proj = cx.mod('pyproj').Proj('native')
    lons = cx.arr([[10.0 + h * c for c in range(3)] for r in range(2)])
    lats = cx.arr([[50.0 - h * r for c in range(3)] for r in range(2)])
    calc = cx.mod(MOD).IgmImage.from_params(cx.array('data', (2, 3, 1), nice=(-8, 8)), lons, lats, 0.0, 1, proj).point_calc
    s = cx.real('s', 0.25, 0.75)
    qx, qy = lons[1, 1] + 0.25 * h * s, lats[1, 1] + 0.125 * h * s
    inv = {}
    for r in range(2):
        for c in range(3):
            a, b = qx - lons[r, c], qy - lats[r, c]
            inv[r, c] = 1 / cx.sqrt(a * a + b * b)
    w = sum0(list(inv.values()))
    x, y = calc.lon_lat_alt_to_pixel_x_y(qx, qy, 0)
    cx.eq(x, sum0([k[1] * v for k, v in inv.items()]) / w, 'mean column', rtol=1e-4, atol=1e-4)
    cx.eq(y, sum0([k[0] * v for k, v in inv.items()]) / w, 'mean row', rtol=1e-4, atol=1e-4)


@P.case(quick=[((2, 3), (4, 2, 0, 5, 1, 3)), ((2, 4), (7, 2, 5, 0, 3, 1)), ((3, 3), (3, 8, 4, 6, 0, 2))])
def stored(cx):
    """a stored pixel position is located at that pixel"""
    shape, perm = cx.p
    fakes.use_kdtree(cx, [perm])
    img, calc, lons, lats, data, proj = make(cx, shape, 0.0)
    cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    k = perm[0]
    for j, c in enumerate(cells):
        if j != k:
            cx.assume(cx.Or(lons[c] - lons[cells[k]] >= 1, lons[c] - lons[cells[k]] <= -1))
    d = [(lons[c] - lons[cells[k]]) * (lons[c] - lons[cells[k]]) + (lats[c] - lats[cells[k]]) * (lats[c] - lats[cells[k]]) for c in cells]
    for u, v in zip(perm[:5], perm[1:6]):
        cx.assume(d[u] <= d[v])
    for v in set(range(len(cells))) - set(perm):
        cx.assume(d[perm[5]] <= d[v])
    x, y = calc.lon_lat_alt_to_pixel_x_y(lons[cells[k]], lats[cells[k]], 0)
    cx.true(cx.And(x - cells[k][1] <= 1e-6, cells[k][1] - x <= 1e-6), 'column of a stored position')
    cx.true(cx.And(y - cells[k][0] <= 1e-6, cells[k][0] - y <= 1e-6), 'row of a stored position')


@P.case(quick=['float32', 'int32'])
def short_types(cx):
    """positions kept with fewer digits than the altitudes"""
    fakes.use_pyproj(cx)
    lons, lats = [cx.array(n, (2, 3), dtype=cx.p, lo=-180, hi=180) for n in ('lon', 'lat')]
    alt = cx.array('alt', (2, 3), nice=(-8, 8))
    proj = cx.mod('pyproj').Proj('native')
    calc = cx.mod('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc').IGMPointCalc(lons, lats, alt, proj)
    cx.eq(calc.alt_image, alt, 'altitudes', rtol=1e-12, atol=1e-12)
    cx.eq([calc.lon_image + 0.0, calc.lat_image + 0.0], [lons + 0.0, lats + 0.0], 'positions')
    r, c = cx.choice('row', range(2)), cx.choice('col', range(3))
    lon, lat = calc.pixel_x_y_alt_to_lon_lat(c, r, 0)
    cx.eq([lon + 0.0, lat + 0.0], [lons[r, c] + 0.0, lats[r, c] + 0.0], 'position of a pixel')


@P.case(quick=['number', 'int', 'array', 'intlon', 'alone'])
def lookup(cx):
    import numpy as np
    shape = (2, 5)
    alt = cx.array('alt', shape) if cx.p in ('array', 'intlon') else (cx.int('alt') if cx.p == 'int' else cx.real('alt'))
    img, calc, lons, lats, data, proj = make(cx, shape, alt)
    if cx.p == 'alone':
        calc = cx.mod('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc').IGMPointCalc(lons, lats, alt, proj)
    cx.eq(calc.lon_image, lons, 'longitudes')
    cx.eq(calc.lat_image, lats, 'latitudes')
    cx.eq(calc.alt_image, alt if cx.p in ('array', 'intlon') else [[alt] * 5] * 2, 'altitudes')
    cx.true(calc.get_projection() is proj, 'projection')
    r, c = cx.int('row', 0, 1), cx.int('col', 0, 4)
    lon, lat = calc.pixel_x_y_alt_to_lon_lat(c, r, 0)
    cx.eq([lon, lat], [cx.sel([cx.sel(list(a[i]), c) for i in range(2)], r) for a in (lons, lats)], 'position of a pixel')
    px, py = np.array([4, 0, 1]), np.array([0, 1, 1])
    lon, lat = calc.pixel_x_y_alt_to_lon_lat(px, py, 0)
    cx.eq(lon, [lons[0, 4], lons[1, 0], lons[1, 1]], 'longitudes of pixels')
    cx.eq(lat, [lats[0, 4], lats[1, 0], lats[1, 1]], 'latitudes of pixels')
    cx.eq(calc.get_approximate_lon_lat_center(), [lons[1, 2], lats[1, 2]], 'centre')
    cx.eq(img.get_image_data(), data, 'image data')
    m = img.get_metadata()
    cx.true((m.get_npix_x(), m.get_npix_y(), m.get_n_bands()) == (5, 2, 4), 'size')
    cx.true(calc.bands_coregistered(), 'co-registered')
    cx.true(cx.p == 'alone' or img.get_point_calculator() is calc, 'point calculator of the image')
