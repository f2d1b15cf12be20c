import itertools
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P12', bounds='one to four pixels in 1-D and 2-D (1x2, 2x1, 2x2) arrays, every straight ray (vertical included) per pixel; flat elevation models of every height; sloped planes of every slope within the height range, with 1 to 4 steps per ray; arbitrary heights at each sampled position for fixed oblique rays with up to 6 steps; many pixels with fixed rays on one sloped plane; heights of the range given or taken from the model; native and another projection, any band',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the elevation model lies within its stated height range', 'a projection pair is an arbitrary invertible axis-wise affine map', 'native coordinates are in metres (the unit of the sampling distance)'],
         outside='no-data heights along the ray, curved rays, sensors in degrees (the sampling distance is compared with native coordinates), more steps')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc'
DEM = 'resippy.photogrammetry.dem.'


def sensor(cx, pj, ray, nband=7):
    """ray(pixel x, pixel y) -> (lon0, lat0, dlon, dlat): ground position at height zero and drift per metre up"""
    class Sensor(cx.mod(MOD).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return None

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            cx.true(band == nband, 'band passed on')
            sh = numpy.shape(pixel_xs)
            xs, ys = list(pixel_xs.reshape(-1)), list(pixel_ys.reshape(-1))
            al = [alts] * len(xs) if numpy.shape(alts) == () else list(alts.reshape(-1))
            rs = [ray(int(a), int(b)) for a, b in zip(xs, ys)]
            return cx.arr([r[0] + r[2] * h for r, h in zip(rs, al)]).reshape(sh), cx.arr([r[1] + r[3] * h for r, h in zip(rs, al)]).reshape(sh)
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    return s


def pixels(shape):
    n = int(numpy.prod(shape))
    xs, ys = numpy.arange(n) * 3.0, numpy.arange(n)[::-1] * 1.0
    return xs.reshape(shape), ys.reshape(shape), [(int(a), int(b)) for a, b in zip(xs, ys)]


def check(cx, pj, s, res, shape, keys, ray, world, height):
    lon, lat, alt = res
    for v in res:
        cx.true(tuple(numpy.shape(v)) == shape, 'shape')
    for k, a, b, h in zip(keys, lon.reshape(-1), lat.reshape(-1), alt.reshape(-1)):
        if world is not None:
            a, b = pj.apply(world.srs, 'native ', a, b)
        r = ray(*k)
        cx.eq([a, b], [r[0] + r[2] * h, r[1] + r[3] * h], 'the position lies on the ray of its pixel')
        cx.eq(h, height(k, a, b), 'the altitude is the terrain height')


@P.case(quick=[((1,), None, None), ((2,), 'other', 2.0), ((2, 1), None, 1.0), ((1, 2), 'other', None), ((2, 2), None, None)],
        thorough=list(itertools.product([(1,), (2,), (3,), (2, 1), (1, 2), (2, 2)], [None, 'other'], [None, 2.0])), budget=100)
def flat(cx):
    shape, world, dist = cx.p
    pj = fakes.use_pyproj(cx)
    pj.alt_shift = True
    xs, ys, keys = pixels(shape)
    h = cx.real('elevation', -500, 9000)
    rays = {k: (cx.real('lon%d' % k[0], nice=(-8, 8)), cx.real('lat%d' % k[0], nice=(-8, 8)), cx.real('dx%d' % k[0], -1, 1), cx.real('dy%d' % k[0], -1, 1)) for k in keys}
    ray = lambda x, y: rays[(x, y)]
    s = sensor(cx, pj, ray)
    dem = cx.mod(DEM + 'constant_elevation_dem').ConstantElevationDem(h)
    w = None if world is None else pj.Proj(world)
    res = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), dem, world_proj=w, dem_sample_distance=dist, band=7)
    check(cx, pj, s, res, shape, keys, ray, w, lambda k, a, b: h)
    if len(keys) == 1:
        # the same sensor over other terrain
        h2 = cx.real('elevation elsewhere', -500, 9000)
        dem = cx.mod(DEM + 'constant_elevation_dem').ConstantElevationDem(h2)
        res = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), dem, world_proj=w, dem_sample_distance=dist, band=7)
        check(cx, pj, s, res, shape, keys, ray, w, lambda k, a, b: h2)


@P.case(quick=[((1,), None, 'dem', 0), ((2,), None, 'args', 1), ((2, 1), 'other', 'dem', 1), ((1,), None, 'args', 2)],
        thorough=list(itertools.product([(1,), (2,), (2, 1), (1, 2)], [None, 'other'], ['dem', 'args'], [0, 1, 2])), budget=120)
def plane(cx):
    """terrain is a plane: every interpolation between samples is exact"""
    shape, world, src, maxsteps = cx.p
    pj = fakes.use_pyproj(cx)
    xs, ys, keys = pixels(shape)
    lo = cx.real('lowest', -100, 100)
    hi = cx.real('highest', -100, 200)
    cx.assume(hi - lo >= 1)
    e, ex, ey = cx.real('e', -300, 300), cx.real('ex', -2, 2), cx.real('ey', -2, 2)
    dist = cx.real('dist', 0.5, 400)
    rays = {}
    for k in keys:
        # only along one axis each, so that the length of the ray is linear
        r = [cx.real('lon%d' % k[0], -50, 50), cx.real('lat%d' % k[0], -50, 50), 0.0, 0.0]
        d = cx.real('d%d' % k[0], -1.5, 1.5)
        r[2 + k[1] % 2] = d
        length = (hi - lo) * 1.02 * cx.ite(d >= 0, d, -d)
        cx.assume(length <= maxsteps * dist)
        if maxsteps and k == keys[0]:
            cx.assume(length >= (maxsteps - 0.9) * dist)
        rays[k] = r
        for h in (hi + 0.01 * (hi - lo), lo - 0.01 * (hi - lo)):
            z = e + ex * (r[0] + r[2] * h) + ey * (r[1] + r[3] * h)
            cx.assume(cx.And(z >= lo, z <= hi))
    ray = lambda x, y: rays[(x, y)]

    class Dem(cx.mod(DEM + 'abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            cx.true(world_proj is not None and world_proj.srs == 'native ', 'elevations asked in the projection of the sensor')
            return e + ex * world_x + ey * world_y

        def get_highest_alt(self):
            return hi if src == 'dem' else hi + 7.0

        def get_lowest_alt(self):
            return lo if src == 'dem' else lo - 3.0

        def get_mean_alt(self):
            return lo

        def convert_reference(self, *a, **k):
            raise AssertionError
    s = sensor(cx, pj, ray)
    w = None if world is None else pj.Proj(world)
    kw = {} if src == 'dem' else dict(dem_highest_alt=hi, dem_lowest_alt=lo)
    res = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), Dem(), world_proj=w, dem_sample_distance=dist, band=7, **kw)
    check(cx, pj, s, res, shape, keys, ray, w, lambda k, a, b: e + ex * a + ey * b)


OBLIQUE = {(0, 0): (5.0, 1000.0, 0.5, 0.0), (0, 1): (5.0, 0.0, 0.5, 0.0), (3, 0): (-3.0, 2000.0, -0.25, 0.25), (0, 2): (5.0, 0.0, 0.5, 0.0),
           (3, 1): (-3.0, 1000.0, -0.25, 0.25), (6, 0): (0.0, 3000.0, 0.0, 0.0)}


@P.case(quick=[((1,), 10.0), ((1,), 5.0), ((2,), 13.0), ((2, 1), 18.0), ((1, 2), 13.0), ((3,), 18.0), ((3,), 26.0)],
        thorough=[(s, d) for s in ((1,), (2,), (2, 1), (1, 2), (3,)) for d in (26.0, 18.0, 13.0, 11.0)] + [((1,), d) for d in (10.0, 7.0, 5.0, 3.0)], budget=120)
def relief(cx):
    """arbitrary heights where the terrain is sampled: the first crossing counts"""
    shape, dist = cx.p
    pj = fakes.use_pyproj(cx)
    xs, ys, keys = pixels(shape)
    lo, hi = 0.0, 50.0
    ray = lambda x, y: OBLIQUE[(x, y)]
    seen = {k: {} for k in keys}

    class Dem(cx.mod(DEM + 'abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            sh = numpy.shape(world_x)
            out = []
            for a, b in zip(world_x.reshape(-1), world_y.reshape(-1)):
                a, b = float(a), float(b)
                k = [q for q in keys if abs(b - OBLIQUE[q][1]) < 500][0]
                r = OBLIQUE[k]
                if r[2] == 0:
                    t = 0.0 if not seen[k] else 1.0 * len(seen[k])       # a vertical ray: all at one place
                    h = list(seen[k].values())[0] if seen[k] else cx.real('h%d_0' % k[0], lo, hi)
                else:
                    t = round((a - r[0]) / r[2], 6)
                    cx.true(abs(r[1] + r[3] * t - b) < 1e-5, 'terrain sampled along the ray')
                    h = seen[k][t] if t in seen[k] else cx.real('h%d_%d' % (k[0], len(seen[k])), lo, hi)
                seen[k][t] = h
                out.append(h)
            return cx.arr(out).reshape(sh)

        def get_highest_alt(self):
            return hi

        def get_lowest_alt(self):
            return lo

        def get_mean_alt(self):
            return lo

        def convert_reference(self, *a, **k):
            raise AssertionError
    s = sensor(cx, pj, ray)
    lon, lat, alt = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), Dem(), dem_sample_distance=dist, band=7)
    for k, a, b, h in zip(keys, lon.reshape(-1), lat.reshape(-1), alt.reshape(-1)):
        r = OBLIQUE[k]
        cx.eq([a, b], [r[0] + r[2] * h, r[1] + r[3] * h], 'the position lies on the ray of its pixel')
        if r[2] == 0:
            cx.eq(h, list(seen[k].values())[0], 'terrain height under a vertical ray')
            continue
        ts = sorted(seen[k], reverse=True)
        cx.true(ts[0] > hi and ts[-1] < lo, 'sampled from above the terrain to below it')
        cx.true(all((p - q) * (r[2] ** 2 + r[3] ** 2) ** 0.5 <= dist + 1e-9 for p, q in zip(ts, ts[1:])), 'sampled at the requested distance')
        j = next(i for i in range(1, len(ts)) if i == len(ts) - 1 or seen[k][ts[i]] > ts[i])
        z0, z1 = seen[k][ts[j - 1]], seen[k][ts[j]]
        # the surface between the two samples, at the height of the answer
        cx.eq((h - z0) * (ts[j] - ts[j - 1]), (z1 - z0) * (h - ts[j - 1]), 'the altitude is the terrain height at the first crossing')
        cx.true(cx.And(h <= ts[j - 1] + 1e-6, h >= ts[j] - 1e-6), 'the first crossing')


@P.case(quick=[((2, 3), None), ((3, 2), 'other'), ((5,), 'other')])
def field(cx):
    """many pixels with rays of several lengths and directions on one sloped plane"""
    shape, world = cx.p
    pj = fakes.use_pyproj(cx)
    pj.alt_shift = True
    xs, ys, keys = pixels(shape)
    e, ex, ey = cx.real('e', 20, 30), cx.real('ex', -0.125, 0.125), cx.real('ey', -0.125, 0.125)
    rays = {k: (1.5 * i - 4, 3.0 - i, [0.5, -0.25, 0.0, 0.125][i % 4], [0.0, 0.25, 0.375][i % 3]) for i, k in enumerate(keys)}
    ray = lambda x, y: rays[(x, y)]

    class Dem(cx.mod(DEM + 'abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            return e + ex * world_x + ey * world_y

        def get_highest_alt(self):
            return 40.0

        def get_lowest_alt(self):
            return 10.0

        def get_mean_alt(self):
            return 20.0

        def convert_reference(self, *a, **k):
            raise AssertionError
    s = sensor(cx, pj, ray)
    w = None if world is None else pj.Proj(world)
    res = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), Dem(), world_proj=w, dem_sample_distance=8.0, band=7)
    check(cx, pj, s, res, shape, keys, ray, w, lambda k, a, b: e + ex * a + ey * b)


@P.case()
def highest_default_distance(cx):
    """the default sampling distance is five metres"""
    pj = fakes.use_pyproj(cx)
    xs, ys, keys = pixels((1,))
    asked = []
    z = cx.real('z', 0, 40)

    class Dem(cx.mod(DEM + 'abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            asked.extend(float(v) for v in world_x.reshape(-1))
            return world_x * 0.0 + z

        def get_highest_alt(self):
            return 40.0

        def get_lowest_alt(self):
            return 0.0

        def get_mean_alt(self):
            return 0.0

        def convert_reference(self, *a, **k):
            raise AssertionError
    s = sensor(cx, pj, lambda x, y: (1.0, 2.0, 1.0, 0.0))
    lon, lat, alt = s.pixel_x_y_to_lon_lat_alt(cx.arr(xs), cx.arr(ys), Dem(), band=7)
    cx.eq(alt, [z], 'altitude')
    cx.eq(lon, [1.0 + z], 'position')
    asked.sort()
    cx.true(all(b - a <= 5.0 + 1e-9 for a, b in zip(asked, asked[1:])), 'sampled every five metres at least')
