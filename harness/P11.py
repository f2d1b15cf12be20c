import itertools
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P11', bounds='affine sensors with arbitrary real coefficients (gradients at most 2, determinant at least 1/4 in magnitude), including pixel x or pixel y independent of longitude or latitude; scalar, 1-D (2) and 2-D (2x1) pixel arrays; number and array altitudes; per-band models; native and another projection; the solver is encoded for two iterations and replayed with its default of 1000; sensors with curvature (the error bound holds whenever the solver stops because of it)',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'a projection pair is an arbitrary invertible axis-wise affine map'],
         outside='convergence for sensors that are not affine, convergence speed, singular sensors, rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc'


def sensor(cx, pj, kind, bands=1):
    C = []
    for b in range(bands):
        c = [cx.real('b%dc%d' % (b, i), -2, 2) if i in (1, 2, 5, 6) else cx.real('b%dc%d' % (b, i), nice=(-4, 4)) for i in range(8)]
        if kind == 'rot90':
            c[1] = c[6] = 0.0
        elif kind == 'north':
            c[2] = c[5] = 0.0
        elif kind == 'xlat':
            c[1] = 0.0
        elif kind == 'similar':
            c[5], c[6] = -c[2], c[1]
            cx.assume(cx.And(c[1] * c[1] + c[2] * c[2] >= 0.25, c[1] * c[1] + c[2] * c[2] <= 4))
        if kind in ('rot90', 'north') and bands > 1:
            for v in (c[1], c[2], c[5], c[6]):
                if not isinstance(v, float) or v != 0.0:
                    cx.assume(cx.Or(v >= 0.5, v <= -0.5))
        d = c[1] * c[6] - c[2] * c[5]
        cx.assume(cx.Or(d >= 0.25, d <= -0.25))
        C.append(c)

    def f(lon, lat, alt, b):
        c = C[b or 0]
        return c[0] + c[1] * lon + c[2] * lat + c[3] * alt, c[4] + c[5] * lon + c[6] * lat + c[7] * alt

    class Sensor(cx.mod(MOD).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return f(lons, lats, alts, band)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            return None
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s.set_approximate_lon_lat_center(cx.real('lon0', nice=(-4, 4)), cx.real('lat0', nice=(-4, 4)))
    return s, f


def solve(cx, s, f, pj, shape, world, thr=0.01, band=None, d=None, arralt=False):
    x, y = [cx.real(n, nice=(-8, 8)) if shape == 's' else cx.array(n, shape, nice=(-8, 8)) for n in 'xy']
    alt = cx.array('alt', shape, nice=(-4, 4)) if arralt else cx.real('alt', nice=(-4, 4))
    it = 2 if cx.sym else 1000
    if d is not None:
        lon, lat = s._pixel_x_y_alt_to_lon_lat_native_solver(x, y, alt, d_lon=d[0], d_lat=d[1], band=band, max_pixel_error=thr, max_iter=it)
    else:
        lon, lat = s.pixel_x_y_alt_to_lon_lat(x, y, alt, world_proj=world, band=band, pixel_error_threshold=thr, max_iter=it)
    if shape != 's':
        cx.true(tuple(numpy.shape(lon)) == shape and tuple(numpy.shape(lat)) == shape, 'shape kept')
    l = lambda v: [v] if shape == 's' else list(v.reshape(-1))
    for a, b, h, px, py in zip(l(lon), l(lat), l(alt) if arralt else [alt] * 4, l(x), l(y)):
        if world is not None:
            a, b = pj.apply(world.srs, 'native ', a, b)
        ex, ey = f(a, b, h, band)
        if cx.sym:
            cx.true(cx.And(ex - px <= thr, px - ex <= thr), 'pixel x within the requested error')
            cx.true(cx.And(ey - py <= thr, py - ey <= thr), 'pixel y within the requested error')
        else:
            cx.true(cx.And(abs(ex - px) <= thr * 1.001 + 1e-9), 'pixel x within the requested error')
            cx.true(cx.And(abs(ey - py) <= thr * 1.001 + 1e-9), 'pixel y within the requested error')


@P.case(quick=list(itertools.product(['any', 'rot90', 'xlat', 'north'], ['s', (2,), (2, 1)])))
def newton(cx):
    """given differentiation steps"""
    kind, shape = cx.p
    pj = fakes.use_pyproj(cx)
    s, f = sensor(cx, pj, kind)
    d = cx.real('d_lon', 0.0625, 4), cx.real('d_lat', 0.0625, 4)
    solve(cx, s, f, pj, shape, None, d=d)


def coarse_floats(cx):
    """symbolic mode: a float format with only the exponents -4..4, so that the step search is short"""
    if cx.sym:
        real = cx.np.finfo
        cx.np.finfo = lambda d: fakes.Namespace('finfo', eps=0.0625, max=64.0, min=-64.0, dtype=real(d).dtype)


@P.case(quick=[('rot90', 's', None, False), ('north', 's', 'other', False), ('similar', 's', None, False), ('similar', (2,), 'other', True), ('north', (2, 1), None, False)], budget=120)
def automatic(cx):
    """the public entry point, which picks its own steps"""
    kind, shape, world, arr = cx.p
    pj = fakes.use_pyproj(cx)
    coarse_floats(cx)
    s, f = sensor(cx, pj, kind, 2)
    solve(cx, s, f, pj, shape, None if world is None else pj.Proj(world), band=1, arralt=arr)


@P.case(quick=[0.01, 0.5, 0.0001])
def nonlinear(cx):
    """a sensor with curvature: whenever the solver stops because of the error bound, the bound holds for every pixel"""
    thr = cx.p
    pj = fakes.use_pyproj(cx)
    e = cx.real('curvature', -0.125, 0.125) if thr > 0.001 else cx.choice('curvature', [0.125, -0.125])
    its = 2 if thr > 0.001 else 3
    calls = []

    class Sensor(cx.mod(MOD).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            calls.append(1)
            if band is None:
                return lons * 0.5 + 0.25, lats * 2
            return lons + e * lons * lons, lats * 2

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            return None
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s.set_approximate_lon_lat_center(0.0, 0.0)
    n = 2 if thr > 0.001 else 1
    x, y = cx.array('x', n, lo=-1, hi=1), cx.array('y', n, lo=-1, hi=1)
    lon, lat = s._pixel_x_y_alt_to_lon_lat_native_solver(x, y, 0.0, d_lon=0.25, d_lat=0.5, band=1, max_pixel_error=thr, max_iter=its if cx.sym else 1000)
    if len(calls) > 4 * (its - 1):
        return                  # the last iteration: outside the bound
    for i in range(n):
        d = lon[i] + e * lon[i] * lon[i] - x[i]
        cx.true(cx.And(d <= thr * 1.001, -d <= thr * 1.001), 'pixel x within the requested error')
        d = 2 * lat[i] - y[i]
        cx.true(cx.And(d <= thr * 1.001, -d <= thr * 1.001), 'pixel y within the requested error')
