import itertools
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P10', bounds='scalar, 1-D (1, 3 and 130) and 2-D (2x2, 2x3, 3x2, 1x3, 3x1, 9x11) inputs with arbitrary real coordinates, altitude given as number, integer, array or None, any integer band, native and arbitrary affine other projections, a sensor with an arbitrary elementwise bilinear model of coordinates, altitude and band',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'a projection pair is an arbitrary invertible axis-wise affine map (PROJ itself is native code)'],
         outside='larger arrays (the code treats them the same way through numpy), rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc'
SHAPES = ['s', (1,), (3,), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)]


def sensor(cx, native, inverse):
    c = [cx.real('c%d' % i, nice=(-2, 2)) for i in range(12)]
    seen = []

    def fx(lon, lat, alt, b):
        return c[0] + c[1] * lon + c[2] * lat * alt + c[3] * b

    def fy(lon, lat, alt, b):
        return c[4] + c[5] * lat + c[6] * lon * alt + c[7] * b

    class Sensor(cx.mod(MOD).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            seen.append((numpy.shape(lons), numpy.shape(lats), numpy.shape(alts)))
            return fx(lons, lats, alts, band), fy(lons, lats, alts, band)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            if not inverse:
                return None
            return c[8] * pixel_xs + c[9] * alts + band, c[10] * pixel_ys + c[11] * alts - band
    s = Sensor()
    s.set_projection(native)
    return s, fx, fy, c, seen


def pts(cx, shape, names):
    return [cx.real(n, nice=(-4, 4)) if shape == 's' else cx.array(n, shape, nice=(-4, 4)) for n in names]


def lst(v, shape):
    return [v] if shape == 's' else list(v.reshape(-1))


def check(cx, got, exp, shape, label):
    if shape == 's':
        cx.eq(got, exp[0], label)
    else:
        cx.true(tuple(numpy.shape(got)) == shape, label + ': shape')
        cx.eq(got.reshape(-1), exp, label)


@P.case(quick=list(itertools.product(SHAPES, ['number', 'int', 'array', None], ['none', 'same', 'other'])) + [((9, 11), 'array', 'other'), ((130,), 'number', 'other')])
def forward(cx):
    shape, altform, projform = cx.p
    pj = fakes.use_pyproj(cx, alt_shift=True)
    native = pj.Proj('native')
    s, fx, fy, c, seen = sensor(cx, native, True)
    band = cx.int('band', 0, 50)
    lon, lat = pts(cx, shape, ('lon', 'lat'))
    n = 1 if shape == 's' else int(numpy.prod(shape))
    if altform == 'number':
        alt = cx.real('alt', nice=(-4, 4))
    elif altform == 'int':
        alt = cx.int('alt', -9999, 9999)
    elif altform == 'array':
        alt = cx.real('alt', nice=(-4, 4)) if shape == 's' else cx.array('alt', shape, nice=(-4, 4))
    else:
        alt = None
    alts = [0 if alt is None else alt] * n if altform != 'array' or shape == 's' else list(alt.reshape(-1))
    world = None if projform == 'none' else pj.Proj('native') if projform == 'same' else pj.Proj('other')
    saved = [list(lst(v, shape)) for v in (lon, lat)]
    x, y = s.lon_lat_alt_to_pixel_x_y(lon, lat, alt, world_proj=world, band=band)
    src = 'other ' if projform == 'other' else native.srs
    p = [pj.apply(src, native.srs, a, b, h) for a, b, h in zip(lst(lon, shape), lst(lat, shape), alts)]
    check(cx, x, [fx(a, b, h, band) for a, b, h in p], shape, 'pixel x')
    check(cx, y, [fy(a, b, h, band) for a, b, h in p], shape, 'pixel y')
    if projform != 'other':
        cx.true(not pj.calls, 'untouched in the native projection')
    cx.eq([lst(lon, shape), lst(lat, shape)], saved, 'inputs are left alone')


@P.case(quick=list(itertools.product(SHAPES, ['none', 'same', 'other'])))
def inverse(cx):
    shape, projform = cx.p
    pj = fakes.use_pyproj(cx)
    native = pj.Proj('native')
    s, fx, fy, c, seen = sensor(cx, native, True)
    band = cx.int('band', 0, 50)
    x, y, alt = pts(cx, shape, ('x', 'y', 'alt'))
    world = None if projform == 'none' else pj.Proj('native') if projform == 'same' else pj.Proj('other')
    lon, lat = s.pixel_x_y_alt_to_lon_lat(x, y, alt, world_proj=world, band=band)
    dst = 'other ' if projform == 'other' else native.srs
    p = [pj.apply(native.srs, dst, c[8] * a + c[9] * h + band, c[10] * b + c[11] * h - band) for a, b, h in zip(*[lst(v, shape) for v in (x, y, alt)])]
    check(cx, lon, [a for a, b in p], shape, 'longitude')
    check(cx, lat, [b for a, b in p], shape, 'latitude')
    if projform != 'other':
        cx.true(not pj.calls, 'untouched in the native projection')


@P.case(quick=['one number', 'both'])
def mixed(cx):
    """a number for one of the horizontal coordinates still gives one pixel; altitude arrays of one value"""
    pj = fakes.use_pyproj(cx)
    s, fx, fy, c, seen = sensor(cx, pj.Proj('native'), True)
    lon, lat = cx.int('lon', -180, 180), cx.real('lat', nice=(-4, 4))
    alt = cx.array('alt', 1, nice=(-4, 4)) if cx.p == 'both' else cx.real('alt', nice=(-4, 4))
    h = alt[0] if cx.p == 'both' else alt
    x, y = s.lon_lat_alt_to_pixel_x_y(lon, lat, alt, band=0)
    cx.eq([x, y], [fx(lon, lat, h, 0), fy(lon, lat, h, 0)], 'pixel')
    s.set_approximate_lon_lat_center(lon, lat)
    cx.eq(s.get_approximate_lon_lat_center(), [lon, lat], 'centre')
    cx.true(s.get_projection().srs == 'native ' and s.bands_coregistered() is True, 'projection and co-registration')
