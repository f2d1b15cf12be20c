from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P08', bounds='every geotransform with determinant at least 1/16 in magnitude, every raster size up to 10000 by 10000, every real pixel/ground coordinate and altitude; scalar, 1-D of 2 and 2-D 2x1 inputs',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'gdal.InvGeoTransform is the affine inverse (GDAL itself is native code)'],
         outside='nearly singular geotransforms, rounding error, the native extent of rotated rasters')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc'


def geot(cx, north_up=False):
    g = [cx.real('g%d' % i, nice=(-4, 4)) for i in range(6)]
    if north_up:
        g[2] = g[4] = 0.0
        cx.assume(cx.And(g[1] >= 0.0625, g[5] <= -0.0625))
    else:
        d = g[1] * g[5] - g[2] * g[4]
        cx.assume(cx.Or(d >= 0.0625, d <= -0.0625))
    return g


@P.case(quick=['s', (2,), (2, 1)])
def maps(cx):
    import numpy as np
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    calc = cx.mod(MOD).GeotiffPointCalc()
    g = geot(cx)
    calc.set_geot(g)
    calc.set_projection(cx.mod('pyproj').Proj('native'))
    if cx.p == 's':
        x, y, lo, la, alt = [cx.real(n, nice=(-8, 8)) for n in ('x', 'y', 'lon', 'lat', 'alt')]
        lon, lat = calc.pixel_x_y_alt_to_lon_lat(x, y, alt)
        bx, by = calc.lon_lat_alt_to_pixel_x_y(lon, lat, alt + 1)
        px, py = calc.lon_lat_alt_to_pixel_x_y(lo, la, None if cx.p == 's' else 0)
        fl, fa = calc.pixel_x_y_alt_to_lon_lat(px, py, 3.0)
        f = lambda v: [v]
    else:
        x, y, lo, la, alt = [cx.array(n, cx.p, nice=(-8, 8)) for n in ('x', 'y', 'lon', 'lat', 'alt')]
        lon, lat = calc.pixel_x_y_alt_to_lon_lat(x, y, alt)
        bx, by = calc.lon_lat_alt_to_pixel_x_y(lon, lat, alt)
        px, py = calc.lon_lat_alt_to_pixel_x_y(lo, la, None if cx.p == 's' else 0)
        fl, fa = calc.pixel_x_y_alt_to_lon_lat(px, py, alt)
        f = lambda v: list(v.reshape(-1))
        cx.true(all(tuple(v.shape) == cx.p for v in (lon, lat, bx, by, px, py, fl, fa)), 'shape kept')
    cx.eq(f(lon), [g[0] + g[1] * a + g[2] * b for a, b in zip(f(x), f(y))], 'longitude of a pixel')
    cx.eq(f(lat), [g[3] + g[4] * a + g[5] * b for a, b in zip(f(x), f(y))], 'latitude of a pixel')
    cx.eq(f(bx), f(x), 'pixel x back')
    cx.eq(f(by), f(y), 'pixel y back')
    cx.eq(f(fl), f(lo), 'longitude back')
    cx.eq(f(fa), f(la), 'latitude back')


@P.case()
def moved(cx):
    """replacing the geotransform replaces both directions; integer pixels"""
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    calc = cx.mod(MOD).GeotiffPointCalc()
    calc.set_geot([1.0, 2.0, 0.5, 3.0, 0.25, -4.0])
    g = geot(cx)
    calc.set_geot(g)
    calc.set_projection(cx.mod('pyproj').Proj('native'))
    x, y = cx.int('x', -10000, 10000, nice=(-8, 8)), cx.int('y', -10000, 10000, nice=(-8, 8))
    lon, lat = calc.pixel_x_y_alt_to_lon_lat(x, y, 0)
    cx.eq([lon, lat], [g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y], 'ground position of an integer pixel')
    cx.eq(calc.lon_lat_alt_to_pixel_x_y(lon, lat, 0), [x, y], 'integer pixel back')
    cx.eq(calc.get_geot(), g, 'geotransform')


@P.case()
def extent(cx):
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    calc = cx.mod(MOD).GeotiffPointCalc()
    g = geot(cx, True)
    calc.set_geot(g)
    nx, ny = cx.int('nx', 1, 10000, nice=(1, 16)), cx.int('ny', 1, 10000, nice=(1, 16))
    calc.set_npix_x(nx)
    calc.set_npix_y(ny)
    cx.eq(calc.get_world_extent_native().bounds, [g[0], g[3] + g[5] * ny, g[0] + g[1] * nx, g[3]], 'extent')


@P.case()
def opened(cx):
    gd = fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    g = geot(cx)
    import numpy as np
    gd.put('/f.tif', [cx.np.zeros((2, 3))], 7, g, wkt='WKT[+proj=utm +zone=5]')
    calc = cx.mod(MOD).GeotiffPointCalc.init_from_file('/f.tif')
    cx.eq(calc.get_geot(), g, 'geotransform of the file')
    cx.true('+proj=utm +zone=5' in calc.get_projection().srs, 'projection of the file')
    cx.true(calc._npix_x == 3 and calc._npix_y == 2, 'size of the file')
    cx.true(calc.bands_coregistered(), 'co-registered')
    inv = calc.get_inv_geot()
    x, y = cx.real('x', nice=(-8, 8)), cx.real('y', nice=(-8, 8))
    lon, lat = g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y
    cx.eq([inv[0] + inv[1] * lon + inv[2] * lat, inv[3] + inv[4] * lon + inv[5] * lat], [x, y], 'inverse geotransform')
    cx.true('+proj=utm +zone=5' in calc.get_gdal_projection_wkt(), 'projection text')
