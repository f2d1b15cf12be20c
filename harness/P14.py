import itertools
import random
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P14', bounds='rasters of 3x2, 1x3, 3x1 and 2x2 cells with arbitrary contents (float64, and int16 and int32 with no-data), arbitrary invertible and north-up geotransforms, one position (scalar) or two (1-D and 2-D) anywhere from two cells outside to two cells outside on the other side, own and another projection; larger rasters (up to 12x17, 3x70, 40x3) at up to 40 fixed positions; the image or the no-data value changed after a first question',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'GDAL hands over the stored samples, size, geotransform and no-data value', 'sample (row, column) lies at pixel position (column, row), the convention of the code'],
         outside='larger rasters, multi-band elevation files, vertical datum conversion (native GDAL), rounding error')
D = 'resippy.photogrammetry.dem.'


def setup(cx, ny, nx, dtype='float64', nodata=None, geot=None, wkt='WKT[native]', values=None):
    gd = fakes.use_gdal(cx)
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    g = geot
    if g is None:
        g = [cx.real('g%d' % i, nice=(-4, 4)) for i in range(6)]
        d = g[1] * g[5] - g[2] * g[4]
        cx.assume(cx.Or(d >= 0.0625, d <= -0.0625))
    z = cx.array('z', (ny, nx), dtype=dtype, nice=(-8, 8)) if values is None else values
    gd.put('/dem.tif', [z], {'float64': 7, 'int16': 3, 'int32': 5, 'float32': 6}[dtype], g, wkt=wkt, nodata=nodata)
    orig = [[z[i, j] + 0.0 for j in range(nx)] for i in range(ny)]
    return gd, pj, g, orig


def at(g, x, y):
    return g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y


def cell(cx, z, r, c):
    return cx.sel([cx.sel(row, c) for row in z], r)


def clip(cx, v, hi):
    return cx.min(cx.max(v, 0), hi)


def nearest(cx, z, x, y):
    ny, nx = len(z), len(z[0])
    return cell(cx, z, clip(cx, cx.floor(y), ny - 1), clip(cx, cx.floor(x), nx - 1))


def bracket(v, n):
    """(lower sample, upper sample, share of the upper) of a coordinate along an axis of n samples; decides the cell (forks)"""
    if v <= 0:
        return 0, 0, 0.0
    if v >= n - 1:
        return n - 1, n - 1, 0.0
    for i in range(n - 1):
        if v < i + 1:
            return i, i + 1, v - i
    raise AssertionError


def bilinear(cx, z, x, y):
    r0, r1, fy = bracket(y, len(z))
    c0, c1, fx = bracket(x, len(z[0]))
    return (1 - fy) * ((1 - fx) * z[r0][c0] + fx * z[r0][c1]) + fy * ((1 - fx) * z[r1][c0] + fx * z[r1][c1])


def positions(cx, shape, ny, nx):
    x = cx.real('px', -2, nx + 2) if shape == 's' else cx.array('px', shape, lo=-2, hi=nx + 2)
    y = cx.real('py', -2, ny + 2) if shape == 's' else cx.array('py', shape, lo=-2, hi=ny + 2)
    l = lambda v: [v] if shape == 's' else list(v.reshape(-1))
    if len(l(x)) > 1 and cx.tier == 'quick':
        for v in l(x)[1:] + l(y)[1:]:
            cx.assume(cx.And(v >= 0.125, v <= 0.875))
    return x, y, list(zip(l(x), l(y)))


GN = (3.0, 2.0, 0.0, 5.0, 0.0, -0.5)


def sample(cx, method, size, shape, other, geot):
    gd, pj, g, z = setup(cx, *size, geot=geot)
    dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', interpolation_method=method)
    cx.true(dem.get_interpolation_method() == method, 'interpolation method')
    x, y, pts = positions(cx, shape, *size)
    wx, wy = at(g, x, y)
    native = dem.get_projection().srs
    world = None
    if other:
        world = pj.Proj('other')
        wx, wy = pj.apply(native, world.srs, wx, wy)
    e = dem.get_elevations(wx, wy, world_proj=world)
    f = nearest if method == 'nearest' else bilinear
    exp = [f(cx, z, a, b) for a, b in pts]
    if shape == 's':
        cx.true(numpy.ndim(e) == 0, 'scalar in, scalar out')
        cx.eq(e, exp[0], 'height')
    else:
        cx.true(tuple(numpy.shape(e)) == shape, 'shape kept')
        cx.eq(e.reshape(-1), exp, 'heights')


@P.case(quick=[((2, 3), 's', False, None), ((3, 2), (2,), False, GN), ((3, 2), (1, 2), True, GN), ((1, 3), 's', False, GN), ((3, 1), 's', False, GN)])
def nearest_cell(cx):
    size, shape, other, geot = cx.p
    sample(cx, 'nearest', size, shape, other, geot)


@P.case(quick=[((2, 3), 's', False, GN), ((2, 2), 's', True, GN), ((2, 2), (2,), False, GN), ((2, 2), (1, 2), False, GN), ((1, 3), 's', False, GN), ((3, 1), 's', False, GN)],
        thorough=[((2, 3), 's', False, None), ((2, 2), 's', True, GN), ((3, 3), 's', False, GN), ((3, 2), (2,), False, GN), ((2, 3), (2, 1), True, GN), ((1, 3), 's', False, GN), ((3, 1), 's', False, GN)], budget=120, tbudget=800)
def interpolated(cx):
    size, shape, other, geot = cx.p
    sample(cx, 'bilinear', size, shape, other, geot)


@P.case(quick=[('bilinear', GN), ('nearest', GN)], thorough=[('bilinear', GN), ('nearest', GN), ('bilinear', None), ('nearest', None)])
def exact(cx):
    """integer pixel positions give the stored sample"""
    method, geot = cx.p
    gd, pj, g, z = setup(cx, 2, 3, geot=geot)
    dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', interpolation_method=method)
    if method == 'nearest':
        dem.set_interpolation_to_bilinear()
        dem.set_interpolation_to_nearest()
    for r in range(2):
        for c in range(3):
            # stay clear of the boundary of a cell, where rounding decides
            d = 0.25 if method == 'nearest' else 0.0
            wx, wy = at(g, c + d, r + d)
            if method == 'bilinear':
                x, y = dem.gtiff.get_point_calculator().lon_lat_alt_to_pixel_x_y(wx, wy, 0)
                if not cx.sym:
                    wx, wy = at((0.0, 1.0, 0.0, 0.0, 0.0, 1.0), c, r)
                    dem.gtiff.get_point_calculator().set_geot([0.0, 1.0, 0.0, 0.0, 0.0, 1.0])
            cx.eq(dem.get_elevations(wx, wy), z[r][c], 'height of a sample')


@P.case(quick=[('float64', 'file', 'nearest'), ('float64', 'arg', 'nearest'), ('int16', 'file', 'nearest'), ('float64', 'set', 'nearest'), ('int16', 'file', 'bilinear'), ('int32', 'file', 'nearest')])
def nodata(cx):
    dtype, how, method = cx.p
    nd = -99.0 if dtype == 'int16' else -2.0**31 if dtype == 'int32' else -9999.5
    gd, pj, g, z = setup(cx, 2, 2, dtype=dtype, geot=GN, nodata=nd if how in ('file', 'set') else None if how == 'none' else 17.0)
    some = [z[0][0], z[0][1], z[1][0], z[1][1]]
    valid = [v != nd for v in some]
    cx.assume(cx.Or(*valid))
    if dtype != 'int32':
        cx.assume(cx.And(*[cx.And(v >= -10000, v <= 10000) for v in some]))
    if how == 'set':
        img = cx.mod('resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory').GeotiffImageFactory.from_file('/dem.tif')
        dem = cx.mod(D + 'geotiff_dem').GeotiffDem()
        dem.remove_nodata_values(nd)
        dem.set_geotiff_image(img)
        dem.set_interpolation_to_nearest()
    else:
        dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', nodata_value=nd if how == 'arg' else None, interpolation_method=method)
    if method == 'nearest':
        for r in range(2):
            for c in range(2):
                wx, wy = at(g, c + 0.5, r + 0.5)
                e = dem.get_elevations(wx, wy)
                cx.true(cx.Or(z[r][c] != nd, cx.isnan(e)), 'no height for a no-data cell')
                cx.eq_if(z[r][c] != nd, e, z[r][c], 'height of a valid cell')
    else:
        e = dem.get_elevations(*at(g, 0.5, 0.5))
        m = cx.And(*valid)
        cx.true(cx.Implies(cx.Not(m), cx.isnan(e)), 'no height next to no-data')
        cx.eq_if(m, e, sum0(some) / 4, 'interpolated height')
    big, small = -1e10, 1e10
    n, t = 0, 0
    for v, ok in zip(some, valid):
        big, small = cx.ite(cx.And(ok, v > big), v, big), cx.ite(cx.And(ok, v < small), v, small)
        n, t = n + cx.ite(ok, 1, 0), t + cx.ite(ok, v, 0)
    cx.eq(dem.get_highest_alt(), big, 'highest')
    cx.eq(dem.get_lowest_alt(), small, 'lowest')
    cx.eq(dem.get_mean_alt() * n, t, 'mean')


@P.case(quick=['image', 'nodata'])
def again(cx):
    """the range of heights follows the model when it is changed after a first question"""
    gd, pj, g, z = setup(cx, 2, 2, geot=GN)
    fac = cx.mod('resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory').GeotiffImageFactory
    dem = cx.mod(D + 'geotiff_dem').GeotiffDem()
    dem.set_geotiff_image(fac.from_file('/dem.tif'))
    dem.set_interpolation_to_nearest()
    first = [v for r in z for v in r]

    def ask(vs):
        hi, lo = vs[0], vs[0]
        for v in vs[1:]:
            hi, lo = cx.max(hi, v), cx.min(lo, v)
        cx.eq([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [hi, lo, sum0(vs) / len(vs)], 'range of heights')
        cx.eq(dem.get_elevations(*at(g, 1.5, 0.5)), vs[1], 'height')
    ask(first)
    if cx.p == 'image':
        z2 = cx.array('z2', (2, 2), nice=(-8, 8))
        gd.put('/dem2.tif', [z2], 7, g, wkt='WKT[native]', nodata=None)
        second = [z2[i, j] + 0.0 for i in range(2) for j in range(2)]
        dem.set_geotiff_image(fac.from_file('/dem2.tif'))
        ask(second)
    else:
        cx.assume(z[0][0] == -7.0)
        cx.assume(cx.And(*[v != -7.0 for v in first[1:]]))
        dem.remove_nodata_values(-7.0)
        hi, lo = first[1], first[1]
        for v in first[2:]:
            hi, lo = cx.max(hi, v), cx.min(lo, v)
        cx.eq([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [hi, lo, sum0(first[1:]) / 3], 'range without the no-data cell')
        cx.true(cx.isnan(dem.get_elevations(*at(g, 0.5, 0.5))), 'no height there')


@P.case(quick=['s', (3,), (2, 2)])
def constant(cx):
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    h = cx.real('h')
    dem = cx.mod(D + 'dem_factory').DemFactory.constant_elevation(h)
    x = cx.real('x') if cx.p == 's' else cx.array('x', cx.p)
    e = dem.get_elevations(x, x)
    cx.true(tuple(numpy.shape(e)) == (() if cx.p == 's' else cx.p), 'shape kept')
    cx.eq(list(e.reshape(-1)) if cx.p != 's' else [e], [h] * (1 if cx.p == 's' else int(numpy.prod(cx.p))), 'elevation')
    cx.eq([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [h, h, h], 'range')
    cx.eq(cx.mod(D + 'dem_factory').DemFactory.constant_elevation().get_elevations(x, x) * 1.0, 0 * e, 'default is zero')
    cx.eq(cx.mod(D + 'constant_elevation_dem').ConstantElevationDem().get_elevations(x, x) * 1.0, 0 * e, 'default is zero')


@P.case(quick=[('nearest', (12, 17), (5, 6)), ('bilinear', (12, 17), (40,)), ('nearest', (3, 70), (7, 1)), ('bilinear', (40, 3), (3, 5))])
def larger(cx):
    """fixed positions in and around a larger model"""
    method, (ny, nx), shape = cx.p
    gd, pj, g, z = setup(cx, ny, nx, geot=GN)
    r = random.Random(ny + nx)
    n = int(numpy.prod(shape))
    pts = [(r.randrange(-32, (nx + 2) * 16) / 16 + 1 / 32, r.randrange(-32, (ny + 2) * 16) / 16 + 1 / 32) for _ in range(n)]
    w = [at(g, a, b) for a, b in pts]
    dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', interpolation_method=method)
    e = dem.get_elevations(numpy.array([p[0] for p in w]).reshape(shape), numpy.array([p[1] for p in w]).reshape(shape))
    cx.true(tuple(numpy.shape(e)) == shape, 'shape kept')
    cx.eq(e.reshape(-1), [(nearest if method == 'nearest' else bilinear)(cx, z, a, b) for a, b in pts], 'heights')


@P.case(quick=['factory', 'model', 'switched'])
def default_method(cx):
    """heights are interpolated unless asked otherwise"""
    gd, pj, g, z = setup(cx, 2, 3, geot=GN)
    if cx.p == 'factory':
        dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif')
    else:
        dem = cx.mod(D + 'geotiff_dem').GeotiffDem()
        dem.set_geotiff_image(cx.mod('resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory').GeotiffImageFactory.from_file('/dem.tif'))
        if cx.p == 'switched':
            dem.set_interpolation_to_nearest()
            cx.true(dem.get_interpolation_method() == 'nearest', 'nearest')
            dem.set_interpolation_to_bilinear()
    cx.true(dem.get_interpolation_method() == 'bilinear', 'bilinear')
    u, v = cx.real('u', 0.125, 0.875), cx.real('v', 0.125, 0.875)
    cx.eq(dem.get_elevations(*at(g, 1 + u, v)), (1 - v) * ((1 - u) * z[0][1] + u * z[0][2]) + v * ((1 - u) * z[1][1] + u * z[1][2]), 'interpolated height')


@P.case(quick=['cubic', 'Nearest'])
def rejected(cx):
    setup(cx, 2, 2, geot=GN)
    cx.raises(lambda: cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', interpolation_method=cx.p), (TypeError, ValueError), 'unknown interpolation method')
