import operator
import random
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P16', bounds='ortho grids of 2x2, 1x3 and 1x1 cells, sensor images of 3x4 and 2x3 samples with 1 to 3 bands of arbitrary content (int16, float64, uint8), an arbitrary location per cell and band anywhere inside or outside of the sensor image (every sensor model and elevation model), nearest and linear resampling, splines of order 2 to 5 at known positions, every no-data value, co-registered and per-band sensors; larger grids (up to 13x9 and 40x3 cells, images up to 30x31 samples and five bands) with fixed locations; whole-image orthos of five sensor geometries with every scale between sensor coordinates and metres, given and default cell sizes',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'sample (row, column) of the sensor image lies at location (column, row), the convention of the code', 'scipy map_coordinates / skimage warp interpolate as documented (stand-in, replayed against the real libraries)'],
         outside='splines at positions of every value, larger images, locations that are not finite, exactly whole numbers of cells (rounding)')
OT = 'resippy.photogrammetry.ortho_tools'
EO = 'resippy.image_objects.earth_overhead.'


def env(cx):
    fakes.use_gdal(cx)
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    fakes.use_ndimage(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('utm', fakes.fake_utm([], 18, 'T'))
    return pj


def grid(ny, nx):
    """rectangle with cells of 2 by 0.5, its centres as keys"""
    x0, y0 = 10.0, -4.0
    return (x0, y0, x0 + 2.0 * nx, y0 + 0.5 * ny), lambda lon, lat: (int(round((ny * 0.5 + y0 - float(lat)) / 0.5 - 0.5)), int(round((float(lon) - x0) / 2.0 - 0.5)))


def world(cx, ny, nx, nb, dtype, npix, coreg, loaded, pj, proj, dem_given, seed=None, exact=False):
    """an image with an arbitrary sensor and elevation model: position of each cell in each band is an input"""
    rect, key = grid(ny, nx)
    sy, sx = npix
    nloc = 1 if coreg else nb
    loc = [{(r, c): 0 if seed is not None else (cx.real('x%d_%d_%d' % (b, r, c), -3, sx + 2), cx.real('y%d_%d_%d' % (b, r, c), -3, sy + 2)) for r in range(ny) for c in range(nx)} for b in range(nloc)]
    if seed is not None:
        q = random.Random(seed)
        if exact:
            loc = [{k: (q.randrange(-1, sx + 1) + 0.0, q.randrange(-1, sy + 1) + 0.0) for k in l} for l in loc]
        else:
            loc = [{k: (q.randrange(-3 * 16, (sx + 2) * 16) / 16 + 1 / 64, q.randrange(-3 * 16, (sy + 2) * 16) / 16 + 1 / 64) for k in l} for l in loc]
    alts = {(r, c): cx.real('alt%d_%d' % (r, c), -500, 9000) for r in range(ny) for c in range(nx)}
    data = cx.array('im', (sy, sx, nb), dtype=dtype, **(dict(nice=(-8, 8)) if dtype == 'float64' else dict(lo=0, hi=250) if seed is not None else {}))
    orig = [[[data[r, c, b] + 0.0 for c in range(sx)] for r in range(sy)] for b in range(nb)]
    used = []

    def each(f, *arrays):
        sh = numpy.shape(arrays[0])
        if sh == ():
            return f(*arrays)
        out = [f(*v) for v in zip(*[list(a.reshape(-1)) for a in arrays])]
        return out, sh

    class Dem(cx.mod('resippy.photogrammetry.dem.abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            cx.true(world_proj is not None and world_proj.srs == proj.srs, 'elevations asked in the projection of the grid')
            v, sh = each(lambda x, y: alts[key(x, y)], world_x, world_y)
            return cx.arr(v).reshape(sh)

        def get_highest_alt(self):
            return 1.0
        get_lowest_alt = get_mean_alt = get_highest_alt

        def convert_reference(self, *a, **k):
            raise AssertionError

    class Sensor(cx.mod(EO + 'earth_overhead_point_calculators.abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def lon_lat_alt_to_pixel_x_y(self, lons, lats, al, world_proj=None, band=None):
            cx.true(world_proj is not None and world_proj.srs == proj.srs, 'sensor asked in the projection of the grid')
            n, sh = each(lambda x, y: key(x, y), lons, lats)
            a, _ = each(lambda v: v, al + 0.0 * lons)
            cx.eq(a, [alts[k] if dem_given else 0.0 for k in n], 'sensor asked at the height of the terrain')
            b = 0 if coreg else band
            used.append(band)
            return cx.arr([loc[b][k][0] for k in n]).reshape(sh), cx.arr([loc[b][k][1] for k in n]).reshape(sh)

        def _lon_lat_alt_to_pixel_x_y_native(self, *a, **k):
            raise AssertionError
        _pixel_x_y_alt_to_lon_lat_native = _lon_lat_alt_to_pixel_x_y_native

    class Image(cx.mod(EO + 'abstract_earth_overhead_image').AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            return data.copy()

        def read_band_from_disk(self, band_number):
            return data[:, :, band_number].copy()

    md = cx.mod('resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata').PhysicalCameraMetadata()
    md.set_npix_x(sx), md.set_npix_y(sy), md.set_n_bands(nb)
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s._bands_coregistered = coreg
    im = Image()
    im.set_metadata(md)
    im.set_point_calculator(s)
    if loaded:
        im.set_image_data(data)
    return im, Dem(), rect, loc, orig


def rnd(cx, v):
    return cx.ite(v >= 0, cx.floor(v + 0.5), -cx.floor(-v + 0.5))


def value(cx, img, x, y, order, nodata, isint):
    """decides the cell (forks)"""
    ny, nx = len(img), len(img[0])
    if cx.Or(x < 0, x > nx - 1, y < 0, y > ny - 1):
        return nodata
    if order != 1:
        r, c = [next(i for i in range(n) if v < i + 0.5 or i == n - 1) for v, n in ((y, ny), (x, nx))]
        return img[r][c]
    r, c = [next(i for i in range(n - 1) if v < i + 1 or i == n - 2) for v, n in ((y, ny), (x, nx))]
    fy, fx = y - r, x - c
    v = (1 - fy) * ((1 - fx) * img[r][c] + fx * img[r][c + 1]) + fy * ((1 - fx) * img[r + 1][c] + fx * img[r + 1][c + 1])
    return rnd(cx, v) if isint else v


def free(cx, loc, cells, sx, sy, order):
    """all but the given cells are located inside the first pixel (they are still told apart by band)"""
    for b, l in enumerate(loc):
        for k in l:
            if (b, k) not in cells:
                cx.assume(cx.And(l[k][0] >= 0.1, l[k][0] <= 0.4, l[k][1] >= 0.1, l[k][1] <= 0.4))
            elif order == 0:
                # clear of the ties between two samples
                pass


def run(cx, ny, nx, nb, dtype, npix, coreg, loaded, bands, order, mask, given, free_cells, backup=False, proj='native', fname=None, seed=None, exact=False):
    pj = env(cx)
    wp = pj.Proj(proj)
    im, dem, rect, loc, orig = world(cx, ny, nx, nb, dtype, npix, coreg, loaded, pj, wp, given, seed, exact)
    if seed is None:
        free(cx, loc, free_cells, npix[1], npix[0], order)
    if order == 1 and dtype != 'float64' and seed is None:
        # rounded values: the row is one of the quarter positions
        for b, k in free_cells:
            q = cx.int('quarter%d' % b, -1, 4 * npix[0] - 3)
            cx.assume(loc[b][k][1] * 4 == q + 0.0)
            operator.index(q)
    ot = cx.mod(OT)
    lo, hi = (-1000, 1000) if dtype != 'uint8' else (0, 255)
    nodata = cx.int('nodata', lo, hi) if dtype != 'float64' else cx.real('nodata', lo, hi)
    if dtype == 'float64':
        for b in orig:
            for row in b:
                for v in row:
                    cx.assume(cx.And(v >= -1000, v <= 1000))
    poly = fakes.polygon(cx, [(rect[0], rect[1]), (rect[2], rect[1]), (rect[2], rect[3]), (rect[0], rect[3]), (rect[0], rect[1])])
    f = ot.create_ortho_gtiff_image_world_to_sensor_backup if backup else ot.create_ortho_gtiff_image_world_to_sensor
    how = dict(interpolation={0: 'nearest', 1: 'bilinear'}[order]) if backup else dict(spline_order=order)
    g = f(im, nx, ny, poly, world_proj=wp, dem=dem if given else None, bands=list(bands) if bands is not None else None, nodata_val=nodata, mask_no_data_region=mask, output_fname=fname, **how)
    bs = list(range(nb)) if bands is None else list(bands)
    d = g.get_image_data()
    cx.true(tuple(d.shape) == (ny, nx, len(bs) + (1 if mask else 0)), 'shape')
    cx.true(d.dtype == numpy.dtype(dtype), 'sample type kept')
    cx.eq(list(g.get_point_calculator().get_geot()), [rect[0], 2.0, 0.0, rect[3], 0.0, -0.5], 'grid of the product')
    cx.true(g.get_point_calculator().get_projection().srs == wp.srs, 'projection of the product')
    md = g.get_metadata()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [nx, ny, d.shape[2]], 'size of the product')
    cx.eq(md.get_nodata_val(), nodata, 'no-data value of the product')
    if not backup or order == 0:
        for r in range(ny):
            for c in range(nx):
                for i, b in enumerate(bs):
                    x, y = loc[0 if coreg else b][(r, c)]
                    cx.eq(d[r, c, i], value(cx, orig[b], x, y, order, nodata, dtype != 'float64'), 'value of a cell')
    if mask:
        for r in range(ny):
            for c in range(nx):
                cx.true(cx.Or(cx.And(d[r, c, 0] == nodata, d[r, c, len(bs)] == 0), cx.And(d[r, c, 0] != nodata, d[r, c, len(bs)] == 255)), 'alpha layer')
    return g, nodata


ONE = ((0, (0, 0)),)


@P.case(quick=[(True, True, 'int16'), (True, False, 'float64'), (False, False, 'int16'), (False, True, 'uint8'), (False, False, 'float64')], budget=120)
def nearest(cx):
    """one cell anywhere"""
    coreg, loaded, dtype = cx.p
    run(cx, 1, 1, 1, dtype, (3, 4), coreg, loaded, None, 0, False, True, ONE)


@P.case(quick=[(True, True, 'float64'), (False, False, 'float64'), (True, False, 'int16'), (False, False, 'int16')], budget=120)
def linear(cx):
    coreg, loaded, dtype = cx.p
    run(cx, 1, 1, 1, dtype, (2, 3), coreg, loaded, None, 1, False, True, ONE)


@P.case(quick=[(True, [2, 0], (2, 2)), (False, [2, 0], (2, 2)), (False, None, (1, 3)), (True, None, (3, 1)), (False, [1], (3, 2))],
        thorough=[(c, b, s) for c in (True, False) for b in ([2, 0], None, [1], [0, 1, 2, 0]) for s in ((2, 2), (1, 3), (3, 1), (3, 2), (2, 3))], budget=120)
def layout(cx):
    """every cell and band gets its own location, image band and place"""
    coreg, bands, (ny, nx) = cx.p
    last = (ny - 1, nx - 1)
    b = 0 if coreg else 2 if bands != [1] else 1
    run(cx, ny, nx, 3, 'int16', (2, 3), coreg, coreg, bands, 0, False, True, ((b, last),))


@P.case(quick=[((11, 14), 2, 'int16', (17, 20), True, None, 0), ((13, 9), 4, 'float64', (12, 15), False, [3, 0], 1), ((40, 3), 1, 'uint8', (9, 30), True, None, 0), ((9, 12), 5, 'float64', (10, 11), False, [4, 1, 2], 0), ((6, 7), 1, 'float64', (30, 31), True, None, 1)])
def larger(cx):
    """more cells at fixed places of a larger image of arbitrary content"""
    (ny, nx), nb, dtype, npix, coreg, bands, order = cx.p
    run(cx, ny, nx, nb, dtype, npix, coreg, coreg, bands, order, False, True, (), seed=16 + nx)


@P.case(quick=[(2, True, 'float64'), (3, True, 'int16'), (3, False, 'float64'), (2, False, 'uint8')], thorough=[(o, c, d) for o in (2, 3, 4, 5) for c in (True, False) for d in ('float64', 'int16', 'uint8')])
def spline(cx):
    """smoother interpolation: the samples themselves at their places, the no-data value outside"""
    order, coreg, dtype = cx.p
    run(cx, 5, 4, 2, dtype, (5, 6), coreg, coreg, [1, 0], order, False, True, (), seed=order, exact=True)


@P.case(quick=[(0, False), (1, False), (0, True), (1, True)])
def kinds(cx):
    """bands of different sample types: every band is resampled in its own type"""
    pj = env(cx)
    wp = pj.Proj('native')
    rect, key = grid(2, 2)
    f, i = cx.array('f', (3, 3), nice=(-8, 8)), cx.array('i', (3, 3), dtype='int16', lo=-300, hi=300)
    order = [0, 1] if cx.p[0] == 0 else [1, 0]
    b = cx.mod('resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata').PhysicalCameraMetadata()
    b.set_npix_x(3), b.set_npix_y(3), b.set_n_bands(2)

    class Sensor(cx.mod(EO + 'earth_overhead_point_calculators.abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, al, band=None):
            return (lons - 10.0) * 0.5 + 0.125, (lats + 4.0) * 2.0 - 0.25

        def _pixel_x_y_alt_to_lon_lat_native(self, *a, **k):
            raise AssertionError

    class Image(cx.mod(EO + 'abstract_earth_overhead_image').AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            raise AssertionError

        def read_band_from_disk(self, band_number):
            return [f, i][band_number].copy()
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s._bands_coregistered = cx.p[1]
    im = Image()
    im.set_metadata(b)
    im.set_point_calculator(s)
    dem = cx.mod('resippy.photogrammetry.dem.constant_elevation_dem').ConstantElevationDem(3.0)
    poly = fakes.polygon(cx, [(rect[0], rect[1]), (rect[2], rect[1]), (rect[2], rect[3]), (rect[0], rect[3]), (rect[0], rect[1])])
    g = cx.mod(OT).create_ortho_gtiff_image_world_to_sensor(im, 2, 2, poly, world_proj=wp, dem=dem, bands=order, nodata_val=-1)
    d = g.get_image_data()
    for r in range(2):
        for c in range(2):
            y, x = 1 - r, c         # cell centres image at (0.625, 0.25) and one further
            cx.eq([d[r, c, k] for k in range(2)], [[f, i][q][y, x + 1] + 0.0 for q in order], 'value of a cell')


@P.case(quick=[(True, 'int16'), (False, 'float64'), (True, 'uint8')])
def alpha(cx):
    coreg, dtype = cx.p
    run(cx, 1, 2, 2, dtype, (2, 2), coreg, True, [1, 0], 0, True, True, ((0 if coreg else 1, (0, 1)),))


@P.case(quick=[True, False])
def no_dem(cx):
    """without an elevation model the ground is at height zero; the product can be in another projection and written to a file"""
    g, nodata = run(cx, 2, 2, 1, 'int16', (2, 2), cx.p, True, None, 0, False, False, (), proj='other', fname='/out/ortho.tif')
    gd = cx.fakes['gdal']
    cx.true('/out/ortho.tif' in gd.files, 'file written')
    f = gd.files['/out/ortho.tif']
    d = g.get_image_data()
    cx.eq(f.GetRasterBand(1).ReadAsArray().reshape(-1), d.reshape(-1), 'file content')
    cx.eq(f.GetRasterBand(1).GetNoDataValue(), nodata, 'file no-data value')


@P.case(quick=[(True, 'int16'), (False, 'float64')])
def warped(cx):
    """the variant that resamples by warping"""
    coreg, dtype = cx.p
    run(cx, 1, 2, 2, dtype, (2, 3), coreg, False, [1, 0], 0, True, True, ((0, (0, 1)),), backup=True)


W = [((3, 2), (1.0, 0.0, 0.0, -2.0), True, None, None), ((3, 2), (1.0, 0.0, 0.0, -2.0), True, 'other', [1]), ((2, 3), (2.0, 0.0, 0.0, -1.0), False, 'other', [1, 0]), ((3, 3), (1.0, 0.25, 0.25, -1.0), True, 'other', None), ((3, 3), (0.0, 1.5, 1.0, 0.0), False, None, [1])]


@P.case(quick=[w + (g,) for i, w in enumerate(W) for g in ((0.5, 1.5)[i % 2], None)], budget=150)
def whole(cx):
    """the ortho image of a whole image: rectangle around the footprint in the projection asked for, cells of the distance asked for in metres"""
    (nx, ny), (a, b, c, d), coreg, proj, bands, given = cx.p
    fakes.use_gdal(cx)
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    fakes.use_ndimage(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    asked = []
    cx.fake('utm', fakes.fake_utm(asked, 18, 'T'))
    ot = cx.mod(OT)
    x0, y0 = 4.0, 7.0
    det = a * d - b * c
    lift = 0.125
    vals = [cx.int('v%d' % i, 1, 100) for i in range(2)]
    bandshift = 0.0 if coreg else 0.5
    zoom = [1.0, 1.0 if coreg else 1.25]

    def each(*arrays):
        return [list(v) for v in zip(*[list(v.reshape(-1)) for v in arrays])], numpy.shape(arrays[0])

    class Sensor(cx.mod(EO + 'earth_overhead_point_calculators.abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            u, v = lons - x0 - lift * alts - bandshift * (band or 0), lats - y0
            z = zoom[band or 0]
            return (d * u - b * v) / det / z, (a * v - c * u) / det / z

        def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
            z = zoom[band or 0]
            return x0 + z * (a * xs + b * ys) + lift * alts + bandshift * (band or 0), y0 + z * (c * xs + d * ys)

    class Image(cx.mod(EO + 'abstract_earth_overhead_image').AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            raise AssertionError

        def read_band_from_disk(self, band_number):
            return cx.arr([[vals[band_number]] * nx] * ny, 'int16')
    md = cx.mod('resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata').PhysicalCameraMetadata()
    md.set_npix_x(nx), md.set_npix_y(ny), md.set_n_bands(2)
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s._bands_coregistered = coreg
    im = Image()
    im.set_metadata(md)
    im.set_point_calculator(s)
    h = 8.0
    dem = cx.mod('resippy.photogrammetry.dem.constant_elevation_dem').ConstantElevationDem(h)
    bs = [0, 1] if bands is None else bands
    first = 0 if coreg or bands is None else bands[0]
    lonlat = [(x0 + zoom[k] * (a * x + b * y) + lift * h + (0.0 if coreg else bandshift * k), y0 + zoom[k] * (c * x + d * y)) for x in (0, nx - 1) for y in (0, ny - 1) for k in (bs if not coreg else [0])]
    rect = (min(p[0] for p in lonlat), min(p[1] for p in lonlat), max(p[0] for p in lonlat), max(p[1] for p in lonlat))
    local = cx.mod('resippy.utils.proj_utils').decimal_degrees_to_local_utm_proj(-75.0, 43.0)
    asked.clear()
    # the scale between the sensor's coordinates and metres is free; the other maps of the stand-in projections are fixed
    sy = cx.real('metric_sy', 0.25, 4, nice=(0.25, 4)) if given is not None else 1.25
    for other, m in ((local.srs, (cx.real('metric_sx', 0.25, 4, nice=(0.25, 4)) if given is not None or not (b or c) else 0.75, 100.0, sy, -50.0, 0.0)), ('other ', (0.5, 3.0, 2.0, -8.0, 0.0)),
                     (cx.mod('resippy.photogrammetry.crs_defs').PROJ_4326.srs, (0.125, -75.0, 0.0625, 43.0, 0.0))):
        p, q = sorted(('native ', other))
        if p != 'native ' and other != 'native ':
            m = (1 / m[0], -m[1] / m[0], 1 / m[2], -m[3] / m[2], 0.0)
        pj.maps[(p, q)] = m
    conv = lambda p, x, y: pj.apply('native ', p, x, y)
    l0, l1 = conv(local.srs, rect[0], rect[1]), conv(local.srs, rect[2], rect[3])
    wide, high = l1[0] - l0[0], l1[1] - l0[1]
    opt = {}
    if given is not None:
        g = opt['gsd_meters'] = given
    else:
        sx, sy = wide / (rect[2] - rect[0]), high / (rect[3] - rect[1])
        g = zoom[first] * (cx.sqrt((sx * a * (nx - 1)) ** 2 + (sy * c * (nx - 1)) ** 2) / nx + cx.sqrt((sx * b * (ny - 1)) ** 2 + (sy * d * (ny - 1)) ** 2) / ny) / 2
    cx.assume(cx.And(wide >= 1.01 * g, high >= 1.01 * g, wide <= (3.99 if given is not None or not (b or c) else 4.99) * g, high <= (3.99 if given is not None or not (b or c) else 4.99) * g))
    if proj:
        opt['output_proj'] = pj.Proj(proj)
    out = ot.create_full_ortho_gtiff_image(im, dem=dem, bands=bands, nodata_val=-7, **opt)
    n = [next(k for k in (4, 3, 2, 1) if v >= k * g) for v in (wide, high)]
    img = out.get_image_data()
    cx.true(tuple(img.shape) == (n[1], n[0], len(bs)), 'as many whole cells as fit')
    o = (proj + ' ') if proj else 'native '
    p0, p1 = conv(o, rect[0], rect[1]), conv(o, rect[2], rect[3])
    cx.true(out.get_point_calculator().get_projection().srs == o, 'projection asked for')
    cx.eq(list(out.get_point_calculator().get_geot()), [p0[0], (p1[0] - p0[0]) / n[0], 0.0, p1[1], 0.0, -(p1[1] - p0[1]) / n[1]], 'rectangle around the footprint')
    for r in range(n[1]):
        for q in range(n[0]):
            for i, k in enumerate(bs):
                u = rect[0] + (q + 0.5) * (rect[2] - rect[0]) / n[0] - x0 - lift * h - (0.0 if coreg else bandshift * k)
                v = rect[3] - (r + 0.5) * (rect[3] - rect[1]) / n[1] - y0
                z = 1.0 if coreg else zoom[k]
                px, py = (d * u - b * v) / det / z, (a * v - c * u) / det / z
                inside = 0 <= px <= nx - 1 and 0 <= py <= ny - 1
                cx.eq(img[r, q, i], vals[k] if inside else -7, 'value of a cell')
