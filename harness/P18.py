import itertools
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P18', bounds='images of 2x3, 3x3, 1x3, 3x1 and 1x1 pixels with 1 to 3 bands, an arbitrary ray per pixel and band, flat and sloped elevation models of any height and slope, every band list, co-registered and per-band sensors; windows of 2 to 5 samples around every position inside and outside of 2x3 to 4x5 images of arbitrary integer content and no-data value',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the convex hull and union of points are those of shapely (replayed against the real library)', 'the elevation model lies within its stated height range'],
         outside='larger images, footprint detail below the simplification tolerance of 0.001, positions exactly between two samples, windows of a single sample')
OT = 'resippy.photogrammetry.ortho_tools'
A = 'resippy.image_objects.earth_overhead.'


def env(cx):
    fakes.use_gdal(cx)
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    fakes.use_ndimage(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('utm', fakes.fake_utm([], 18, 'T'))
    return pj


def image(cx, pj, ny, nx, nb, coreg, ray=None, where=None, read=None, nodata=None):
    """ray(column, row, band) -> (lon0, lat0, dlon, dlat)"""
    class Sensor(cx.mod(A + 'earth_overhead_point_calculators.abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return where(lons, lats, alts, band)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            sh = numpy.shape(pixel_xs)
            n = int(numpy.prod(sh))
            al = [alts] * n if numpy.shape(alts) == () else list(alts.reshape(-1))
            r = [ray(int(a), int(b), band) for a, b in zip(pixel_xs.reshape(-1), pixel_ys.reshape(-1))]
            return cx.arr([v[0] + v[2] * h for v, h in zip(r, al)]).reshape(sh), cx.arr([v[1] + v[3] * h for v, h in zip(r, al)]).reshape(sh)

    class Image(cx.mod(A + 'abstract_earth_overhead_image').AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            raise AssertionError

        def read_band_from_disk(self, band_number):
            return read(band_number)
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    s._bands_coregistered = coreg
    md = cx.mod(A + 'physical_camera.physical_camera_metadata').PhysicalCameraMetadata()
    md.set_npix_x(nx), md.set_npix_y(ny), md.set_n_bands(nb)
    if nodata is not None:
        md.set_nodata_val(nodata)
    im = Image()
    im.set_metadata(md)
    im.set_point_calculator(s)
    return im


def rays(cx, ny, nx, bands):
    R = {(c, r, b): (cx.real('lon%d_%d_%d' % (c, r, b), -200, 200), cx.real('lat%d_%d_%d' % (c, r, b), -200, 200), cx.real('dx%d_%d_%d' % (c, r, b), -1, 1), cx.real('dy%d_%d_%d' % (c, r, b), -1, 1))
         for r in range(ny) for c in range(nx) for b in bands}
    return R


def terrain(cx, kind):
    if kind is None:
        return None, 0.0, lambda x, y: 0.0
    if kind == 'flat':
        e = cx.real('elevation', -100, 100)
        return cx.mod('resippy.photogrammetry.dem.constant_elevation_dem').ConstantElevationDem(e), e, lambda x, y: e
    e, ex, ey = cx.real('e', -50, 50), cx.real('ex', -0.5, 0.5), cx.real('ey', -0.5, 0.5)
    top = 400.0

    class Dem(cx.mod('resippy.photogrammetry.dem.abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            cx.true(world_proj is not None and world_proj.srs == 'native ', 'elevations asked in the projection of the positions')
            return e + ex * world_x + ey * world_y

        def get_highest_alt(self):
            return top

        def get_lowest_alt(self):
            return -400.0

        def get_mean_alt(self):
            return 0.0

        def convert_reference(self, *a, **k):
            raise AssertionError
    return Dem(), top, lambda x, y: e + ex * x + ey * y


def under(r, top, h):
    """position on the ray at the terrain height under the position at the highest elevation"""
    z = h(r[0] + r[2] * top, r[1] + r[3] * top)
    return r[0] + r[2] * z, r[1] + r[3] * z


def points(cx, hull):
    if cx.sym:
        return list(hull._pts)
    if hull.geom_type == 'Polygon':
        return list(hull.exterior.coords)
    return list(hull.coords)


@P.case(quick=[((2, 3), True, None, 'flat'), ((3, 3), True, [0], None), ((2, 3), False, [2, 0], 'slope'), ((1, 3), False, None, 'flat'), ((3, 1), True, None, 'slope'), ((2, 2), False, 1, 'flat'), ((1, 1), True, None, 'flat')],
        thorough=[(s, c, b, k) for s in ((2, 3), (3, 3), (1, 3), (3, 1), (4, 4)) for c, b in ((True, None), (False, None), (False, [1]), (False, 2), (False, [2, 0]), (True, 1)) for k in (None, 'flat', 'slope')], budget=120)
def footprint(cx):
    (ny, nx), coreg, bands, kind = cx.p
    pj = env(cx)
    used = [0] if coreg else list(range(3)) if bands is None else [bands] if isinstance(bands, int) else bands
    R = rays(cx, ny, nx, used)
    asked = []

    def ray(c, r, b):
        b = 0 if coreg else int(b)
        asked.append((c, r, b))
        return R[(c, r, b)] if (c, r, b) in R else (0.0, 0.0, 0.0, 0.0)
    im = image(cx, pj, ny, nx, 3, coreg, ray)
    dem, top, h = terrain(cx, kind)
    f = cx.mod(OT).get_extent(im, *([dem] if kind else []), **({} if bands is None else dict(bands=bands)))
    border = [(c, r) for r in range(ny) for c in range(nx) if r in (0, ny - 1) or c in (0, nx - 1)]
    cx.true(set(k[2] for k in asked) == set(used), 'exactly the requested bands')
    cx.true(set((k[0], k[1]) for k in asked) >= set(border), 'every border pixel')
    e = [under(R[(c, r, b)], top, h) for b in used for c, r in border]
    g = points(cx, f)
    pair = lambda p, qs: any(cx.same(p[0], q[0]) and cx.same(p[1], q[1]) for q in qs)
    exact = cx.sym and all(pair(p, g) for p in e) and all(pair(p, e) for p in g)
    for n, d in (('east', lambda p: p[0]), ('west', lambda p: -p[0]), ('north', lambda p: p[1]), ('south', lambda p: -p[1]), ('north-east', lambda p: p[0] + p[1]), ('north-west', lambda p: p[1] - p[0]),
                 ('south-east', lambda p: p[0] - p[1]), ('south-west', lambda p: -p[0] - p[1])):
        if exact:           # hull of exactly the same points
            cx.true(True, 'footprint reaches as far %s as the border pixels' % n)
            continue
        a, b = cx.max(*[d(p) for p in g]), cx.max(*[d(p) for p in e])
        cx.true(cx.And(a - b <= 0.01, b - a <= 0.01), 'footprint reaches as far %s as the border pixels' % n)


@P.case(quick=[((9, 12), False, None), ((12, 7), True, [0])])
def larger(cx):
    """a larger image with fixed rays, the one of an arbitrary border pixel anywhere"""
    (ny, nx), coreg, bands = cx.p
    pj = env(cx)
    used = [0] if coreg else [0, 1, 2]
    border = [(c, r) for r in range(ny) for c in range(nx) if r in (0, ny - 1) or c in (0, nx - 1)]
    far = cx.choice('pixel', [border[0], border[nx // 2], border[-1], border[-3], (0, ny // 2), (nx - 1, ny // 2)])
    x, y = cx.real('x', -200, 200), cx.real('y', -200, 200)
    b0 = used[-1]

    def ray(c, r, b):
        b = 0 if coreg else int(b)
        return (x, y, 0.0, 0.0) if (c, r, b) == far + (b0,) else (2.0 * c + 0.25 * r + b, 100.0 - 1.5 * r - 0.125 * c - b, 0.125, -0.25)
    im = image(cx, pj, ny, nx, 3, coreg, ray)
    e = cx.real('elevation', -10, 10)
    f = cx.mod(OT).get_extent(im, cx.mod('resippy.photogrammetry.dem.constant_elevation_dem').ConstantElevationDem(e), **({} if bands is None else dict(bands=bands)))
    g = points(cx, f)
    ps = [under(ray(c, r, b), e, lambda x, y: e) for b in used for c, r in border]
    for n, d in (('east', lambda p: p[0]), ('west', lambda p: -p[0]), ('north', lambda p: p[1]), ('south', lambda p: -p[1]), ('north-east', lambda p: p[0] + p[1]), ('south-east', lambda p: p[0] - p[1])):
        a, b = cx.max(*[d(p) for p in g]), cx.max(*[d(p) for p in ps])
        cx.true(cx.And(a - b <= 0.01, b - a <= 0.01), 'footprint reaches as far %s as the border pixels' % n)


@P.case(quick=[((2, 3), None, 'slope', 0), ((3, 2), (2,), 'slope', 1), ((2, 3), (2, 2), 'flat', 2), ((2, 2), (1,), None, 0)])
def positions(cx):
    (ny, nx), shape, kind, band = cx.p
    pj = env(cx)
    R = rays(cx, ny, nx, [0, 1, 2])
    im = image(cx, pj, ny, nx, 3, False, lambda c, r, b: R[(c, r, b)])
    dem, top, h = terrain(cx, kind)
    kw = {}
    if shape is not None:
        n = int(numpy.prod(shape))
        px, py = [(2 * i + 1) % nx for i in range(n)], [(i + 1) % ny for i in range(n)]
        kw = dict(pixels_x=numpy.array(px).reshape(shape), pixels_y=numpy.array(py).reshape(shape))
        cells = list(zip(px, py))
    else:
        shape = (ny, nx)
        cells = [(c, r) for r in range(ny) for c in range(nx)]
    lon, lat = cx.mod(OT).get_pixel_lon_lats(im, dem, band, **kw)
    cx.true(tuple(lon.shape) == shape and tuple(lat.shape) == shape, 'shape')
    e = [under(R[(c, r, band)], top, h) for c, r in cells]
    cx.eq(lon.reshape(-1), [p[0] for p in e], 'longitude of each pixel')
    cx.eq(lat.reshape(-1), [p[1] for p in e], 'latitude of each pixel')


@P.case(quick=[(2, 3, 2, 2), (3, 4, 3, 1), (3, 4, 4, 1), (2, 2, 5, 1)], thorough=[(ny, nx, w, 1) for ny, nx in ((2, 3), (3, 4), (4, 3), (3, 5)) for w in (2, 3, 4, 5, 8)], budget=120, tbudget=400)
def windows(cx):
    """one position anywhere; the content is known to be valid or not per sample"""
    ny, nx, window, nb = cx.p
    pj = env(cx)
    half = (window + 1) // 2 if window % 4 == 3 else window // 2         # halves round to even
    x, y = cx.real('x', -3, nx + 2), cx.real('y', -3, ny + 2)
    for v in (x, y):
        f = v - cx.floor(v)
        cx.assume(cx.Or(f <= 0.49, f >= 0.51))
    nodata = cx.int('nodata', -50, 50)
    d = [cx.array('d%d' % b, (ny, nx), dtype='int32', lo=-1000, hi=1000) for b in range(nb)]
    for a in d:
        for i in range(ny):
            for j in range(nx):
                if (i * nx + j) % 5 not in (1, 3):
                    cx.assume(a[i, j] != nodata)
    shift = [0.0] + [cx.choice('shift%d' % b, (-1.0, 1.0)) for b in range(1, nb)]
    lon, lat, alt = cx.arr([5.0]), cx.arr([7.0]), cx.arr([3.0])

    def where(lo, la, al, b):
        cx.eq([lo[0], la[0], al[0]], [5.0, 7.0, 3.0], 'mapping asked for the position')
        return lo * 0.0 + x + shift[b], la * 0.0 + y
    im = image(cx, pj, ny, nx, nb, False, where=where, read=lambda b: d[b], nodata=nodata)
    v = cx.mod(OT).get_pixel_values(im, lon, lat, alt, window=window)
    cx.true(tuple(v.shape) == (nb, 1), 'one value per band and position')
    r = cx.floor(y + 0.5)
    r = next(i for i in range(-3, ny + 3) if i == 2 + ny or r == i)
    for b in range(nb):
        c = cx.floor(x + shift[b] + 0.5)
        c = next(i for i in range(-4, nx + 4) if i == 3 + nx or c == i)
        cells = [d[b][i, j] + 0.0 for i in range(max(r - half, 0), min(r + half, ny)) for j in range(max(c - half, 0), min(c + half, nx))]
        ok = [q for q in cells if q != nodata]
        if ok:
            cx.eq(v[b, 0], sum0(ok) / len(ok), 'mean of the valid samples in the window')
        else:
            cx.true(cx.isnan(v[b, 0]), 'not-a-number without valid samples')


@P.case()
def several(cx):
    """positions and bands keep their places"""
    pj = env(cx)
    d = [cx.array('d%d' % b, (3, 4), dtype='float64', lo=1, hi=100) for b in range(2)]
    at = {0: [(1.0, 1.0), (3.0, 2.0), (2.0, 1.0)], 1: [(2.0, 2.0), (1.0, 1.0), (3.0, 1.0)]}

    def where(lo, la, al, b):
        return cx.arr([p[0] for p in at[b]]), cx.arr([p[1] for p in at[b]])
    im = image(cx, pj, 3, 4, 2, False, where=where, read=lambda b: d[b], nodata=0.0)
    v = cx.mod(OT).get_pixel_values(im, cx.arr([1.0, 2.0, 3.0]), cx.arr([1.0, 2.0, 3.0]), cx.arr([0.0, 0.0, 0.0]), window=2)
    cx.true(tuple(v.shape) == (2, 3), 'one value per band and position')
    for b in range(2):
        for i, (c, r) in enumerate(at[b]):
            c, r = int(c), int(r)
            cx.eq(v[b, i], (d[b][r - 1, c - 1] + d[b][r - 1, c] + d[b][r, c - 1] + d[b][r, c]) / 4, 'mean of the window of its own position and band')


@P.case(quick=[True, False])
def located_image(cx):
    """an image with its own pixel positions made from a sensor and an elevation model"""
    pj = env(cx)
    ny, nx = 2, 3
    R = rays(cx, ny, nx, [0])
    im = image(cx, pj, ny, nx, 2, True, lambda c, r, b: R[(c, r, 0)])
    data = cx.array('data', (ny, nx, 2), nice=(-8, 8))
    im.set_image_data(data)
    dem, top, h = terrain(cx, 'flat' if cx.p else None)
    g = cx.mod(OT).create_igm_image(im, *([dem] if cx.p else []))
    e = [(R[(c, r, 0)][0] + R[(c, r, 0)][2] * top, R[(c, r, 0)][1] + R[(c, r, 0)][3] * top) for r in range(ny) for c in range(nx)]
    xs, ys = numpy.array([c for r in range(ny) for c in range(nx)]), numpy.array([r for r in range(ny) for c in range(nx)])
    lon, lat = g.get_point_calculator().pixel_x_y_alt_to_lon_lat(cx.arr(xs), cx.arr(ys), 0.0)
    cx.eq(lon, [p[0] for p in e], 'longitude of each pixel')
    cx.eq(lat, [p[1] for p in e], 'latitude of each pixel')
    cx.eq(g.get_image_data(), data, 'image content')
    md = g.get_metadata()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [nx, ny, 2], 'size')
    cx.true(g.get_point_calculator().get_projection().srs == 'native ', 'projection')
