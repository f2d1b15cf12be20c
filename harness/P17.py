import itertools
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P17', bounds='one to three lines of sight per call (1-D and 2-D, integer and float pixel numbers) in fixed directions over all four quadrants, with lengths of 0 to 6 sampling steps, arbitrary ground heights (given or from the model), arbitrary highest elevation and arbitrary terrain height at every sampled step; constant elevation models of any height under any ray',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the elevation model does not exceed its stated highest elevation', 'native coordinates are in metres (the unit of the sampling distance)'],
         outside='terrain within 1 cm of the line of sight, terrain between the sampled steps, no-data heights, longer lines, sensors in degrees')
OT = 'resippy.photogrammetry.ortho_tools'
A = 'resippy.image_objects.earth_overhead.'
# ground position and the position of the ray at the highest elevation
RAYS = [((0.0, 1000.0), (30.0, 1000.0)), ((5.0, 2000.0), (-15.0, 2008.0)), ((-8.0, 3000.0), (-8.0, 2980.0)), ((2.0, 4000.0), (14.0, 4016.0)),
        ((7.0, 5000.0), (-13.0, 4980.0)), ((1.0, 6000.0), (1.0, 6000.0)), ((3.0, 7000.0), (23.0, 6980.0))]


def env(cx):
    fakes.use_gdal(cx)
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    fakes.use_ndimage(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('utm', fakes.fake_utm([], 18, 'T'))
    return pj


def image(cx, pj, where, band):
    """where(pixel x, pixel y, altitude) -> position"""
    class Sensor(cx.mod(A + 'earth_overhead_point_calculators.abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return None

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            cx.true(band == bands[0], 'band passed on')
            sh = numpy.shape(pixel_xs)
            al = [alts] * int(numpy.prod(sh)) if numpy.shape(alts) == () else list(alts.reshape(-1))
            p = [where(int(a), int(b), h) for a, b, h in zip(pixel_xs.reshape(-1), pixel_ys.reshape(-1), al)]
            return cx.arr([v[0] for v in p]).reshape(sh), cx.arr([v[1] for v in p]).reshape(sh)
    bands = [band]

    class Image(cx.mod(A + 'abstract_earth_overhead_image').AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            raise AssertionError

        def read_band_from_disk(self, band_number):
            raise AssertionError
    s = Sensor()
    s.set_projection(pj.Proj('native'))
    im = Image()
    im.set_point_calculator(s)
    return im


@P.case(quick=[([0], (1,), 5.0, True, 'int64'), ([1], (1,), 6.0, False, 'float64'), ([2, 3], (2,), 5.5, True, 'float64'), ([4, 0], (2, 1), 9.0, True, 'int64'), ([5, 2, 6], (3,), 7.5, True, 'float64'), ([3, 4], (1, 2), 8.0, False, 'int64'), ([5], (1,), 5.0, True, 'float64')],
        thorough=[(list(r), (len(r),), d, g, t) for r in itertools.permutations(range(7), 2) for d in (9.0, 6.0) for g, t in ((True, 'float64'), (False, 'int64'))] + [([i], (1,), d, True, 'int64') for i in range(7) for d in (5.0, 4.0)], budget=120)
def relief(cx):
    which, shape, dist, given, dtype = cx.p
    pj = env(cx)
    n = len(which)
    top = cx.real('highest', -100, 5000)
    rays = [RAYS[i] for i in which]
    g = [cx.real('alt%d' % i, -500, 5000) for i in range(n)] if given else []
    seen = [{} for _ in rays]
    for v in g:
        cx.assume(v <= top)

    class Dem(cx.mod('resippy.photogrammetry.dem.abstract_dem').AbstractDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            cx.true(world_proj is not None and world_proj.srs == 'native ', 'elevations asked in the projection of the positions')
            out = []
            for a, b in zip(world_x.reshape(-1), world_y.reshape(-1)):
                a, b = float(a), float(b)
                k = [i for i in range(n) if abs(b - rays[i][0][1]) < 400][0]
                (x0, y0), (x1, y1) = rays[k]
                d2 = (x1 - x0) ** 2 + (y1 - y0) ** 2
                t = round(((a - x0) * (x1 - x0) + (b - y0) * (y1 - y0)) / d2, 7) if d2 else 0.0
                cx.true(-1e-6 <= t <= 1 + 1e-6 and abs(x0 + t * (x1 - x0) - a) + abs(y0 + t * (y1 - y0) - b) < 1e-4, 'terrain sampled on the line of sight')
                if t not in seen[k]:
                    seen[k][t] = cx.real('h%d_%d' % (k, len(seen[k])), -500, 5000)
                    cx.assume(seen[k][t] <= top)
                out.append(seen[k][t])
            return cx.arr(out).reshape(numpy.shape(world_x))

        def get_highest_alt(self):
            return top

        def get_lowest_alt(self):
            return -500.0

        def get_mean_alt(self):
            return 0.0

        def convert_reference(self, *a, **k):
            raise AssertionError

    def where(x, y, h):
        cx.true(cx.And(h >= top, h <= top + 0.01), 'the sensor is asked for the highest elevation')
        return rays[x][1]
    im = image(cx, pj, where, 2)
    xs = numpy.arange(n).astype(dtype).reshape(shape)
    lon, lat = [numpy.array([r[0][i] for r in rays]).reshape(shape) for i in (0, 1)]
    m = cx.mod(OT).are_pixels_obstructed_by_dem(im, cx.arr(xs, dtype), cx.arr(xs * 0, dtype), cx.arr(lon), cx.arr(lat), Dem(),
                                                 **(dict(alts=cx.arr(g).reshape(shape)) if given else {}), dem_resolution=dist, band=2)
    cx.true(tuple(m.shape) == shape, 'shape')
    for i, v in enumerate(m.reshape(-1)):
        if not given:
            g.append(seen[i][0.0])
        (x0, y0), (x1, y1) = rays[i]
        length = ((x1 - x0) ** 2 + (y1 - y0) ** 2) ** 0.5
        ts = sorted(set(seen[i]) | {0.0, 1.0})
        cx.true(all((q - p) * length <= dist + 1e-4 for p, q in zip(ts, ts[1:])), 'terrain sampled at the requested distance')
        over = [(h, g[i] + (top - g[i]) * t) for t, h in seen[i].items() if t > 1e-6 or given and length == 0]
        cx.true(cx.Or(v == 0, v == 1), 'zero or one')
        if length == 0:
            # a vertical ray only meets the terrain of its own ground position
            cx.true(cx.And(*[cx.Implies(h < g[i] - 0.01, v == 0) for h, los in over]), 'a vertical ray starts on the terrain')
        elif over:
            cx.true(cx.Implies(cx.Or(*[h > los + 0.01 for h, los in over]), v == 1), 'terrain above the line of sight obstructs')
            cx.true(cx.Implies(cx.And(*[h < los - 0.01 for h, los in over]), v == 0), 'terrain below the line of sight does not obstruct')
        else:
            cx.true(v == 0, 'nothing between the ground and the highest elevation')


@P.case(quick=[(1,), (2,), (2, 1)])
def flat(cx):
    """constant elevation, any ray and height: nothing is obstructed"""
    pj = env(cx)
    n = int(numpy.prod(cx.p))
    e = cx.real('elevation', -500, 5000)
    rays = [[cx.real('%s%d' % (s, i), *l) for s, l in (('x', (-50, 50)), ('y', (-50, 50)), ('dx', (-2, 2)), ('dy', (-2, 2)))] for i in range(n)]
    im = image(cx, pj, lambda x, y, h: (rays[x][0] + rays[x][2] * h, rays[x][1] + rays[x][3] * h), 0)
    xs = numpy.arange(n).reshape(cx.p)
    lon, lat = [cx.arr([r[i] + r[2 + i] * e for r in rays]).reshape(cx.p) for i in (0, 1)]
    dem = cx.mod('resippy.photogrammetry.dem.constant_elevation_dem').ConstantElevationDem(e)
    m = cx.mod(OT).are_pixels_obstructed_by_dem(im, cx.arr(xs), cx.arr(xs * 0), lon, lat, dem)
    cx.eq(m.reshape(-1), [0.0] * n, 'flat terrain obstructs nothing')
