from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P40', bounds='every position with latitude -80..84 and longitude -180..180; every shift of 1 to 3 points given as scalars or arrays (1-D, 2-D) in the projections 4326, 3857 and others; polygons of 3..5 vertices (8 when thorough)',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'projections are arbitrary invertible maps, affine per axis', 'the zone division (with its exceptions for Norway and Svalbard) is the published one, which the utm package follows'],
         outside='positions nearer to the poles than the UTM system covers, the accuracy of the metric projection as a measure of ground distance')
M = 'resippy.utils.photogrammetry_utils'
LETTERS = 'CDEFGHJKLMNPQRSTUVWX'


def zone_of(lat, lon):
    if 56 <= lat and lat < 64 and 3 <= lon and lon < 12:
        return 32
    if 72 <= lat and lon >= 0:
        for z, e in ((31, 9), (33, 21), (35, 33), (37, 42)):
            if lon < e:
                return z
    return None


def use_utm(cx):
    """symbolic mode: the utm package's rule; replays use the real package"""
    if not cx.sym:
        return

    def number(latitude, longitude):
        z = zone_of(latitude, longitude)
        return z if z is not None else cx.floor((longitude + 180) / 6) + 1

    def letter(latitude):
        for i, s in enumerate(LETTERS[:-1]):
            if latitude < -80 + 8 * (i + 1):
                return s
        return LETTERS[-1]

    def from_latlon(latitude, longitude, *a, **k):
        if not (-80 <= latitude and latitude <= 84 and -180 <= longitude and longitude <= 180):
            raise ValueError('out of range')
        return cx.real('easting'), cx.real('northing'), number(latitude, longitude), letter(latitude)
    cx.fake('utm', fakes.Namespace('utm', from_latlon=from_latlon, latlon_to_zone_number=number, latitude_to_zone_letter=letter))


@P.case(quick=['anywhere', 'norway', 'svalbard'])
def zone(cx):
    """the local projection is the UTM zone and hemisphere of the position"""
    fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    use_utm(cx)
    ylo, yhi, xlo, xhi = dict(anywhere=(-80, 84, -180, 180), norway=(55, 65, 0, 14), svalbard=(71, 84, -4, 45))[cx.p]
    lon, lat = cx.real('lon', xlo, xhi), cx.real('lat', ylo, yhi)
    cx.assume(lon < 180)
    proj = cx.mod('resippy.utils.proj_utils').decimal_degrees_to_local_utm_proj(lon, lat)
    z, south = utm_definition(proj)
    cx.true(z is not None, 'a UTM zone by number')
    want = zone_of(lat, lon)
    if want is None:
        cx.true(cx.And(6 * z - 186 <= lon, lon < 6 * z - 180), 'zone of the longitude')
    else:
        cx.true(z == want, 'zone of the exception')
    if lat < 0:
        cx.true(bool(south), 'southern hemisphere')
    else:
        cx.true(not south, 'northern hemisphere')


SHIFTS = [('epsg:4326', ()), ('epsg:4326', (2,)), ('local', (3,)), ('local', (2, 1)), ('epsg:3857', (2,)), ('local', ())]


@P.case(quick=SHIFTS, thorough=[('epsg:4326', (4,)), ('local', (2, 3)), ('local', (1, 1))])
def shift(cx):
    """points moved by the metres given, in their own projection"""
    srs, shape = cx.p
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    m = cx.mod(M)
    crs = cx.mod('resippy.photogrammetry.crs_defs')
    proj = pj.Proj('local') if srs == 'local' else crs.PROJ_4326 if '4326' in srs else crs.PROJ_3857
    e, n = cx.real('east', -5000, 5000, nice=(-8, 8)), cx.real('north', -5000, 5000, nice=(-8, 8))
    x, y = (cx.array('x', shape, nice=(-8, 8)), cx.array('y', shape, nice=(-8, 8))) if shape else (cx.real('x', nice=(-8, 8)), cx.real('y', nice=(-8, 8)))
    fx, fy = (list(x.reshape(-1)), list(y.reshape(-1))) if shape else ([x], [y])
    fx, fy = [v + 0.0 for v in fx], [v + 0.0 for v in fy]
    rx, ry = m.shift_points_by_meters(e, n, proj, x, y)
    if shape:
        cx.true(tuple(rx.shape) == shape and tuple(ry.shape) == shape, 'shape kept')
        cx.eq(x.reshape(-1), fx, 'given points left alone')
        cx.eq(y.reshape(-1), fy, 'given points left alone')
        rx, ry = rx.reshape(-1), ry.reshape(-1)
    else:
        rx, ry = [rx], [ry]
    metric = crs.PROJ_3857.srs
    for i in range(len(fx)):
        a, b = pj.apply(proj.srs, metric, fx[i], fy[i])
        c, d = pj.apply(proj.srs, metric, rx[i], ry[i])
        cx.eq([c - a, d - b], [e, n], 'moved by the metres east and north')
    cx.true('3857' in metric and '4326' in crs.PROJ_4326.srs, 'projections carry their own codes')


@P.case(quick=[(3, 'a', 'b'), (4, 'b', 'a'), (5, 'a', 'b')], thorough=[(8, 'a', 'b')])
def reproject(cx):
    """every vertex transformed from the source to the destination, in order"""
    n, s, d = cx.p
    pj = fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    pts = [(cx.real('x%d' % i, nice=(-8, 8)), cx.real('y%d' % i, nice=(-8, 8))) for i in range(n)]
    src, dst = pj.Proj(s), pj.Proj(d)
    g = cx.mod(M).reproject_geometry(fakes.polygon(cx, pts), src, dst)
    want = [pj.apply(src.srs, dst.srs, *p) for p in pts]
    xs, ys = g.exterior.coords.xy
    cx.true(len(xs) == n + 1, 'closed ring of the same vertices')
    cx.eq(list(xs)[:n], [w[0] for w in want], 'x of each vertex')
    cx.eq(list(ys)[:n], [w[1] for w in want], 'y of each vertex')
    back = cx.mod(M).reproject_geometry(g, dst, src)
    xs, ys = back.exterior.coords.xy
    cx.eq(list(xs)[:n], [p[0] for p in pts], 'x after the way back')
    cx.eq(list(ys)[:n], [p[1] for p in pts], 'y after the way back')


@P.case(quick=[False, True])
def definitions(cx):
    """a projection read from its text form is the one the text describes"""
    fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    use_utm(cx)
    m = cx.mod('resippy.utils.proj_utils')
    text = '+proj=utm +zone=%s' % cx.text(cx.int('zone', 1, 60)) + (' +south' if cx.p else '')
    wkt = 'WKT[%s]' % text
    cx.true(m.wkt_to_proj_string(wkt).strip() == text, 'text of the projection')
    cx.true(text in m.wkt_to_proj(wkt).srs, 'projection')
    cx.true(m.wkt_to_osr_spatialref(wkt).ExportToProj4().strip() == text, 'spatial reference')
