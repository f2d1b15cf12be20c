import numpy
from sv.prop import Prop
from sv import fakes
from sv import arr as A
from .lib import *

P = Prop('P42', bounds='every sensor position, attitude and mounting attitude (mounting in six orders; degrees and radians independently), focal length and pixel pitch, two images in a row from one simulator of 2x3 and 3x1 pixels, source rasters of 3x4 and 2x2 pixels of any content and geotransform, in the projection of the raster and in another one',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the ground position of each pixel is an arbitrary input (P11 decides the solver that finds it)',
                      'the angles found for a rotation matrix are arbitrary inputs (P01 decides their recovery)', 'map_coordinates returns an arbitrary value per place asked for', 'projections are arbitrary invertible maps, affine per axis'],
         outside='spline interpolation inside scipy; mounting angles within 1e-7 of zero but not zero')
U = 'resippy.utils.'
CALC = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc'
D2R = 0.017453292519943295
LEN = {'meters': 1.0, 'feet': 0.3048, 'km': 1000.0, 'mm': 0.001, 'cm': 0.01, 'micrometer': 1e-6}
DEF = dict(order='rpy', mount='degrees', att='degrees', spatial='meters', pitch='micrometer', focal='mm', default=True)


def options(**k):
    return tuple(sorted(dict(DEF, default=False, **k).items()))


DEFAULT = tuple(sorted(DEF.items()))
POSE = [DEFAULT, options(order='ypr', mount='radians', att='degrees', spatial='feet'), options(order='pyr', mount='degrees', att='radians', pitch='mm', focal='cm'),
        options(order='yrp', mount='radians', att='radians')]


def env(cx):
    pj = fakes.use_pyproj(cx)
    g = fakes.use_gdal(cx)
    fakes.use_shapely(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    asked = []

    def map_coordinates(input, coordinates, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
        cx.true(order < 2 or bool(prefilter), 'the interpolation reproduces the samples')
        c = [numpy.asarray(v) if not cx.sym else v for v in coordinates]
        shape = tuple(c[0].shape)
        n = int(numpy.prod(shape))
        out = cx.array('shown%d_' % len(asked), (n,), nice=(-8, 8))
        asked.append((input, [list(v.reshape(-1)) for v in c], [out[i] for i in range(n)]))
        return out.reshape(shape)
    nd = fakes.Namespace('scipy.ndimage', map_coordinates=map_coordinates)
    cx.fake('scipy.ndimage', nd)
    cx.fake('scipy', fakes.Namespace('scipy', ndimage=nd))
    return pj, g, asked


def simulate(cx, opts, size, raster, other_proj, poses):
    """builds the simulator and returns what the checks need"""
    o = dict(opts)
    pj, g, asked = env(cx)
    ny, nx = size
    data = cx.array('src', raster, nice=(-8, 8))
    orig = [data[i, j] + 0.0 for i in range(raster[0]) for j in range(raster[1])]
    gt = [cx.real('gt%d' % i, nice=(-4, 4)) for i in range(6)]
    det = gt[1] * gt[5] - gt[2] * gt[4]
    cx.assume(cx.Or(det >= 0.0625, det <= -0.0625))
    g.put('src.tif', [data, data * 2 + 1], 7, gt, wkt='WKT[raster]')
    calc = cx.mod(CALC)
    pu = cx.mod(U + 'photogrammetry_utils')
    ground = [{(r, c): (cx.real('lon%d_%d_%d' % (k, r, c), nice=(-8, 8)), cx.real('lat%d_%d_%d' % (k, r, c), nice=(-8, 8))) for r in range(ny) for c in range(nx)} for k in range(poses)]
    solved, seen = [], []
    state = dict(k=0)

    def to_ground(self, pixel_xs, pixel_ys, alts=None, band=None):
        sh = tuple(numpy.shape(pixel_xs))
        xs, ys = [list(v.reshape(-1)) for v in (pixel_xs, pixel_ys)]
        seen.append((state['k'], list(alts.reshape(-1)) if numpy.shape(alts) else [alts]))
        p = [ground[state['k']][(int(y), int(x))] for x, y in zip(xs, ys)]
        return cx.arr([v[0] for v in p]).reshape(sh), cx.arr([v[1] for v in p]).reshape(sh)
    found = [[cx.angle('%s%d' % (n, k)) for n in ('omega', 'phi', 'kappa')] for k in range(poses)]

    def solve(m, *a, **k):
        solved.append(rows(m))
        return tuple(found[state['k']])
    calc.IdealPinholeFpaLocalUtmPointCalc._pixel_x_y_alt_to_lon_lat_native = to_ground
    pu.solve_for_omega_phi_kappa = solve
    mod = cx.mod(U + 'physical_camera_simulator')

    f = cx.real('f', 0.5, 5000, nice=(1, 64))
    proj = pj.Proj('elsewhere') if other_proj else None
    if o['default']:
        sim = mod.PhysicalCameraSimulator('src.tif', f, nx, ny, world_projection=proj)
        mount, px, py = [0.0, 0.0, 0.0], 5.0, 5.0
    else:
        mu = 'rad' if o['mount'] == 'radians' else 'deg'
        mount = [cx.angle(n, mu) for n in ('b_roll', 'b_pitch', 'b_yaw')]
        for b in mount:
            cx.assume(cx.Or(b > 1e-7, b < -1e-7))
        px, py = cx.real('px', 0.25, 100, nice=(1, 8)), cx.real('py', 0.25, 100, nice=(1, 8))
        sim = mod.PhysicalCameraSimulator('src.tif', f, nx, ny, *mount, px, py, o['pitch'], o['focal'], o['mount'], o['order'], o['spatial'], o['att'], proj)
        mount = [b if mu == 'rad' else b * D2R for b in mount]
    au = 'rad' if o['att'] == 'radians' else 'deg'
    res = []
    for k in range(poses):
        state['k'] = k
        at = [cx.real('%s%d' % (n, k), nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
        if o['default']:   # one angle free: mounting angles of zero are taken as tiny ones, so the check is up to a tolerance
            att = [30.0, cx.angle('pitch%d' % k, au), -60.0]
        else:
            att = [cx.angle('%s%d' % (n, k), au) for n in ('roll', 'pitch', 'yaw')]
        im = sim.create_overhead_image_object(*at, *att)
        res.append((im, at, [a if au == 'rad' else a * D2R for a in att]))
    P_ = 'raster' if not other_proj else 'elsewhere'
    return dict(o=o, sim=sim, res=res, asked=asked, solved=solved, seen=seen, found=found, ground=ground, mount=mount, f=f * LEN[o['focal']], pitch=(px * LEN[o['pitch']], py * LEN[o['pitch']]),
                gt=gt, orig=orig, pj=pj, proj=P_, data=data, raster=raster)


@P.case(quick=[(p, other) for p in POSE for other in (False, True)][:6], thorough=[(options(order=r, mount=m, att=a), True) for r in ORDERS for m in ('degrees', 'radians') for a in ('degrees', 'radians')])
def pose(cx):
    """the image carries a camera at the position given, turned by attitude and mounting angles, each in its own unit"""
    opts, other = cx.p
    s = simulate(cx, opts, (2, 3), (2, 2), other, 1)
    o = s['o']
    im, at, att = s['res'][0]
    want = mul(rotation(cx, o['order'], *s['mount']), rotation(cx, 'rpy', *att))
    cx.true(len(s['solved']) == 1, 'orientation found once')
    cx.eq(s['solved'][0], want, 'mounting rotation after the attitude', atol=1e-6)
    m = rotation(cx, 'rpy', *s['found'][0])
    X = [at[0], at[1], at[2] * LEN[o['spatial']]]
    u, v, t = cx.real('u', -2000, 2000, nice=(-8, 8)), cx.real('v', -2000, 2000, nice=(-8, 8)), cx.real('t', 1, 4000, nice=(1, 400))
    d = vec(tr(m), [u * s['pitch'][0] * t, v * s['pitch'][1] * t, -1 * s['f'] * t])
    pc = im.get_point_calculator()
    x, y = pc.lon_lat_alt_to_pixel_x_y(*[cx.arr([X[i] + d[i]]) for i in range(3)])
    cx.eq(x, [3 / 2.0 + u], 'column of a point on the ray')
    cx.eq(y, [2 / 2.0 - v], 'row of a point on the ray, counted from the top')
    cx.true(pc.get_projection().srs.strip() == s['proj'], 'projection of the camera')
    cx.true(s['sim'].world_projection.srs.strip() == s['proj'], 'world projection')


@P.case(quick=[((2, 3), (3, 4), False), ((3, 1), (2, 2), True), ((2, 3), (2, 2), True)], thorough=[((3, 4), (4, 3), True), ((1, 5), (5, 2), False)])
def render(cx):
    """each pixel shows the raster where the camera maps it to the ground; every image of a simulator stands for itself"""
    size, raster, other = cx.p
    s = simulate(cx, DEFAULT, size, raster, other, 2)
    ny, nx = size
    gt, pj = s['gt'], s['pj']
    cx.true(len(s['asked']) == 2, 'one look up per image')
    cx.true(all(bool(a == 0) for _, alts in s['seen'] for a in alts), 'ground height')
    cx.assume(s['res'][0][2][1] - s['res'][1][2][1] > 0.01)     # another attitude, maybe from the same place
    u, v, t = cx.real('u', -2000, 2000, nice=(-8, 8)), cx.real('v', -2000, 2000, nice=(-8, 8)), cx.real('t', 1, 4000, nice=(1, 400))
    for k, (im, at, att) in enumerate(s['res']):
        d = vec(tr(rotation(cx, 'rpy', *s['found'][k])), [u * s['pitch'][0] * t, v * s['pitch'][1] * t, -1 * s['f'] * t])
        x, y = im.get_point_calculator().lon_lat_alt_to_pixel_x_y(*[cx.arr([a + b]) for a, b in zip(at, d)])
        cx.eq(list(x) + list(y), [nx / 2.0 + u, ny / 2.0 - v], 'camera of each image')
        src, (rr, cc), shown = s['asked'][k]
        cx.true(tuple(src.shape) == raster, 'source raster')
        cx.eq(src.reshape(-1), s['orig'], 'source raster content')
        cx.true(len(rr) == ny * nx and len(cc) == ny * nx, 'one place per pixel')
        for i, (r, c) in enumerate((r, c) for r in range(ny) for c in range(nx)):
            lon, lat = s['ground'][k][(r, c)]
            if other:
                lon, lat = pj.apply('elsewhere ', 'raster ', lon, lat)
            cx.eq(gt[0] + gt[1] * cc[i] + gt[2] * rr[i], lon, 'raster column and row of the ground point (x)')
            cx.eq(gt[3] + gt[4] * cc[i] + gt[5] * rr[i], lat, 'raster column and row of the ground point (y)')
        d = im.get_image_data()
        cx.true(tuple(d.shape) == (ny, nx, 1), 'size of the image')
        cx.eq(d.reshape(-1), shown, 'pixels in their place')
        md = im.get_metadata()
        cx.true(md.get_npix_x() == nx and md.get_npix_y() == ny and md.get_n_bands() == 1, 'size in the metadata')
        cx.eq(im.read_band_from_disk(0).reshape(-1), shown, 'band of the image')
