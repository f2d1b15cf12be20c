import itertools
import os
import uuid
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P13', bounds='sensors of 1 to 6 cameras with arbitrary camera models (bilinear forward and inverse maps with any coefficients), every band index, scalar, 1-D and 2-D points, native and another projection, cameras with and without an inverse of their own; every sequence of listing, replacing (any index) and appending cameras in the bound; five-band files in Pix4D and OpenCV form with the bands described in any order, multi-band arrays of 1 to 3 bands',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'a projection pair is an arbitrary invertible axis-wise affine map', 'the image files are read and written faithfully by Pillow and imageio (stand-in)'],
         outside='band indices beyond the number of cameras, more cameras, camera models themselves (P01 to P11)')
C = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
M = 'resippy.image_objects.earth_overhead.micasense.'


def camera_class(cx, inverse=True):
    class Camera(cx.mod(C + 'abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def __init__(self, c):
            super().__init__()
            self.c = c
            self.model = None
            self.asked = []

        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            c = self.c
            self.asked.append(band)
            return c[0] + c[1] * lons + c[2] * alts, c[3] + c[4] * lats + c[2] * alts

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            c = self.c
            self.asked.append(band)
            return (c[4] * pixel_xs + c[5] * alts, c[1] * pixel_ys - c[5] * alts) if inverse else None

        def set_distortion_model(self, m):
            self.model = m
    return Camera


def cameras(cx, n, inverse=True):
    cls = camera_class(cx, inverse)
    return [cls([cx.real('c%d_%d' % (k, i), *((-4, 4) if i not in (1, 4) else (0.5, 2)), nice=(-2, 2)) for i in range(6)]) for k in range(n)]


def model(cx, cams, proj):
    s = cx.mod(C + 'earth_overhead_sensor_model').EarthOverheadSensorModel()
    s.set_point_calcs(list(cams))
    s.set_projection(proj)
    return s


def pts(cx, shape, names='xyz'):
    return [cx.real(n, nice=(-4, 4)) if shape == 's' else cx.array(n, shape, nice=(-4, 4)) for n in names]


def lst(v):
    return list(v.reshape(-1)) if numpy.ndim(v) else [v]


@P.case(quick=[(1, 's', None), (6, 's', None), (3, (2,), None), (4, (2, 1), 'other'), (3, 's', 'other')])
def mapping(cx):
    n, shape, world = cx.p
    pj = fakes.use_pyproj(cx)
    cams = cameras(cx, n)
    s = model(cx, cams, pj.Proj('native'))
    b = cx.int('band', 0, n - 1)
    w = None if world is None else pj.Proj(world)
    p = pts(cx, shape)
    got = s.lon_lat_alt_to_pixel_x_y(*p, world_proj=w, band=b)
    inv = s.pixel_x_y_alt_to_lon_lat(*p, world_proj=w, band=b)
    cx.true(all(m.asked == [] or all(q is not None and bool(q == b) for q in m.asked) for m in cams) and any(m.asked for m in cams), 'the camera is told the band')
    for i, (x, y, z) in enumerate(zip(*[lst(v) for v in p])):
        lo, la = (x, y) if world is None else pj.apply(w.srs, 'native ', x, y)
        c = [cx.sel([m.c[j] for m in cams], b) for j in range(6)]
        cx.eq(lst(got[0])[i], c[0] + c[1] * lo + c[2] * z, 'pixel x of the requested band')
        cx.eq(lst(got[1])[i], c[3] + c[4] * la + c[2] * z, 'pixel y of the requested band')
        e = (c[4] * x + c[5] * z, c[1] * y - c[5] * z)
        e = e if world is None else pj.apply('native ', w.srs, *e)
        cx.eq([lst(inv[0])[i], lst(inv[1])[i]], list(e), 'ground position of the requested band')


@P.case(quick=[(2, 's'), (3, (2,))])
def solved(cx):
    """cameras without an inverse: the ground position is solved with the camera of the band"""
    n, shape = cx.p
    pj = fakes.use_pyproj(cx)
    if cx.sym:
        real = cx.np.finfo
        cx.np.finfo = lambda d: fakes.Namespace('finfo', eps=0.0625, max=64.0, min=-64.0, dtype=real(d).dtype)
    cams = cameras(cx, n, False)
    s = model(cx, cams, pj.Proj('native'))
    s.set_approximate_lon_lat_center(cx.real('lon0', -4, 4), cx.real('lat0', -4, 4))
    b = cx.choice('band', range(n))
    x, y = pts(cx, shape, 'xy')
    alt = cx.real('alt', -4, 4)
    lon, lat = s.pixel_x_y_alt_to_lon_lat(x, y, alt, band=b)
    c = cams[b].c
    for i, (px, py) in enumerate(zip(lst(x), lst(y))):
        cx.eq([c[0] + c[1] * lst(lon)[i] + c[2] * alt, c[3] + c[4] * lst(lat)[i] + c[2] * alt], [px, py], 'the solution images at the pixel', atol=0.02)


@P.case(quick=[1, 2, 3])
def editing(cx):
    """listing, replacing and appending"""
    n = cx.p
    pj = fakes.use_pyproj(cx)
    cams = cameras(cx, n + 3)
    s = model(cx, cams[:n], pj.Proj('native'))
    cx.true(s.get_num_point_calcs() == n, 'number of cameras')
    exp = list(cams[:n])
    s.add_point_calc(cams[n])
    exp.append(cams[n])
    k = cx.choice('replaced', range(n + 1))
    s.update_point_calc(k, cams[n + 1])
    exp[k] = cams[n + 1]
    s.add_point_calc(cams[n + 2])
    exp.append(cams[n + 2])
    cx.true(s.get_num_point_calcs() == n + 2 and len(s.get_point_calcs()) == n + 2, 'number of cameras after editing')
    cx.true(all(a is b for a, b in zip(s.get_point_calcs(), exp)), 'cameras in order')
    cx.true(all(s.get_point_calc(i) is exp[i] for i in range(n + 2)), 'camera by index')
    p = pts(cx, 's')
    for i in range(n + 2):
        got = s.lon_lat_alt_to_pixel_x_y(*p, band=i)
        c = exp[i].c
        cx.eq(list(got), [c[0] + c[1] * p[0] + c[2] * p[2], c[3] + c[4] * p[1] + c[2] * p[2]], 'mapping after editing')
    s.update_point_calc(0, cams[n + 2])     # one camera may serve several bands
    s.add_point_calc(exp[1])
    exp[0] = cams[n + 2]
    exp.append(exp[1])
    cx.true(s.get_num_point_calcs() == n + 3, 'number of cameras with repeats')
    cx.true(all(a is b for a, b in zip(s.get_point_calcs(), exp)), 'cameras in order with repeats')
    cx.eq(list(s.lon_lat_alt_to_pixel_x_y(*p, band=n + 2)), list(s.lon_lat_alt_to_pixel_x_y(*p, band=1)), 'mapping of a repeated camera')
    s.set_projection(pj.Proj('second'))
    cx.true(s.get_projection().srs == 'second ' and all(c.get_projection().srs == 'second ' for c in s.get_point_calcs()), 'projection of every band')
    s.set_distortion_model('regular')
    cx.true(all(c.model == 'regular' for c in s.get_point_calcs()), 'distortion model of every band')


def env(cx):
    pj = fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    files = {}
    cx.fake('imageio', fakes.Namespace('imageio', imread=lambda f, *a, **k: files[f].copy()))
    cx.fake('exifread', fakes.Namespace('exifread'))

    def fromarray(a, *r, **k):
        # Pillow takes a one-dimensional array as a column
        d = a.copy() if numpy.ndim(a) > 1 else a.copy().reshape(-1, 1)

        def save(f, *r, **k):
            files[str(f)] = d
        return fakes.Namespace('image', save=save)
    im = fakes.Namespace('PIL.Image', fromarray=fromarray)
    cx.fake('PIL.Image', im)
    cx.fake('PIL', fakes.Namespace('PIL', Image=im))
    return pj, files


def same_maps(cx, s, b, ref):
    x, y, z = [cx.real(n, nice=(-4, 4)) for n in 'xyz']
    z0 = [cx.real(n, nice=(-4, 4)) for n in ('x2', 'y2', 'z2')]
    for p in ([x, y, z], z0):
        cx.eq(list(s.lon_lat_alt_to_pixel_x_y(*p, band=b)), list(ref.lon_lat_alt_to_pixel_x_y(*p)), 'mapping of the band')


def image_checks(cx, im, names, files):
    s = im.get_point_calculator()
    md = im.get_metadata()
    cx.true(md.get_image_name() == names[0][:-len('_1.tif')], 'image name')
    cx.true(md.get_nodata_val() == 0, 'no-data value')
    cx.true((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (1280, 960, 5), 'size')
    cx.true(s.get_projection() is s.get_point_calc(0).get_projection(), 'projection of the sensor')
    cx.true(not s.bands_coregistered(), 'bands are not co-registered')
    cx.true(list(im.band_fnames) == names, 'files in band order')
    for i, n in enumerate(names):
        files[n] = cx.array('band%d' % i, (1, 2), dtype='uint8')
    for i, n in enumerate(names):
        cx.eq(im.read_band_from_disk(i), files[n], 'band read from its own file')
    a = im.read_all_image_data_from_disk()
    cx.eq([a[:, :, i] for i in range(len(names))], [files[n] for n in names], 'all bands in order')
    return s


SETS = ['IMG_0007', 'IMG_1_1', 'a_1.2']       # names that repeat the band part, or hold a dot


@P.case(quick=[(list(range(5)), 0), ([4, 2, 0, 1, 3], 1), ([0, 1, 3, 2, 4], 2)])
def pix4d(cx):
    order, base = cx.p
    base = SETS[base]
    NAMES = ['/d/%s_%d.tif' % (base, i) for i in (1, 2, 3, 4, 5)]
    pj, files = env(cx)
    proj = pj.Proj('utm')
    params = {'projection': proj}
    for i in order:
        f = cx.array('k%d' % i, 3, nice=(-0.5, 0.5))
        params['%s_%d.tif' % (base, i + 1)] = {
            'camera_rotation_r': numpy.array([[1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0]]), 'external_params': [cx.real('T%d_%d' % (i, j), nice=(-4, 4)) for j in range(2)] + [100.0 + i, 0.0, 0.0, 0.0],
            'n_x_pixels': 8, 'n_y_pixels': 4, 'internal_params': {'fpa_width_mm': 4.0, 'fpa_height_mm': 2.0, 'F': cx.real('F%d' % i, 1, 16), 'Px': cx.real('Px%d' % i, 0, 4), 'Py': 1.0},
            'tangential_distortion': numpy.array([0.0, 0.0]), 'radial_distortion': f}
    d = {'band%d' % (i + 1): NAMES[i] for i in order}
    im = cx.mod(M + 'micasense_image_factory').MicasenseImageFactory.from_image_number_and_pix4d(d, params)
    s = image_checks(cx, im, NAMES, files)
    cx.true(s.get_num_point_calcs() == 5 and s.get_projection() is proj, 'five cameras in the projection of the file')
    cls = cx.mod(C + 'pix4d_point_calc').Pix4dPointCalc
    b = cx.choice('band', range(5))
    x, y = cx.real('x', nice=(-4, 4)), cx.real('y', nice=(-4, 4))
    ref = cls.init_from_params(NAMES[b], params)
    cx.eq(list(s.lon_lat_alt_to_pixel_x_y(x, y, 2.0, band=b)), list(ref.lon_lat_alt_to_pixel_x_y(x, y, 2.0)), 'mapping of the band')
    e = params[base + '_1.tif']['external_params']
    cx.eq(list(s.get_approximate_lon_lat_center()), e[:2], 'approximate centre')


INT = ['fx_pixels', 'fy_pixels', 'cx_pixels', 'cy_pixels', 'k1', 'k2', 'k3', 'p1', 'p2', 'pixel_pitch_microns']
OFF = ['x_offset_meters', 'y_offset_meters', 'z_offset_meters', 'omega_offset_radians', 'phi_offset_radians', 'kappa_offset_radians']


@P.case(quick=[(list(range(5)), 0), ([4, 2, 0, 1, 3], 1), ([0, 1, 3, 2, 4], 2)])
def opencv(cx):
    order, base = cx.p
    NAMES = ['/d/%s_%d.tif' % (SETS[base], i) for i in (1, 2, 3, 4, 5)]
    pj, files = env(cx)
    params = []
    for i in order:
        p = {n: cx.real('%s%d' % (n, i), nice=(1, 16)) for n in INT}
        p.update({n: cx.real('%s%d' % (n, i), nice=(-1, 1)) if 'meters' in n else 0.0 for n in OFF})
        p['band_number'] = i + 1
        params.append(p)
    im = cx.mod(M + 'micasense_image_factory').MicasenseImageFactory.from_image_number_and_opencv({'band%d' % (i + 1): NAMES[i] for i in order}, params)
    s = image_checks(cx, im, NAMES, files)
    cx.true(s.get_num_point_calcs() == 5, 'five cameras')
    b = cx.choice('band', range(5))
    pose = [cx.real(n, nice=(-4, 4)) for n in ('px', 'py', 'pz')] + [0.0, 0.0, 0.0]
    s.get_point_calc(b).init_extrinsic(*pose)
    q = [p for p in params if p['band_number'] == b + 1][0]
    d = [cx.real('w%d' % k, nice=(-4, 4)) - pose[k] for k in range(3)]
    w = [d[k] + pose[k] for k in range(3)]
    c = [d[k] - q[OFF[k]] for k in range(3)]
    cx.assume(cx.Or(c[2] >= 0.5, c[2] <= -0.5))
    ref = cx.mod(C + 'opencv_point_calc').OpenCVPointCalc.init_from_params(q)
    ref.init_extrinsic(*pose)
    cx.eq(list(s.lon_lat_alt_to_pixel_x_y(*w, band=b)), list(ref.lon_lat_alt_to_pixel_x_y(*w)), 'mapping of the band')


@P.case(quick=[((2, 3, 3), ['a.tif', 'b.tif', 'c.tif']), ((2, 3, 2), None), ((1, 3, 2), ['a.tif', 'b.tif']), ((3, 1, 2), ['b.tif', 'a.tif']), ((1, 1, 1), None), ((1, 2, 3), 'tmp')])
def arrays(cx):
    """an image from an array: one file per band"""
    shape, names = cx.p
    pj, files = env(cx)
    d = cx.array('d', shape, dtype='uint8')
    cams = cameras(cx, shape[2])
    s = model(cx, cams, pj.Proj('native'))
    md = cx.mod(M + 'micasense_metadata').MicasenseMetadata()
    f = cx.mod(M + 'micasense_image_factory').MicasenseImageFactory.from_numpy_and_pix4d
    if names == 'tmp':
        # no folder given: a folder of the user's own below /tmp
        user, home = 'sv-%s' % uuid.uuid4().hex, os.environ.get('HOME')
        os.environ['HOME'] = '/nowhere/' + user
        try:
            im = f(d, md, s)
            cx.true(os.path.isdir('/tmp/' + user), 'folder made')
            cx.true(all(os.path.dirname(n) == '/tmp/' + user and n.endswith('.tif') for n in im.band_fnames), 'files in the folder')
            im2 = f(d, md, s)
            cx.true(not set(im.band_fnames) & set(im2.band_fnames), 'no image overwrites another')
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
            if os.path.isdir('/tmp/' + user):
                os.rmdir('/tmp/' + user)
        names = None
    else:
        im = f(d, md, s, working_dir='/work', band_basenames=names)
    cx.true(im.get_metadata() is md and im.get_point_calculator() is s, 'metadata and sensor as given')
    cx.true(len(im.band_fnames) == shape[2] and len(set(im.band_fnames)) == shape[2], 'one file per band')
    if names is not None:
        cx.true(list(im.band_fnames) == ['/work/' + n for n in names], 'files as named')
    for b in range(shape[2]):
        g = im.read_band_from_disk(b)
        cx.true(tuple(g.shape) == shape[:2], 'shape of a band')
        cx.eq(g, d[:, :, b], 'content of a band')
