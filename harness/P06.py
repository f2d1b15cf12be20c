import io
import os
import tempfile
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P06', bounds='all real camera rotations, positions, focal lengths, principal points and distortion coefficients; 1-2 ground points; parameter files of two cameras and two images with every number symbolic, last line with and without newline/blank line; the single-file readers',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'decimal text round-trips to the value it was printed from', 'the camera files follow the layout of a Pix4D export'],
         outside='points in the lens plane, rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc'


def pixel(cx, R, T, f, pp, k, t, w, distort):
    d = vec(R, [w[i] - T[i] for i in range(3)])
    cx.assume(cx.Or(d[2] >= 0.0625, d[2] <= -0.0625))
    x, y = d[0] / d[2], d[1] / d[2]
    if distort:
        r2 = x * x + y * y
        rad = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2
        x, y = rad * x + 2 * t[0] * x * y + t[1] * (r2 + 2 * x * x), rad * y + 2 * t[1] * x * y + t[0] * (r2 + 2 * y * y)
    return f * x + pp[0], f * y + pp[1]


@P.case(quick=[('regular', 1, None), ('regular', 2, None), (None, 2, None), ('regular', 1, (True, False)), (None, 1, (False, True)), ('regular', 1, (False, False))])
def model(cx):
    dist, n, rev = cx.p
    pj = fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    R = cx.array('R', (3, 3), nice=(-1, 1))
    T = [cx.real('T%d' % i, nice=(-4, 4)) for i in range(3)]
    k, t = cx.array('k', 3, nice=(-0.5, 0.5)), cx.array('t', 2, nice=(-0.5, 0.5))
    nx, ny = cx.int('nx', 1, 10000, nice=(8, 64)), cx.int('ny', 1, 10000, nice=(8, 64))
    wmm = cx.real('fpa_width', 0.5, 100, nice=(1, 16))
    F, px, py = cx.real('F', 0.5, 500, nice=(1, 16)), cx.real('Px', 0, 100, nice=(1, 8)), cx.real('Py', 0, 100, nice=(1, 8))
    proj = pj.Proj('native')
    params = {'projection': proj,
              'img_1.tif': {'camera_rotation_r': R, 'external_params': T + [0.0, 0.0, 0.0], 'n_x_pixels': nx, 'n_y_pixels': ny,
                            'internal_params': {'fpa_width_mm': wmm, 'fpa_height_mm': 1.0, 'F': F, 'Px': px, 'Py': py},
                            'tangential_distortion': t, 'radial_distortion': k}}
    cls = cx.mod(MOD).Pix4dPointCalc
    calc = cls.init_from_params('/data/img_1.tif', params, distortion_model=dist) if dist != 'regular' else cls.init_from_params('img_1.tif', params)
    cx.true(calc.get_projection() is proj, 'projection')
    cx.eq(calc.get_approximate_lon_lat_center(), T[:2], 'approximate centre')
    w = [cx.array(a, n, nice=(-8, 8)) for a in ('lon', 'lat', 'alt')]
    ppm = nx / wmm
    exp = [pixel(cx, rows(R), T, F * ppm, (px * ppm, py * ppm), k, t, [w[0][i], w[1][i], w[2][i]], dist == 'regular') for i in range(n)]
    if rev:
        calc.reverse_x_pixels, calc.reverse_y_pixels = rev
        # not reversed: mirrored about the principal point
        exp = [(e[0] if rev[0] else 2 * px * ppm - e[0], e[1] if rev[1] else 2 * py * ppm - e[1]) for e in exp]
    x, y = calc.lon_lat_alt_to_pixel_x_y(*w)
    cx.eq(x, [e[0] for e in exp], 'x pixels')
    cx.eq(y, [e[1] for e in exp], 'y pixels')


def files(cx, tail, imgs=('flight_0_1.tif', 'flight_0_2.tif'), end='\n', nl='\n'):
    V = {}

    def num(n, lo=None, hi=None, nice=(-4, 4)):
        if n not in V:
            V[n] = cx.real(n, lo, hi, nice=nice)
        return cx.text(V[n])

    def integer(n):
        V[n] = cx.int(n, 1, 10000, nice=(8, 64))
        return cx.text(V[n])
    imgs = list(imgs)
    ext = ['imageName X Y Z Omega Phi Kappa'] + [' '.join([f] + [num('%s.e%d' % (f, j)) for j in range(6)]) for f in (imgs if end == '\n' else imgs[::-1])]
    cal = ['header'] * 8
    for f in imgs:
        cal += ['%s %s %s' % (f, integer(f + '.w'), integer(f + '.h'))]
        cal += [' '.join(num('%s.K%d%d' % (f, i, j)) for j in range(3)) for i in range(3)]
        cal += [' '.join(num('%s.rd%d' % (f, j)) for j in range(3)), ' '.join(num('%s.td%d' % (f, j)) for j in range(2)),
                ' '.join(num('%s.t%d' % (f, j)) for j in range(3))]
        cal += [' '.join(num('%s.r%d%d' % (f, i, j)) for j in range(3)) for i in range(3)]
    cam = []
    for c in range(2):
        cam += ['Pix4D camera calibration file %d' % c, '#Focal Length mm assuming a sensor width of %smmx%smm' % (num('c%d.w' % c, 0.5, 100, (1, 16)), num('c%d.h' % c, 0.5, 100, (1, 16)))]
        cam += ['%s %s' % (n, num('c%d.%s' % (c, n))) for n in ('F', 'Px', 'Py')] + ['#Symmetrical Lens Distortion Coeffs'] + \
               ['%s %s' % (n, num('c%d.%s' % (c, n))) for n in ('K1', 'K2', 'K3')] + ['#Tangential'] + ['%s %s' % (n, num('c%d.%s' % (c, n))) for n in ('T1', 'T2')] + ([''] if c == 0 else [])
    return V, imgs, {'p_calibrated_external_camera_parameters.txt': nl.join(ext) + end, 'p_calibrated_camera_parameters.txt': nl.join(cal) + end,
                     'p_pix4d_calibrated_internal_camera_parameters.cam': '\n'.join(cam) + tail, 'p_wkt.prj': 'WKT[+proj=utm +zone=17]'}


@P.case(quick=[('\n\n',), ('\n',), ('',), ('\n', ('b_2.tif', 'b_1.tif'), ''), ('', ('x_0_1.tif', 'x_1_1.tif', 'x_0_2.tif'), '\n\n'), ('\n', ('f_1_2.tif',), '\n \n', '\r\n')])
def reader(cx):
    """every number of the exported files arrives in the entry of its image"""
    fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    V, imgs, fs = files(cx, *cx.p)

    def op(path, mode='r', *a, **k):
        return io.StringIO(fs[os.path.basename(path)])
    cx.set_open(op)
    pu = cx.mod('resippy.utils.pix4d_utils')
    with tempfile.TemporaryDirectory() as d:
        for f in fs:
            open(os.path.join(d, f), 'w').close()
        md = pu.make_master_dict(d)
    cx.true('+proj=utm +zone=17' in md['projection'].srs, 'projection')
    cx.true(all(f in md for f in imgs), 'an entry for every image')
    for f in imgs:
        c = int(f[-5]) - 1
        e = md[f]
        cx.eq([e['n_x_pixels'], e['n_y_pixels']], [V[f + '.w'], V[f + '.h']], 'image size')
        cx.eq(e['camera_matrix_k'], [[V['%s.K%d%d' % (f, i, j)] for j in range(3)] for i in range(3)], 'camera matrix')
        cx.eq(e['radial_distortion'], [V['%s.rd%d' % (f, j)] for j in range(3)], 'radial distortion')
        cx.eq(e['tangential_distortion'], [V['%s.td%d' % (f, j)] for j in range(2)], 'tangential distortion')
        cx.eq(e['camera_position_t'].reshape(-1), [V['%s.t%d' % (f, j)] for j in range(3)], 'camera position')
        cx.eq(e['camera_rotation_r'], [[V['%s.r%d%d' % (f, i, j)] for j in range(3)] for i in range(3)], 'camera rotation')
        cx.eq(e['external_params'], [V['%s.e%d' % (f, j)] for j in range(6)], 'external parameters')
        names = ['F', 'Px', 'Py', 'K1', 'K2', 'K3', 'T1', 'T2']
        cx.true(all(n in e['internal_params'] for n in names), 'every internal parameter present')
        cx.eq([e['internal_params'][n] for n in names], [V['c%d.%s' % (c, n)] for n in names], 'internal parameters')
        cx.eq([e['internal_params']['fpa_width_mm'], e['internal_params']['fpa_height_mm']], [V['c%d.w' % c], V['c%d.h' % c]], 'sensor size')


@P.case()
def rotation_matrix(cx):
    fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    a = [cx.angle(n, 'deg') for n in ('omega', 'phi', 'kappa')]
    pos = [cx.real('p%d' % i) for i in range(3)]
    m = cx.mod('resippy.utils.pix4d_utils').create_r_matrix(pos + a)
    k = 0.017453292519943295
    r, p, y = [x * k for x in a]
    c, s = cx.cos, cx.sin
    rx = [[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]]
    ry = [[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]]
    rz = [[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]]
    cx.eq(m, mul(mul(rx, ry), rz), 'Rx(omega) Ry(phi) Rz(kappa)')


@P.case(quick=['\n', '', '\n\n'])
def single_files(cx):
    """the readers of single files: every number under its own image, in order"""
    fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    V, imgs, fs = files(cx, cx.p, ('a_1.tif', 'b_2.tif', 'c_1.tif'), cx.p)
    W = [[cx.real('m%d_%d' % (i, j), nice=(-4, 4)) for j in range(12)] for i in range(3)]
    fs['pmatrix.txt'] = '\n'.join(' '.join([f] + [cx.text(v) for v in w]) for f, w in zip(imgs, W)) + cx.p
    cx.set_open(lambda path, mode='r', *a, **k: io.StringIO(fs[os.path.basename(path)]))
    pu, calc = cx.mod('resippy.utils.pix4d_utils'), cx.mod(MOD).Pix4dPointCalc()
    got = pu.read_p_matrices('/d/pmatrix.txt')
    cx.true(sorted(got) == imgs, 'projection matrices: images')
    for f, w in zip(imgs, W):
        cx.eq(got[f], w, 'projection matrix')
    for r in (pu, calc):
        got = r.read_calibrated_external_camera_parameters('/d/p_calibrated_external_camera_parameters.txt')
        cx.true(sorted(got) == imgs, 'external parameters: images')
        for f in imgs:
            cx.eq(got[f], [V['%s.e%d' % (f, j)] for j in range(6)], 'external parameters')
        got = r.read_pix4d_calibrated_internal_camera_parameters('/d/p_pix4d_calibrated_internal_camera_parameters.cam')
        cx.true(len(got) == 2, 'number of cameras')
        for c in range(2):
            names = ['F', 'Px', 'Py', 'K1', 'K2', 'K3', 'T1', 'T2']
            cx.true(sorted(got[c]) == sorted(names + ['fpa_width_mm', 'fpa_height_mm']), 'internal parameters present')
            cx.eq([got[c][n] for n in names] + [got[c]['fpa_width_mm'], got[c]['fpa_height_mm']], [V['c%d.%s' % (c, n)] for n in names + ['w', 'h']], 'internal parameters')
