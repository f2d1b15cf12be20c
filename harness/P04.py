from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P04', bounds='all real sensor positions, angles, focal length, pixel pitches > 0, array sizes 1..10000; both flips; rad/deg, mm/cm/m, micrometer/mm units; local and geographic construction',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'unit factors are the ones pint reports',
                      'map projections are arbitrary axis-wise invertible affine maps in place of PROJ'],
         outside='points in the lens plane, PROJ itself, rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc'
LEN = {'meters': 1.0, 'feet': 0.3048, 'km': 1000.0, 'mm': 0.001, 'cm': 0.01, 'micrometer': 1e-6}
D2R = 0.017453292519943295


def make(cx, how, flips, units):
    pj = fakes.use_pyproj(cx)
    fakes.use_gdal(cx)
    alt_u, ang_u, pp_u, f_u = units
    rad = ang_u == 'radians'
    a = [cx.angle(n, 'rad' if rad else 'deg') for n in ('omega', 'phi', 'kappa')]
    x, y, z = [cx.real(n, nice=(-8, 8)) for n in ('sx', 'sy', 'sz')]
    nx, ny = cx.int('npix_x', 1, 10000, nice=(1, 32)), cx.int('npix_y', 1, 10000, nice=(1, 32))
    px, py = cx.real('pitch_x', 0.25, 100, nice=(1, 8)), cx.real('pitch_y', 0.25, 100, nice=(1, 8))
    f = cx.real('f', 0.5, 5000, nice=(1, 64))
    kw = dict(alt_units=alt_u, omega_units=ang_u, phi_units=ang_u, kappa_units=ang_u, pixel_pitch_x_units=pp_u, pixel_pitch_y_units=pp_u,
              focal_length_units=f_u, flip_x=flips[0], flip_y=flips[1]) if units != DEF or any(flips) else {}
    if how == 'local':
        cls = cx.mod(MOD).IdealPinholeFpaLocalUtmPointCalc
        proj = pj.Proj('native')
        calc = cls.init_from_local_params(x, y, z, proj, *a, nx, ny, px, py, f, **kw)
        lx, ly = x, y
    else:
        asked = []
        zone, letter = (18, 'T') if not any(flips) else (53, 'K') if flips[0] else (7, 'N')
        cx.fake('utm', fakes.fake_utm(asked, zone, letter))
        calc = cx.mod(MOD).IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(x, y, z, *a, nx, ny, px, py, f, **kw)
        proj = calc.get_projection()
        lx, ly = pj.apply(cx.mod('resippy.photogrammetry.crs_defs').PROJ_4326.srs, proj.srs, x, y)
        cx.eq(asked[0], [y, x], 'local projection chosen from the sensor position')
        cx.true(utm_definition(proj) == (zone, letter < 'N'), 'local projection is the UTM zone and hemisphere of the sensor')
    cx.true(calc.get_projection() is proj, 'native projection')
    cx.eq(calc.get_approximate_lon_lat_center(), [lx, ly], 'approximate centre is the sensor position in the native projection')
    m = rotation(cx, 'rpy', *[v if rad else v * D2R for v in a])
    return calc, [lx, ly, z * LEN[alt_u]], m, f * LEN[f_u], (nx, ny), (px * LEN[pp_u], py * LEN[pp_u])


DEF = ('meters', 'radians', 'micrometer', 'mm')
OTH = ('feet', 'degrees', 'mm', 'cm')


@P.case(quick=[('local', (False, False), DEF), ('wgs84', (False, False), DEF), ('local', (True, False), OTH), ('wgs84', (False, True), OTH), ('local', (True, True), OTH), ('wgs84', (True, True), DEF)],
        thorough=[(h, (fx, fy), u) for h in ('local', 'wgs84') for fx in (False, True) for fy in (False, True) for u in (DEF, OTH)], tbudget=1500)
def model(cx):
    """ray through a focal plane position -> that position in pixels, mirrored per axis when flipped, centre of the array on the axis"""
    calc, X, m, f, n, pitch = make(cx, *cx.p)
    fx, fy = cx.p[1]
    u, v = cx.real('u_pix', -2000, 2000, nice=(-8, 8)), cx.real('v_pix', -2000, 2000, nice=(-8, 8))   # offset from the array centre, in pixels
    t = cx.real('t', 1, 4000, nice=(1, 400))
    d = vec(tr(m), [u * pitch[0] * t, v * pitch[1] * t, -1 * f * t])
    lons, lats, alts = [cx.arr([X[i] + d[i]]) for i in range(3)]
    x, y = calc.lon_lat_alt_to_pixel_x_y(lons, lats, alts)
    cx.eq(x, [n[0] / 2.0 + (-u if fx else u)], 'x pixel')
    cx.eq(y, [n[1] / 2.0 + (-v if fy else v)], 'y pixel')


@P.case()
def ifov(cx):
    calc, X, m, f, n, pitch = make(cx, 'local', (False, False), DEF)
    cx.eq([cx.tan_of(calc.compute_ifov_x('radians')), cx.tan_of(calc.compute_ifov_y('radians'))], [pitch[0] / f, pitch[1] / f], 'tan(ifov) = pitch / f')
    cx.eq([cx.tan_of(calc.compute_ifov_x() * 1e-6), cx.tan_of(calc.compute_ifov_y() * 1e-6)], [pitch[0] / f, pitch[1] / f], 'microradians by default')
