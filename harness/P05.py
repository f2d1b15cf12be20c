from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P05', bounds='all real coefficients, scales (nonzero), offsets and ground coordinates with nonzero denominators; single points, 1-D arrays of 2 and 2-D arrays of 1x2; coefficients given directly or as file metadata text (full precision kept); every single term of the polynomials',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'decimal text round-trips to the value it was printed from', 'GDAL hands over the metadata unchanged'],
         outside='points where a denominator vanishes, rounding error, GDAL\'s own RPC parser')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc'


def cubic(c, p, l, h):
    """RPC00B: P latitude, L longitude, H height (all normalised)"""
    t = [1, l, p, h, l * p, l * h, p * h, l * l, p * p, h * h, p * l * h, l * l * l, l * p * p, l * h * h, l * l * p, p * p * p, p * h * h,
         l * l * h, p * p * h, h * h * h]
    return sum0([c[i] * t[i] for i in range(20)])


def coeffs(cx):
    names = ['samp_num', 'samp_den', 'line_num', 'line_den']
    c = {n: cx.array(n, 20, nice=(-1, 1)) for n in names}
    s = {}
    for n in ('samp', 'line', 'lat', 'lon', 'height'):
        s[n] = (cx.real(n + '_scale', 0.0625, 1000, nice=(0.5, 4)), cx.real(n + '_off', nice=(-4, 4)))
    return c, s


def build(cx, how):
    g = fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    c, s = coeffs(cx)
    cls = cx.mod(MOD).RPCPointCalc
    if how == 'coeffs':
        calc = cls.init_from_coeffs(c['samp_num'], c['samp_den'], *s['samp'], c['line_num'], c['line_den'], *s['line'], *s['lat'], *s['lon'], *s['height'])
    else:
        md = {}
        for n in c:
            md[n.upper() + '_COEFF'] = ' '.join(cx.text(c[n][i]) for i in range(20)) + ' '
        for n, k in (('samp', 'SAMP'), ('line', 'LINE'), ('lat', 'LAT'), ('lon', 'LONG'), ('height', 'HEIGHT')):
            md[k + '_SCALE'], md[k + '_OFF'] = cx.text(s[n][0]), cx.text(s[n][1])
        z = cx.np.zeros((1, 1))
        g.put('/rpc.ntf', [z], 7, (0, 1, 0, 0, 0, 1), meta={'RPC': md})
        calc = cls.init_from_file('/rpc.ntf')
    return calc, c, s


def expected(cx, c, s, lon, lat, alt):
    p, l, h = (lat - s['lat'][1]) / s['lat'][0], (lon - s['lon'][1]) / s['lon'][0], (alt - s['height'][1]) / s['height'][0]
    sd, ld = cubic(c['samp_den'], p, l, h), cubic(c['line_den'], p, l, h)
    cx.assume(cx.And(cx.Or(sd >= 0.0625, sd <= -0.0625), cx.Or(ld >= 0.0625, ld <= -0.0625)))
    return (cubic(c['samp_num'], p, l, h) / sd * s['samp'][0] + s['samp'][1] + 0.5, cubic(c['line_num'], p, l, h) / ld * s['line'][0] + s['line'][1] + 0.5)


@P.case(quick=[('coeffs', 's'), ('file', 's'), ('coeffs', (2,)), ('coeffs', (1, 2))])
def forward(cx):
    how, shape = cx.p
    calc, c, s = build(cx, how)
    cx.eq(calc.get_approximate_lon_lat_center(), [s['lon'][1], s['lat'][1]], 'approximate centre')
    if shape == 's':
        w = [cx.real(n, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
        x, y = calc.lon_lat_alt_to_pixel_x_y(*w)
        ex, ey = expected(cx, c, s, *w)
        cx.eq(x, ex, 'sample')
        cx.eq(y, ey, 'line')
        return
    import numpy as np
    w = [cx.array(n, shape, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
    exp = [expected(cx, c, s, *[a[i] for a in w]) for i in np.ndindex(*shape)]
    x, y = calc.lon_lat_alt_to_pixel_x_y(*w)
    cx.true(tuple(x.shape) == shape and tuple(y.shape) == shape, 'shape kept')
    cx.eq(x.reshape(-1), [e[0] for e in exp], 'samples')
    cx.eq(y.reshape(-1), [e[1] for e in exp], 'lines')


@P.case()
def polynomial(cx):
    """every one of the twenty terms"""
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    c = cx.array('c', 20, nice=(-4, 4))
    p, l, h = [cx.real(n, nice=(-2, 2)) for n in 'plh']
    cx.eq(cx.mod(MOD).RPCPointCalc.compute_p(c, p, l, h), cubic(c, p, l, h), 'cubic polynomial')


@P.case(quick=[0, 1, 7, 13, 19])
def file_precision(cx):
    """the numbers of the file keep their full precision"""
    k = cx.p
    g = fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    names = ['samp_num', 'samp_den', 'line_num', 'line_den']
    v = {n: cx.real(n, 0.5, 2) for n in names}
    s = {n: (cx.real(n + '_scale', 0.5, 2), cx.real(n + '_off', 0.5, 2)) for n in ('samp', 'line')}
    md = {n.upper() + '_COEFF': ' '.join(cx.text(v[n]) if i == k else '0' for i in range(20)) for n in names}
    for n, t in (('samp', 'SAMP'), ('line', 'LINE'), ('lat', 'LAT'), ('lon', 'LONG'), ('height', 'HEIGHT')):
        md[t + '_SCALE'], md[t + '_OFF'] = [cx.text(w) for w in s[n]] if n in s else ('1', '0')
    g.put('/rpc.ntf', [cx.np.zeros((1, 1))], 7, (0, 1, 0, 0, 0, 1), meta={'RPC': md})
    calc = cx.mod(MOD).RPCPointCalc.init_from_file('/rpc.ntf')
    x, y = calc.lon_lat_alt_to_pixel_x_y(1.0, 1.0, 1.0)
    cx.eq(x, v['samp_num'] / v['samp_den'] * s['samp'][0] + s['samp'][1] + 0.5, 'sample')
    cx.eq(y, v['line_num'] / v['line_den'] * s['line'][0] + s['line'][1] + 0.5, 'line')
