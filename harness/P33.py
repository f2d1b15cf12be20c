import numpy
from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P33', bounds='spectra of 1 to 5 samples of several types with arbitrary content, wavelengths and no-data value, resampled with up to two responses of 2 or 3 arbitrary points each at arbitrary increasing wavelengths overlapping the spectrum in any way; a spectrum of 90 samples (five arbitrary) under twelve responses of arbitrary height',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='responses that overlap no part of the spectrum (undefined mean), no-data samples inside the spectrum while resampling, unit algebra of pint, longer spectra')
MOD = 'resippy.spectral.spectrum'


class Unit:
    """a unit: records what it was applied to"""
    __array_ufunc__ = None

    def __init__(self, name):
        self.name = name

    def __rmul__(self, v):
        return (self, v)


@P.case(quick=[(4, 'float64'), (3, 'float32'), (3, 'int16'), (2, 'uint8'), (1, 'float64'), (150, 'float64'), (70, 'int16')], thorough=[(6, 'float64'), (5, 'int32'), (5, 'float32')])
def data(cx):
    """data come back as given; no-data values become not-a-number only when asked, stored data never change"""
    n, dtype = cx.p
    m = cx.mod(MOD)
    lo, hi = (0, 200) if dtype == 'uint8' else (-200, 200)
    d = cx.array('d', n, dtype=dtype, lo=lo, hi=hi) if n < 20 else mixed(cx, 'd', (n,), dtype, 3, lo, hi)
    dv = vecof(d)
    nd = cx.int('nd', lo, hi) if 'int' in dtype else cx.real('nd', lo, hi)
    s = m.Spectrum()
    s.set_spectral_data(d)
    cx.eq(vecof(s.get_spectral_data()), dv, 'no no-data value')
    s.set_nodata_val(nd)
    cx.eq(s.get_nodata_val(), nd, 'no-data value')
    raw = s.get_spectral_data(nodata_to_nan=False)
    cx.eq(vecof(raw), dv, 'stored data')
    cx.true(raw.dtype == d.dtype, 'type kept')
    g = s.get_spectral_data()
    for i in range(n):
        hit = dv[i] == nd
        isn = cx.isnan(g[i])
        cx.true(cx.Implies(hit, isn), 'no-data replaced')
        cx.true(cx.Implies(cx.Not(hit), cx.And(cx.Not(isn), g[i] == dv[i])), 'other samples kept')
    cx.eq(vecof(s.get_spectral_data(False)), dv, 'stored data after the replacement')
    raw = s.get_spectral_data(False)
    raw[0] = 7
    cx.eq(vecof(s.get_spectral_data(False)), dv, 'returned data are a copy')
    cx.eq(vecof(d), dv, 'given data left alone')


@P.case(quick=[1, 3], thorough=[5])
def attributes(cx):
    n = cx.p
    m = cx.mod(MOD)
    d, w, f = cx.array('d', n), cx.array('w', n), cx.array('f', n)
    s = m.Spectrum()
    wu, su = Unit('w'), Unit('s')
    s.set_spectral_data(d)
    s.set_wavelengths(w)
    s.set_fwhm(f)
    s.set_wavelength_units(wu)
    s.set_spectrum_units(su)
    s.set_fname('a.txt')
    cx.true(s.get_fname() == 'a.txt' and s.get_wavelength_units() is wu and s.get_spectrum_units() is su, 'units and name')
    cx.eq(vecof(s.get_wavelengths()), vecof(w), 'wavelengths')
    cx.eq(vecof(s.get_fwhm()), vecof(f), 'bandwidths')
    for get, src, u in ((s.get_wavelengths, w, wu), (s.get_fwhm, f, wu), (s.get_spectral_data, d, su)):
        unit, v = get(with_units=True)
        cx.true(unit is u, 'unit')
        cx.eq(vecof(v), vecof(src), 'values under their unit')
    t = m.Spectrum()
    t.set_spectral_data(w)
    cx.eq(vecof(s.get_spectral_data()), vecof(d), 'spectra do not share state')
    # the same questions after other values have been set
    wu, su = Unit('v'), Unit('t')
    s.set_spectral_data(f)
    s.set_wavelengths(d)
    s.set_fwhm(w)
    s.set_wavelength_units(wu)
    s.set_spectrum_units(su)
    for get, src, u in ((s.get_wavelengths, d, wu), (s.get_fwhm, w, wu), (s.get_spectral_data, f, su)):
        unit, v = get(with_units=True)
        cx.true(unit is u, 'unit set later')
        cx.eq(vecof(v), vecof(src), 'values set later under their unit')
        cx.eq(vecof(get()), vecof(src), 'values set later')


def ascending(cx, name, n, lo=0, hi=100):
    w = [cx.real('%s%d' % (name, i), lo, hi) for i in range(n)]
    for a, b in zip(w, w[1:]):
        cx.assume(b - a > 0.125)
    return w


def response(cx, x, w, r):
    """linear interpolation, zero outside; forks on the segment"""
    if x < w[0]:
        return 0.0
    for i in range(len(w) - 1):
        if x < w[i + 1]:
            return r[i] + (r[i + 1] - r[i]) * (x - w[i]) / (w[i + 1] - w[i])
    return r[-1] if x <= w[-1] else 0.0


def integral(w, y):
    return sum0([(b - a) * (p + q) / 2 for a, b, p, q in zip(w, w[1:], y, y[1:])])


@P.case(quick=[(2, 2), (3, 2), (2, 3)], thorough=[(3, 3), (4, 2), (5, 2)], budget=100)
def resampled(cx):
    n, k = cx.p
    m = cx.mod(MOD)
    w, d = ascending(cx, 'w', n), [cx.real('d%d' % i, -10, 10) for i in range(n)]
    rw, r = ascending(cx, 'x', k), [cx.real('r%d' % i, 0, 10) for i in range(k)]
    y = [response(cx, x, rw, r) for x in w]
    den = integral(w, y)
    cx.assume(den > 0.01)
    s, q = m.Spectrum(), m.Spectrum()
    s.set_wavelengths(cx.arr(w))
    s.set_spectral_data(cx.arr(d))
    s.set_spectrum_units('refl')
    q.set_wavelengths(cx.arr(rw))
    q.set_spectral_data(cx.arr(r))
    centers = cx.array('c', 1)
    t = s.resample_spectrum_direct([q], centers)
    out = t.get_spectral_data()
    cx.true(tuple(out.shape) == (1,), 'one value per band')
    cx.eq(out[0], integral(w, [a * b for a, b in zip(d, y)]) / den, 'response-weighted mean')
    cx.eq(vecof(t.get_wavelengths()), vecof(centers), 'band centres')
    cx.true(t.get_spectrum_units() == 'refl', 'units')
    cx.eq(vecof(s.get_spectral_data()), d, 'spectrum left alone')
    v = cx.real('v', -10, 10)
    s.set_spectral_data(cx.arr([v] * n))
    cx.eq(s.resample_spectrum_direct([q], centers).get_spectral_data()[0], v, 'constant stays constant')


@P.case(quick=[(90, 12)])
def many_bands(cx):
    """a finely sampled spectrum with arbitrary samples here and there, and many responses"""
    n, nb = cx.p
    m = cx.mod(MOD)
    w = [400.0 + 5 * i for i in range(n)]
    d = vecof(mixed(cx, 'd', (n,), 'float64', 5, -10, 10))
    rs, want = [], []
    for b in range(nb):
        c = 405.0 + 37 * b
        rw = [c - 12.0, c, c + 12.0]
        r = [0.0, cx.real('r%d' % b, 1, 10), 2.0]
        y = [response(cx, x, rw, r) for x in w]
        q = m.Spectrum()
        q.set_wavelengths(cx.arr(rw))
        q.set_spectral_data(cx.arr(r))
        rs.append(q)
        want.append(integral(w, [p * q for p, q in zip(d, y)]) / integral(w, y))
    s = m.Spectrum()
    s.set_wavelengths(cx.arr(w))
    s.set_spectral_data(cx.arr(d))
    t = s.resample_spectrum_direct(rs, cx.arr([405.0 + 37 * b for b in range(nb)]))
    cx.eq(vecof(t.get_spectral_data()), want, 'response-weighted means')


@P.case(quick=[3, 4], thorough=[5], budget=100)
def several_bands(cx):
    """every band has its own response, in order; samples at descending wavelengths and responses inside, across and around"""
    n = cx.p
    m = cx.mod(MOD)
    w = [float(10 * i) for i in range(n)]
    if cx.choice('descending', [False, True]):
        w = w[::-1]
    d = [cx.real('d%d' % i, -10, 10) for i in range(n)]
    bands = [([-5.0, 5.0, 15.0], 'a'), ([5.0, 25.0], 'b'), ([-10.0, 10.0 * n], 'c')]
    rs, want = [], []
    for rw, name in bands:
        r = [cx.real('%s%d' % (name, i), 0, 10) for i in range(len(rw))]
        y = [response(cx, x, rw, r) for x in w]
        den = integral(w, y)
        cx.assume(cx.Or(den > 0.01, den < -0.01))
        q = m.Spectrum()
        q.set_wavelengths(cx.arr(rw))
        q.set_spectral_data(cx.arr(r))
        rs.append(q)
        want.append(integral(w, [a * b for a, b in zip(d, y)]) / den)
    s = m.Spectrum()
    s.set_wavelengths(cx.arr(w))
    s.set_spectral_data(cx.arr(d))
    t = s.resample_spectrum_direct(rs, cx.arr([1.0, 2.0, 3.0]))
    cx.eq(vecof(t.get_spectral_data()), want, 'response-weighted means')
    cx.eq(vecof(s.resample_spectrum_direct(rs[::-1], cx.arr([3.0, 2.0, 1.0])).get_spectral_data()), want[::-1], 'bands in the order given')


@P.case(quick=['float64', 'uint8'])
def integer_response(cx):
    """a response or a spectrum of whole numbers is treated like the same numbers"""
    m = cx.mod(MOD)
    d = cx.array('d', 3, dtype=cx.p, lo=0, hi=200)
    r = cx.array('r', 3, dtype=cx.p, lo=1, hi=200)
    w = [0.0, 10.0, 20.0]
    s, q = m.Spectrum(), m.Spectrum()
    s.set_wavelengths(cx.arr(w))
    s.set_spectral_data(d)
    q.set_wavelengths(cx.arr(w))
    q.set_spectral_data(r)
    dv, rv = [v + 0.0 for v in vecof(d)], [v + 0.0 for v in vecof(r)]
    cx.eq(s.resample_spectrum_direct([q], cx.arr([5.0])).get_spectral_data()[0], integral(w, [a * b for a, b in zip(dv, rv)]) / integral(w, rv), 'response-weighted mean')
