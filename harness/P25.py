import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P25', bounds='images of 1 to 3 pixels of arbitrary value (float64, int16, uint8) against palettes of 2, 3 and 5 arbitrary colours and resampled palettes of 2 to 5, 129, 200 and 300 bins, continuous and discrete, arbitrary or default clip range, with and without no-data, one end of the range given, to float64 and uint8',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='empty clip ranges, a single bin, not-a-number pixels, values within 1e-6 of a bin border in discrete maps, the colour of no-data pixels')
MOD = 'resippy.utils.image_utils.image_utils'


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    return cx.mod(MOD)


def near(cx, cond, a, b, label):
    cx.true(cx.Implies(cond, cx.And(cx.Not(cx.isnan(a)), a - b < 1e-6, b - a < 1e-6)), label)


def lerp(pal, t, n):
    """palette at place t (0 .. n-1) between its entries; forks on the bin"""
    k = 0
    while k < n - 2 and not t < k + 1:
        k += 1
    w = t - k
    return [pal[k][c] * (1 - w) + pal[k + 1][c] * w for c in range(3)]


def resampled(pal, n):
    """n colours evenly spaced along the palette"""
    m = len(pal)
    out = []
    for i in range(n):
        k = min(i * (m - 1) // (n - 1), m - 2)
        w = i * (m - 1) / (n - 1) - k
        out.append([pal[k][c] * (1 - w) + pal[k + 1][c] * w for c in range(3)])
    return out


def palette(cx, n):
    p = cx.array('p', (n, 3), lo=0, hi=1)
    return p, [[p[i, c] for c in range(3)] for i in range(n)]


def judge(cx, got, v, lo, hi, pal, continuous, label):
    """one pixel (times 255)"""
    n = len(pal)
    if v < lo:
        want = pal[0]
    elif v > hi:
        want = pal[-1]
    elif continuous:
        want = lerp(pal, (v - lo) / (hi - lo) * (n - 1), n)
    else:
        t = (v - lo) / (hi - lo) * n
        k = 0
        while k < n - 1 and not t < k + 1:
            k += 1
        inside = cx.And(k == 0 or t > k + 1e-6, k == n - 1 or t < k + 1 - 1e-6)
        for g, w in zip(got, pal[k]):
            near(cx, inside, g, 255 * w, label)
        return
    cx.eq(got, [255 * w for w in want], label, rtol=1e-6, atol=1e-6)


@P.case(quick=[(n, c, d) for n in (2, 3) for c in (True, False) for d in ('float64', 'int16')] + [(5, True, 'uint8'), (5, False, 'float64')],
        thorough=[(n, c, d) for n in (2, 3, 5, 8) for c in (True, False) for d in ('float64', 'int16', 'uint8', 'float32')], budget=100)
def clip(cx):
    n, continuous, dtype = cx.p
    m = env(cx)
    p, pal = palette(cx, n)
    hi = 255 if dtype == 'uint8' else 30000 if 'float' in dtype else 100
    d = cx.array('d', (1, 2), dtype=dtype, lo=-hi * (dtype != 'uint8'), hi=hi)
    a, b = cx.real('min', -hi, hi), cx.real('max', -hi, hi)
    cx.assume(b > a + 0.5)
    r = m.apply_colormap_to_grayscale_image(d, p, continuous=continuous, min_clip=a, max_clip=b, output_dtype=numpy.float64)
    cx.true(tuple(r.shape) == (1, 2, 3), 'shape')
    for x in range(2):
        judge(cx, [r[0, x, c] for c in range(3)], d[0, x] + 0.0, a, b, pal, continuous, 'colour')


@P.case(quick=[((3, 1), True, 'float64', None), ((1, 2), False, 'int16', None), ((2, 1), True, 'uint8', None), ((1, 3), True, 'float64', -99.0), ((1, 3), False, 'int16', -99)],
        thorough=[(s, c, d, nd) for s in ((3, 1), (2, 2)) for c in (True, False) for d, nd in (('float64', None), ('int16', None), ('float64', -99.0), ('int16', -99))], budget=100)
def default_range(cx):
    """the range is that of the valid pixels"""
    shape, continuous, dtype, nodata = cx.p
    m = env(cx)
    p, pal = palette(cx, 3)
    d = cx.array('d', shape, dtype=dtype)
    x = [v + 0.0 for v in d.reshape(-1)]
    good = [v for v in x if nodata is None or v != nodata]
    cx.assume(len(good) > 0)
    lo, hi = good[0], good[0]
    for v in good[1:]:
        lo, hi = cx.min(lo, v), cx.max(hi, v)
    cx.assume(hi > lo + 0.5)
    r = m.apply_colormap_to_grayscale_image(d, p, continuous=continuous, output_dtype=numpy.float64, **({} if nodata is None else dict(nodata=nodata)))
    r = r.reshape((len(x), 3))
    for k, v in enumerate(x):
        if nodata is None or v != nodata:
            judge(cx, [r[k, c] for c in range(3)], v, lo, hi, pal, continuous, 'colour')


@P.case(quick=[('min', None), ('max', -99.0), ('min', -99.0), ('equal', -99.0)], thorough=[(g, nd) for g in ('min', 'max', 'equal') for nd in (None, -99.0) if nd or g != 'equal'], budget=100)
def half_range(cx):
    """one end of the range given (also when it is the no-data value itself), the other that of the valid pixels"""
    given, nodata = cx.p
    m = env(cx)
    p, pal = palette(cx, 3)
    d = cx.array('d', (1, 3), lo=-200, hi=200)
    x = list(d.reshape(-1))
    good = [v for v in x if nodata is None or v != nodata]
    cx.assume(len(good) > 0)
    lo, hi = good[0], good[0]
    for v in good[1:]:
        lo, hi = cx.min(lo, v), cx.max(hi, v)
    g = nodata if given == 'equal' else cx.real('given', -200, 200)
    if given == 'max':
        hi = g
    else:
        lo = g
    cx.assume(hi > lo + 0.5)
    r = m.apply_colormap_to_grayscale_image(d, p, output_dtype=numpy.float64, **{'max_clip' if given == 'max' else 'min_clip': g}, **({} if nodata is None else dict(nodata=nodata)))
    for k, v in enumerate(x):
        if nodata is None or v != nodata:
            judge(cx, [r[0, k, c] for c in range(3)], v, lo, hi, pal, True, 'colour')


@P.case(quick=[(3, 2, True), (2, 5, True), (3, 4, False), (2, 2, False)], thorough=[(k, n, c) for k in (2, 3, 4) for n in (2, 3, 5, 7) for c in (True, False)], budget=100)
def bins(cx):
    """a palette resampled to another number of colours"""
    k, n, continuous = cx.p
    m = env(cx)
    p, pal = palette(cx, k)
    v = cx.array('d', (1, 1), lo=-100, hi=100)
    r = m.apply_colormap_to_grayscale_image(v, p, continuous=continuous, n_bins=n, min_clip=-64.0, max_clip=64.0, output_dtype=numpy.float64)
    judge(cx, [r[0, 0, c] for c in range(3)], v[0, 0], -64.0, 64.0, resampled(pal, n), continuous, 'colour')


@P.case(quick=[(129, True, 126), (200, False, 197), (300, True, 150)], thorough=[(n, c, f) for n in (127, 128, 129, 130, 200, 256, 257, 300) for c in (True, False) for f in (0, n // 2, n - 3)], budget=150)
def many_bins(cx):
    """numbers of colours beyond small integer types; the pixel lies anywhere in the two last bins, or in two others"""
    n, continuous, first = cx.p
    m = env(cx)
    pal = [[0.0, 0.25, 1.0], [1.0, 0.5, 0.0]]
    v = cx.array('d', (1, 1), lo=0, hi=256, nice=(0, 256))
    w = 256.0 / (n - 1 if continuous else n)
    a = v[0, 0]
    cx.assume(cx.And(a > w * first + 0.01, a < w * (first + 2) - 0.01))
    r = m.apply_colormap_to_grayscale_image(v, numpy.array(pal), continuous=continuous, n_bins=n, min_clip=0.0, max_clip=256.0, output_dtype=numpy.float64)
    full = resampled(pal, n)
    for k in range(first, first + 2):
        t = a / w - k
        want = [full[k][c] * (1 - t) + full[k + 1][c] * t if continuous else full[k][c] for c in range(3)]
        for c in range(3):
            near(cx, cx.And(a > w * k + 1e-3, a < w * (k + 1) - 1e-3), r[0, 0, c], 255 * want[c], 'colour')


@P.case(quick=[True, False])
def eight_bit(cx):
    """the default output type holds the whole part"""
    m = env(cx)
    p, pal = palette(cx, 3)
    d = cx.array('d', (1, 2), lo=-100, hi=100)
    r = m.apply_colormap_to_grayscale_image(d, p, continuous=cx.p, min_clip=-50.0, max_clip=50.0)
    f = m.apply_colormap_to_grayscale_image(d, p, continuous=cx.p, min_clip=-50.0, max_clip=50.0, output_dtype=numpy.float64)
    cx.true(r.dtype == numpy.dtype('uint8') and tuple(r.shape) == (1, 2, 3), 'type')
    for x in range(2):
        for c in range(3):
            g, w = r[0, x, c] + 0.0, f[0, x, c]
            cx.true(cx.And(g <= w + 1e-6, g > w - 1 - 1e-6), 'whole part')
