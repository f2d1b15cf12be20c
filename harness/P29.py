import numpy
from sv.prop import Prop
from .spectral import *

P = Prop('P29', bounds='images of 1 to 4 pixels and 1 to 4 bands against an arbitrary non-zero target, all pixels arbitrary and non-zero (float64, and integers of several types)',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='pixels or targets that are zero in every band, magnitudes above 1000, larger images')


def nonzero(cx, v):
    cx.assume(sum0([x * x for x in v]) > 0.01)
    return v


def scene(cx, n, nb, dtype, lim=1000):
    unsigned = dtype.startswith('u')
    hi = min(lim, 255) if dtype == 'uint8' else lim
    d = cx.array('d', (n, nb), dtype=dtype, lo=0 if unsigned else -hi, hi=hi)
    t = cx.array('t', nb, dtype=dtype, lo=0 if unsigned else -hi, hi=hi)
    px = [nonzero(cx, [v + 0.0 for v in r]) for r in rows2(d)]
    return d, px, t, nonzero(cx, [v + 0.0 for v in vecof(t)])


@P.case(quick=[(3, 2, 'float64'), (2, 3, 'float64'), (1, 4, 'float64'), (3, 1, 'float64'), (2, 2, 'uint8'), (1, 2, 'int16'), (2, 2, 'uint16'), (50, 3, 'float64'), (2, 40, 'int16')],
        thorough=[(4, 3, 'float64'), (3, 4, 'float32'), (2, 3, 'uint8'), (2, 3, 'int16'), (2, 3, 'uint16'), (2, 3, 'int32')], budget=100)
def cosine(cx):
    n, nb, dtype = cx.p
    d, px, t, tv = scene(cx, n, nb, dtype)
    r = cx.mod(S1).sam(d, t)
    cx.true(tuple(r.shape) == (n,), 'one score per pixel')
    ref = []
    for p in px:
        ref.append(sum0([a * b for a, b in zip(p, tv)]) / (cx.sqrt(sum0([a * a for a in p])) * cx.sqrt(sum0([b * b for b in tv]))))
    cx.eq(vecof(r), ref, 'cosine of the angle', rtol=1e-6, atol=1e-6)


@P.case(quick=[2, 3])
def scaling(cx):
    """positive scaling of pixel or target, positive multiples of the target, orthogonal spectra"""
    nb = cx.p
    d, px, t, tv = scene(cx, 2, nb, 'float64')
    k, l = cx.real('k', 0.01, 100), cx.real('l', 0.01, 100)
    sam = cx.mod(S1).sam
    r = sam(d, t)
    s = sam(cx.arr([[v * k for v in px[0]], px[1]]), cx.arr([v * l for v in tv]))
    cx.eq(vecof(s), vecof(r), 'unchanged by positive scaling')
    u = sam(cx.arr([[v * k for v in tv], [-v * k for v in tv], [-tv[1] * l, tv[0] * l] + [0.0] * (nb - 2)]), t) if nb == 2 else sam(cx.arr([[v * k for v in tv], [-v * k for v in tv]]), t)
    cx.eq(vecof(u), [1.0, -1.0, 0.0][:3 if nb == 2 else 2], 'multiples of the target and orthogonal spectra')


@P.case(quick=[1, 2, 3])
def bounded(cx):
    nb = cx.p
    d, px, t, tv = scene(cx, 1, nb, 'float64')
    r = cx.mod(S1).sam(d, t)
    cx.true(r[0] * r[0] <= 1 + 1e-9, 'never beyond one')


@P.case(quick=[(3, 2), (2, 3)])
def independent(cx):
    """each pixel on its own: the score of a pixel does not depend on the others or on its place"""
    n, nb = cx.p
    d, px, t, tv = scene(cx, n, nb, 'float64')
    sam = cx.mod(S1).sam
    r = sam(d, t)
    for i in range(n):
        cx.eq(sam(cx.arr([px[i]]), t)[0], r[i], 'score of a pixel alone')
    cx.eq(rows2(d), px, 'image left alone')
    cx.eq(vecof(t), tv, 'target left alone')
