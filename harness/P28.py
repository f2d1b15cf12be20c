import numpy
from sv.prop import Prop
from .spectral import *

P = Prop('P28', bounds='scenes of 2 to 5 pixels (quick) or up to 6 (thorough) and 1 to 3 bands (larger scenes of 33 to 300 pixels and up to 9 bands with two or three arbitrary samples) with arbitrary content (float64, uint8, int16), no mask or every mask that leaves enough pixels (as bool and as numbers), masked pixels holding anything including not-a-number',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'numpy.ma works as documented (modelled symbolically, run for real on replay)'],
         outside='masks that leave fewer than two pixels, larger scenes')
CASES = [((4, 2), 'float64'), ((3, 3), 'float64'), ((5, 2), 'uint8'), ((2, 2), 'int16'), ((3, 1), 'float64')]


def scene(cx, shape, dtype, name='d'):
    d = cx.array(name, shape, dtype=dtype)
    return d, [[v + 0.0 for v in r] for r in rows2(d)]


def large(cx, shape, dtype, free):
    d = mixed(cx, 'd', shape, dtype, free)
    return d, [[v + 0.0 for v in r] for r in rows2(d)]


def square(c):
    """covariance as rows (a single number for one band)"""
    return [[c + 0.0]] if numpy.ndim(c) == 0 else rows2(c)


@P.case(quick=CASES + [((70, 2), 'float64', 3), ((40, 9), 'int16', 2), ((300, 3), 'uint8', 2)], thorough=CASES + [((6, 3), 'float64'), ((6, 2), 'int16'), ((4, 4), 'float32')], budget=100)
def unmasked(cx):
    (shape, dtype), free = cx.p[:2], cx.p[2:]
    m = cx.mod(S1)
    d, px = scene(cx, shape, dtype) if not free else large(cx, shape, dtype, free[0])
    cx.eq(vecof(m.compute_image_cube_spectral_mean(d)), mean(px), 'mean')
    cx.eq(square(m.compute_image_cube_spectral_covariance(d)), cov(px), 'covariance')
    mu = mean(px)
    cx.eq(rows2(m.demean_image_data(d)), [[v - a for v, a in zip(p, mu)] for p in px], 'mean subtracted')
    cx.eq(rows2(d), px, 'scene left alone')


@P.case(quick=[((4, 2), 'float64', 'bool'), ((3, 3), 'float64', 'int64'), ((4, 2), 'int16', 'uint8'), ((3, 1), 'float64', 'bool'), ((3, 2), 'float64', '255')],
        thorough=[((5, 2), 'float64', 'bool'), ((5, 3), 'float64', 'int64'), ((4, 3), 'int16', 'bool'), ((5, 1), 'uint8', 'uint8')], budget=100)
def masked(cx):
    shape, dtype, kind = cx.p
    m = cx.mod(S1)
    d, px = scene(cx, shape, dtype)
    mask = bools(cx, 'm', shape[0], kind)
    good = used(cx, px, vecof(mask))
    cx.assume(len(good) >= 2)
    keep = vecof(mask.copy())
    mu = mean(good)
    cx.eq(vecof(m.compute_image_cube_spectral_mean(d, mask)), mu, 'mean of the unmasked pixels')
    cx.eq(square(m.compute_image_cube_spectral_covariance(d, mask)), cov(good), 'covariance of the unmasked pixels')
    r = m.demean_image_data(d, mask)
    cx.true(tuple(r.shape) == tuple(shape), 'shape')
    for i in range(shape[0]):
        if not mask[i]:
            cx.eq([r[i, b] for b in range(shape[1])], [v - a for v, a in zip(px[i], mu)], 'mean subtracted')
    cx.eq(rows2(d), px, 'scene left alone')
    cx.eq(vecof(mask), keep, 'mask left alone')


@P.case(quick=[((60, 2), 'float64', 'bool'), ((33, 5), 'int16', 'uint8')])
def masked_large(cx):
    shape, dtype, kind = cx.p
    m = cx.mod(S1)
    d, px = large(cx, shape, dtype, 3)
    mask = numpy.array([i % 3 == 1 for i in range(shape[0])]).astype(kind)
    good = [p for p, v in zip(px, mask) if not v]
    mu = mean(good)
    cx.eq(vecof(m.compute_image_cube_spectral_mean(d, mask)), mu, 'mean of the unmasked pixels')
    cx.eq(square(m.compute_image_cube_spectral_covariance(d, mask)), cov(good), 'covariance of the unmasked pixels')
    r = m.demean_image_data(d, mask)
    cx.eq([[r[i, b] for b in range(shape[1])] for i in range(shape[0]) if not mask[i]], [[v - a for v, a in zip(p, mu)] for p in good], 'mean subtracted')


@P.case(quick=[(4, 2, 'bool'), (3, 2, 'int64')], thorough=[(5, 2, 'bool'), (4, 3, 'bool')], budget=100)
def masked_nan(cx):
    """masked pixels may hold not-a-number"""
    n, nb, kind = cx.p
    m = cx.mod(S1)
    bad = cx.choice('bad', range(n))
    bad = [i for i in range(n) if bad == i][0]
    d, px = scene(cx, (n, nb), 'float64')
    cx.own(d)
    for b in range(nb):
        d[bad, b] = float('nan')
    mask = numpy.zeros(n, dtype=kind)
    mask[bad] = 1
    cx.guard(d, 'd'), cx.guard(mask, 'mask')
    good = [p for i, p in enumerate(px) if i != bad]
    cx.eq(vecof(m.compute_image_cube_spectral_mean(d, mask)), mean(good), 'mean of the unmasked pixels')
    cx.eq(square(m.compute_image_cube_spectral_covariance(d, mask)), cov(good), 'covariance of the unmasked pixels')
    r = m.demean_image_data(d, mask)
    mu = mean(good)
    cx.eq([[r[i, b] for b in range(nb)] for i in range(n) if i != bad], [[v - a for v, a in zip(p, mu)] for p in good], 'mean subtracted')
