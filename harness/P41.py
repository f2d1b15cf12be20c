import math
import numpy
from sv.prop import Prop
from .lib import *

P = Prop('P41', bounds='two images of 1 to 4 pixels (5 in the thorough tier) with arbitrary content, 1 to 4 histogram bins, constant and varying images; joint histograms of up to 3x3 bins with arbitrary counts from 0 to 3; many pixels in one bin, pixels in any order',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='larger images, more bins, the rounding of bin edges')
MOD = 'resippy.utils.image_utils.image_registration'


def bin_of(v, lo, hi, n):
    """index of the equal-width bin (the last one closed)"""
    for j in range(n - 1):
        if (v - lo) * n < (hi - lo) * (j + 1):
            return j
    return n - 1


def score(joint, h1, h2):
    s = 0.0
    for n in range(len(h1)):
        for m in range(len(h2)):
            if joint[n][m] > 0:
                s = s + joint[n][m] * math.log(joint[n][m] / (h1[n] * h2[m]))
    return s


def extent(xs):
    # numbers first: they settle most comparisons
    xs = sorted([x for x in xs if isinstance(x, float)]) + [x for x in xs if not isinstance(x, float)]
    xs = xs[:1] + [x for a, x in zip(xs, xs[1:]) if not (isinstance(a, float) and isinstance(x, float) and a == x)]
    lo, hi = xs[0], xs[0]
    for x in xs[1:]:
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    return (lo - 0.5, hi + 0.5) if lo == hi else (lo, hi)


def reference(a, b, n):
    (la, ha), (lb, hb) = extent(a), extent(b)
    ia, ib = [bin_of(v, la, ha, n) for v in a], [bin_of(v, lb, hb, n) for v in b]
    joint = [[sum(1 for p, q in zip(ia, ib) if (p, q) == (i, j)) for j in range(n)] for i in range(n)]
    return score(joint, [ia.count(i) for i in range(n)], [ib.count(i) for i in range(n)])


@P.case(quick=[((1, 1), 2, 'float64'), ((1, 3), 2, 'int16'), ((2, 1), 4, 'float64'), ((1, 2), 1, 'float64'), ((1, 2), 3, 'uint8')],
        thorough=[((1, 1), 2, 'float64'), ((2, 1), 4, 'float64'), ((2, 2), 2, 'float64'), ((2, 2), 2, 'uint8'), ((1, 3), 4, 'float64'), ((1, 3), 4, 'int16'), ((1, 4), 2, 'int16'), ((2, 1), 8, 'float64'), ((5, 1), 2, 'float64')], budget=120)
def images(cx):
    shape, n, dtype = cx.p
    a, b = cx.array('a', shape, dtype=dtype, lo=0, hi=200), cx.array('b', shape, dtype=dtype, lo=0, hi=200)
    mm = cx.mod(MOD).MMI
    fa, fb = [v + 0.0 for v in a.reshape(-1)], [v + 0.0 for v in b.reshape(-1)]
    s = mm.image_mmi(a, b, nbins=n)
    cx.eq(s, reference(fa, fb, n), 'score', rtol=1e-9, atol=1e-9)
    cx.eq(mm.image_mmi(b, a, nbins=n), s, 'symmetric', rtol=1e-9, atol=1e-9)


@P.case(quick=[2, 5])
def counts(cx):
    """many pixels in one bin of the joint histogram"""
    n = cx.p
    a, b = numpy.zeros((25, 40)), numpy.zeros((25, 40))
    a[20:], b[:, 30:] = 10.0, 10.0
    a[3, 4:30], b[3, 7] = 5.0, 5.0
    fa, fb = list(a.reshape(-1)), list(b.reshape(-1))
    fa[400], fb[901] = cx.real('a', 0, 10), cx.real('b', 0, 10)
    ia, ib = cx.arr(fa).reshape(25, 40), cx.arr(fb).reshape(25, 40)
    if n == 2:       # kept by column
        ib = ib.transpose().copy().transpose()
    s = cx.mod(MOD).MMI.image_mmi(ia, ib, nbins=n)
    cx.eq(s, reference(fa, fb, n), 'score', rtol=1e-9, atol=1e-9)


@P.case(quick=[2], thorough=[2, 3], budget=100)
def histograms(cx):
    """the sum itself, for every histogram including inconsistent ones"""
    n = cx.p
    joint = cx.array('j', (n, n), dtype='int64', lo=0, hi=2 if n == 2 else 1)
    j = [[joint[r, c].__index__() for c in range(n)] for r in range(n)]
    h1, h2 = [sum(r) for r in j], [sum(j[r][c] for r in range(n)) for c in range(n)]
    mm = cx.mod(MOD).MMI
    got = mm._histogram_mmi(cx.arr(h1, 'int64'), cx.arr(h2, 'int64'), cx.arr([[v * 1.0 for v in r] for r in j], 'float64'))
    cx.eq(got, score(j, h1, h2), 'score', rtol=1e-9, atol=1e-9)


@P.case(quick=[(3, 2)], thorough=[(3, 2), (4, 2)])
def shuffled(cx):
    """the score does not depend on where the pixels lie, and counts each one"""
    k, n = cx.p
    a, b = cx.array('a', (1, k), lo=0, hi=100), cx.array('b', (1, k), lo=0, hi=100)
    mm = cx.mod(MOD).MMI
    o = list(range(1, k)) + [0]
    s = mm.image_mmi(a, b, nbins=n)
    cx.eq(mm.image_mmi(cx.arr([[a[0, i]] for i in o]), cx.arr([[b[0, i]] for i in o]), nbins=n), s, 'score of rearranged images', rtol=1e-9, atol=1e-9)
