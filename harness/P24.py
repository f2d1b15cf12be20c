import operator
import random
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P24', bounds='one to three chips of several sizes (square and not) at any upper left within 0 to 3 (rows) and 0 to 2 (columns), 12 and 40 chips of 7x4 pixels at fixed places with scores in a fixed order, arbitrary scores including negative and equal ones',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='not-a-number scores, more chips, larger images')
MOD = 'resippy.utils.image_utils.image_utils'


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    return cx.mod(MOD)


@P.case(quick=[(1, 3, 2, 3, 2), (2, 2, 1, 3, 2), (2, 1, 2, 2, 3), (3, 2, 1, 0, 1)],
        thorough=[(1, 3, 2, 4, 4), (2, 2, 1, 4, 3), (2, 1, 3, 3, 3), (3, 2, 2, 1, 1), (3, 1, 2, 1, 2), (3, 1, 1, 2, 2)], budget=150)
def detection(cx):
    n, w, h, my, mx = cx.p
    m = env(cx)
    scores = cx.array('s', n)
    ys, xs = [cx.int('y%d' % i, 0, my) for i in range(n)], [cx.int('x%d' % i, 0, mx) for i in range(n)]
    ul = cx.arr([[a, b] for a, b in zip(ys, xs)], 'int64')
    img = m.create_detection_image_from_scores(scores, ul, w, h)
    # positions as numbers from here on
    ys, xs = [operator.index(v) for v in ys], [operator.index(v) for v in xs]
    ny, nx = max(ys) + h, max(xs) + w
    cx.true(tuple(img.shape) == (ny, nx), 'just large enough for all chips')
    ref = []
    for r in range(ny):
        row = []
        for c in range(nx):
            over = [scores[i] for i in range(n) if ys[i] <= r < ys[i] + h and xs[i] <= c < xs[i] + w]
            v = 0.0
            if over:
                v = over[0]
                for o in over[1:]:
                    v = cx.max(v, o)
            row.append(v)
        ref.append(row)
    cx.eq(img, ref, 'best score covering each pixel')


@P.case(quick=[12, 40])
def scattered(cx):
    """many chips over a larger image, scores in a known order but otherwise arbitrary"""
    n = cx.p
    m = env(cx)
    r = random.Random(n)
    rank = r.sample(range(n), n)
    scores = cx.arr([cx.real('s%d' % i, k - n / 2 + 0.001, k + 1 - n / 2) for i, k in enumerate(rank)], 'float64')
    cx.witness = {'s%d' % i: k - n / 2 + 0.5 for i, k in enumerate(rank)}
    ul = [(r.randrange(0, 19), r.randrange(0, 11)) for _ in range(n)]
    w, h = 4, 7
    img = m.create_detection_image_from_scores(scores, cx.arr(ul, 'int64'), w, h)
    ny, nx = max(a for a, b in ul) + h, max(b for a, b in ul) + w
    cx.true(tuple(img.shape) == (ny, nx), 'just large enough for all chips')
    ref = [[0.0] * nx for _ in range(ny)]
    for k, (a, b), s in sorted(zip(rank, ul, list(scores))):
        for i in range(h):
            ref[a + i][b:b + w] = [s] * w
    cx.eq(img, ref, 'best score covering each pixel')


@P.case(quick=[5], thorough=[6])
def many(cx):
    """a row of overlapping chips: the order of painting with more scores"""
    n = cx.p
    m = env(cx)
    scores = cx.array('s', n, lo=-10, hi=10)
    for i in range(n - 1):
        # a partial order keeps the number of cases small; the rest stays free
        if i % 2:
            cx.assume(scores[i] <= scores[i + 1])
    img = m.create_detection_image_from_scores(scores, cx.arr([[0, i] for i in range(n)], 'int64'), 2, 1)
    ref = [scores[0]] + [cx.max(scores[i - 1], scores[i]) for i in range(1, n)] + [scores[n - 1]]
    cx.eq(img, [ref], 'best score covering each pixel')


@P.case(quick=[0.75, -3.0])
def close(cx):
    """scores that differ by very little are still told apart"""
    m = env(cx)
    n = 6
    rank = [3, 0, 5, 1, 4, 2]
    scores = cx.arr([cx.p + k * 1e-9 + cx.real('s%d' % i, 0, 0.5e-9) for i, k in enumerate(rank)], 'float64')
    img = m.create_detection_image_from_scores(scores, cx.arr([[0, i] for i in range(n)], 'int64'), 3, 1)
    top = lambda at: scores[max(at, key=lambda i: rank[i])]
    ref = [top([i for i in (c - 2, c - 1, c) if 0 <= i < n]) for c in range(n + 2)]
    cx.eq(img, [ref], 'best score covering each pixel', rtol=1e-13, atol=1e-13)
