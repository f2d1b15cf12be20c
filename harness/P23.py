import itertools
import operator
import os
import random
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P23', bounds='images of 5x4x3 and 4x6 samples with arbitrary content (int16, float64, uint8), two chips with any upper left from 4 pixels outside on one side to 4 outside on the other or any centre, five chip sizes from one pixel to the whole image, every kind of band selection; whole-image chipping of every chip size and overlap for images of up to 7x5 (quick) or 11x7 (thorough) pixels; whole-image chipping of four larger images (up to 41x37), 40 chips of a 24x31 image; up to 12 chips written',
         assumptions=['the image writer stores the array it is given'],
         outside='the interpolation of resized chips (Pillow, a stand-in), chips larger than the image, chips outside the image when positions are not adjusted (not supported by the code), larger images')
MOD = 'resippy.utils.image_utils.image_chipper'


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    written = {}
    def save(f, a, *x, **k):
        cx.true(f not in written, 'one file per chip')
        written[f] = a.copy()
    cx.fake('imageio', fakes.Namespace('imageio', imsave=save, imwrite=save))
    fakes.use_pillow(cx)
    return written


def band(d, bands):
    """bands asked for"""
    if bands is None:
        return list(range(d.shape[2])) if d.ndim == 3 else [0]
    return [bands] if isinstance(bands, int) else list(bands)


def window(d, y, x, h, w, bands):
    return [[[d[y + i, x + j, b] if d.ndim == 3 else d[y + i, x + j] for b in bands] for j in range(w)] for i in range(h)]


def compare(cx, chip, d, y, x, h, w, bands):
    b = band(d, bands)
    ref = window(d, y, x, h, w, b)
    if len(b) == 1:
        ref = [[p[0] for p in row] for row in ref]
    cx.true(tuple(chip.shape) == ((h, w) if len(b) == 1 else (h, w, len(b))), 'shape of a chip')
    cx.true(chip.dtype == d.dtype, 'type of a chip')
    cx.eq(chip, ref, 'content of a chip')


def clamp(v, hi):
    return 0 if v < 0 else hi if v > hi else v


@P.case(quick=[((5, 4, 3), 'int16', (2, 3), None), ((5, 4, 3), 'float64', (2, 3), [2, 0]), ((5, 4, 3), 'uint8', (1, 1), 1), ((5, 4, 3), 'int16', (5, 4), [1]), ((5, 4, 3), 'int16', (4, 1), 0), ((4, 6), 'float64', (3, 2), None), ((5, 4, 1), 'int16', (3, 2), None)],
        thorough=[(s, t, c, b) for s, t in (((5, 4, 3), 'int16'), ((4, 6, 3), 'float64')) for c in ((1, 1), (2, 3), (3, 2), (4, 4), (1, 4)) for b in (None, 0, 2, [1], [2, 0], [1, 1], [0, 1, 2])] + [((4, 6), 'float32', c, b) for c in ((1, 1), (2, 3), (4, 6)) for b in (None, [0], 0)], budget=100)
def upper_lefts(cx):
    shape, dtype, (h, w), bands = cx.p
    env(cx)
    m = cx.mod(MOD)
    d = cx.array('d', shape, dtype=dtype)
    keep = d.copy()
    y, x = cx.int('y', -4, shape[0] + 4), cx.int('x', -4, shape[1] + 4)
    ys, xs = [1, y], [0, x]
    pos = (ys, xs) if dtype == 'int16' else (cx.guard(cx.arr(ys, 'int64'), 'ys'), cx.guard(cx.arr(xs, 'int64'), 'xs'))
    chips, uls = m.chip_images_by_pixel_upper_lefts(d, *pos, h, w, bands)
    cx.true(len(uls) == 2 and chips.shape[0] == 2 and m.get_nchips(chips) == 2, 'number of chips')
    cx.eq(d, keep, 'image left alone')
    for i in range(2):
        a, b = clamp(ys[i], shape[0] - h), clamp(xs[i], shape[1] - w)
        cx.eq(list(uls[i]), [a, b], 'reported upper left')
        compare(cx, chips[i], keep, operator.index(a), operator.index(b), h, w, bands)


@P.case(quick=[((5, 4, 3), (2, 3), None), ((4, 6), (3, 2), None)])
def unadjusted(cx):
    """positions inside the image are used as they are when no adjustment is asked for, in any order"""
    shape, (h, w), bands = cx.p
    env(cx)
    d = cx.array('d', shape, dtype='int16')
    y, x = cx.int('y', 0, shape[0] - h), cx.int('x', 0, shape[1] - w)
    ys, xs = cx.arr([y, 0, 1], 'int64'), cx.arr([x, 1, 1], 'int64')
    chips, uls = cx.mod(MOD).chip_images_by_pixel_upper_lefts(d, ys, xs, h, w, keep_within_image_bounds=False)
    for i, (a, b) in enumerate([(y, x), (0, 1), (1, 1)]):
        cx.eq(list(uls[i]), [a, b], 'reported upper left')
        compare(cx, chips[i], d, operator.index(a), operator.index(b), h, w, bands)
    cx.eq(ys, [y, 0, 1], 'positions left alone')


@P.case(quick=[((5, 4, 3), (2, 3), None), ((5, 4, 3), (3, 1), [2, 0]), ((4, 6), (1, 2), None), ((5, 4, 3), (4, 2), 1)],
        thorough=[(s, (h, w), b) for s, bs in (((5, 4, 3), (None, 1, [2, 0])), ((4, 6), (None,))) for h in (1, 2, 3, 4) for w in (1, 2, 3, 4) for b in bs])
def centers(cx):
    """the centre is the middle pixel, or one of the two middle ones, unless the image border is in the way"""
    shape, (h, w), bands = cx.p
    env(cx)
    d = cx.array('d', shape, dtype='int16')
    y, x = cx.int('y', 0, shape[0] - 1), cx.int('x', 0, shape[1] - 1)
    chips, uls = cx.mod(MOD).chip_images_by_pixel_centers(d, [y, 2], [x, 1], h, w, bands)
    cx.true(len(uls) == 2, 'number of chips')
    for i, (cy, cx_) in enumerate([(y, x), (2, 1)]):
        a, b = uls[i]
        for u, c, n, size, axis_ in ((a, cy, h, shape[0], 'row'), (b, cx_, w, shape[1], 'column')):
            cx.true(cx.And(u >= 0, u <= size - n), 'inside the image')
            cx.true(cx.And(u <= c, c < u + n), 'chip contains its centre ' + axis_)
            lo = c - u
            mid = cx.Or(lo == n // 2, lo == (n - 1) // 2)
            border = cx.Or(cx.And(u == 0, lo < n / 2), cx.And(u == size - n, lo >= n / 2))
            cx.true(cx.Or(mid, border), 'centre in the middle of the chip, %s' % axis_)
        compare(cx, chips[i], d, operator.index(a), operator.index(b), h, w, bands)


@P.case(quick=[((7, 5), None), ((4, 5, 2), None), ((5, 3, 3), [2, 0]), ((3, 6, 2), 1)],
        thorough=[((11, 7), None), ((7, 9), None), ((6, 8, 2), [1, 0]), ((8, 3, 2), 0), ((10, 2, 1), None)], budget=120)
def whole(cx):
    shape, bands = cx.p
    env(cx)
    ny, nx = shape[:2]
    d = cx.array('d', shape, dtype='int16')
    h, w = operator.index(cx.int('h', 1, ny)), operator.index(cx.int('w', 1, nx))
    # overlaps of the two axes are varied independently
    oy, ox = operator.index(cx.int('oy', 0, h - 1)), operator.index(cx.int('ox', 0, w - 1))
    chips, uls = cx.mod(MOD).chip_entire_image_to_memory(d, h, w, oy, ox, bands)
    uls = [(operator.index(a), operator.index(b)) for a, b in uls]
    cx.true(len(chips) == len(uls), 'one position per chip')
    cx.true(len(set(uls)) == len(uls), 'no chip twice')
    for (n, size, over, k) in ((ny, h, oy, 0), (nx, w, ox, 1)):
        at = sorted({u[k] for u in uls})
        cx.true(at[0] == 0 and at[-1] == n - size, 'first to last pixel')
        cx.true(all(b - a == size - over for a, b in zip(at[:-2], at[1:-1])) and all(b - a <= size - over for a, b in zip(at, at[1:])), 'overlap')
    cx.true(set(uls) == {(a, b) for a in {u[0] for u in uls} for b in {u[1] for u in uls}}, 'rectangular arrangement')
    seen = set()
    for c, (y, x) in zip(chips, uls):
        compare(cx, c, d, y, x, h, w, bands)
        seen |= {(y + i, x + j) for i in range(h) for j in range(w)}
    cx.true(len(seen) == ny * nx, 'every pixel covered')


BIG = [((23, 37, 2), (7, 12), (3, 5)), ((41, 19, 1), (10, 19), (9, 0)), ((16, 33, 3), (16, 8), (0, 7)), ((64, 20, 1), (5, 3), (0, 0))]


@P.case(quick=BIG)
def whole_large(cx):
    (ny, nx, nb), (h, w), (oy, ox) = cx.p
    env(cx)
    d = cx.array('d', (ny, nx, nb), dtype='int16')
    chips, uls = cx.mod(MOD).chip_entire_image_to_memory(d, h, w, oy, ox)
    uls = [(operator.index(a), operator.index(b)) for a, b in uls]
    cx.true(len(chips) == len(uls) == len(set(uls)), 'one position per chip')
    ats = []
    for (n, size, over) in ((ny, h, oy), (nx, w, ox)):
        at = list(range(0, n - size + 1, size - over))
        ats.append(at if at[-1] == n - size else at + [n - size])
    cx.true(set(uls) == set(itertools.product(*ats)), 'arrangement')
    for c, (y, x) in zip(chips, uls):
        compare(cx, c, d, y, x, h, w, None)


@P.case(quick=[None, [2, 0], 1])
def many(cx):
    """many chips, inside and outside of a larger image"""
    env(cx)
    d = cx.array('d', (24, 31, 3), dtype='float32')
    r = random.Random(23)
    for h, w in ((5, 9), (24, 3)):
        ys, xs = [r.randrange(-30, 60) for _ in range(40)], [r.randrange(-30, 60) for _ in range(40)]
        chips, uls = cx.mod(MOD).chip_images_by_pixel_upper_lefts(d, ys, xs, h, w, cx.p)
        cx.true(len(chips) == len(uls) == 40, 'number of chips')
        for c, u, y, x in zip(chips, uls, ys, xs):
            y, x = clamp(y, 24 - h), clamp(x, 31 - w)
            cx.eq(list(u), [y, x], 'reported upper left')
            compare(cx, c, d, y, x, h, w, cx.p)


@P.case(quick=[((3, 2, 3, 3), {}), ((2, 2, 3, 4), {}), ((2, 2, 3, 4), dict(remove_alpha=False)), ((3, 2, 3), {}), ((2, 3, 4), {}), ((1, 2, 2, 1), dict(output_format='.tif')), ((2, 2, 2, 3), dict(base_chip_fname='scene')), ((2, 2, 2, 3), dict(fnames_list=['b', 'a'])), ((12, 1, 2), dict(base_chip_fname='q'))])
def write(cx):
    shape, opt = cx.p
    written = env(cx)
    chips = cx.array('c', shape, dtype='uint8')
    cx.mod(MOD).write_chips_to_disk(chips, '/scratch/out', **opt)
    cx.true(len(written) == shape[0], 'one file per chip')
    names = opt.get('fnames_list', ['%s_%08d' % (opt.get('base_chip_fname', 'out'), i) for i in range(shape[0])])
    ext = opt.get('output_format', 'png').replace('.', '')
    for i in range(shape[0]):
        f = '/scratch/out/%s.%s' % (names[i], ext)
        cx.true(f in written, 'file name')
        ref = [[chips[i, r, c] if len(shape) == 3 else [chips[i, r, c, b] for b in range(3 if shape[3] == 4 and opt.get('remove_alpha', True) else shape[3])] for c in range(shape[2])] for r in range(shape[1])]
        cx.true(tuple(written[f].shape) == numpy.shape(ref if len(shape) == 3 else ref), 'shape on disk')
        cx.eq(written[f], ref, 'content on disk')


@P.case(quick=[((2, 3, 4, 3), (2, 5), {}), ((2, 3, 4, 4), (5, 2), {}), ((1, 2, 3, 4), (3, 2), dict(remove_alpha=False)), ((3, 2, 3), (4, 1), {}), ((2, 2, 2), (2, 2), dict(fnames_list=['b', 'a']))])
def write_resized(cx):
    """every chip written in the size asked for"""
    shape, (h, w), opt = cx.p
    written = env(cx)
    chips = cx.array('c', shape, dtype='uint8')
    cx.mod(MOD).write_chips_to_disk(chips, '/scratch/out', output_chip_ny=h, output_chip_nx=w, **opt)
    cx.true(len(written) == shape[0], 'one file per chip')
    names = opt.get('fnames_list', ['out_%08d' % i for i in range(shape[0])])
    for i in range(shape[0]):
        f = '/scratch/out/%s.png' % names[i]
        cx.true(f in written, 'file name')
        idx = fakes.shrunk(chips[i], h, w)
        ref = [[chips[i, r, c] if len(shape) == 3 else [chips[i, r, c, b] for b in range(3 if shape[3] == 4 and opt.get('remove_alpha', True) else shape[3])] for r, c in q] for q in idx]
        cx.true(tuple(written[f].shape) == numpy.shape(ref), 'shape on disk')
        cx.eq(written[f], ref, 'content on disk')
