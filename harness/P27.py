import operator
import random
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P27', bounds='images of 1x2, 2x1 and 1x3 pixels with 3 or 4 channels of arbitrary uint8 content (one to three pixels arbitrary), tables of up to three colours including black and colours that share channels; images of 19x23 and 5x40 pixels with two arbitrary pixels',
         assumptions=['the colour library turns hexadecimal notation into three numbers'],
         outside='two colours with one label, larger images')
MOD = 'resippy.utils.image_utils.image_mask_utils'
HEX = {'#ff0000': (255, 0, 0), '#00ff00': (0, 255, 0), '#000000': (0, 0, 0), '#0a14ff': (10, 20, 255), '#140aff': (20, 10, 255)}


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    cx.fake('colorutils', fakes.Namespace('colorutils', hex_to_rgb=lambda h: HEX[h]))
    return cx.mod(MOD)


def places(cx, got, want, label):
    """rows and columns, in any order, each exactly once"""
    ys, xs = got
    g = [(operator.index(a), operator.index(b)) for a, b in zip(ys, xs)]
    cx.true(len(ys) == len(xs) and sorted(g) == sorted(want), label)


@P.case(quick=[((1, 2), 3, ['#ff0000', '#000000']), ((2, 1), 4, ['#0a14ff', '#140aff', '#ff0000']), ((1, 3), 3, ['#0a14ff'])],
        thorough=[((2, 2), 3, ['#ff0000', '#000000']), ((1, 3), 4, ['#0a14ff', '#140aff', '#000000']), ((3, 1), 3, ['#00ff00', '#ff0000', '#000000'])], budget=150)
def colours(cx):
    (ny, nx), nb, table = cx.p
    m = env(cx)
    img = cx.array('i', (ny, nx, nb), dtype='uint8')
    got = m.rgb_image_point_mask_to_pixel_locations(img, {c: 'label %d' % k for k, c in enumerate(table)})
    cx.true(sorted(got) == ['label %d' % k for k in range(len(table))], 'every label is there')
    for k, c in enumerate(table):
        want = []
        for y in range(ny):
            for x in range(nx):
                if cx.And(img[y, x, 0] == HEX[c][0], img[y, x, 1] == HEX[c][1], img[y, x, 2] == HEX[c][2]):
                    want.append((y, x))
        places(cx, got['label %d' % k], want, 'pixels of a colour')


@P.case(quick=[((19, 23), 3), ((5, 40), 4)])
def larger(cx):
    """a larger image with two arbitrary pixels"""
    (ny, nx), nb = cx.p
    m = env(cx)
    r = random.Random(ny)
    table = ['#0a14ff', '#140aff', '#ff0000', '#000000']
    px = [[list(HEX[r.choice(table + ['#00ff00'])]) + [255] * (nb - 3) for x in range(nx)] for y in range(ny)]
    free = [(ny - 1, nx - 1), (ny // 2, 3)]
    for k, (y, x) in enumerate(free):
        px[y][x] = [cx.int('p%d_%d' % (k, b), 0, 255) for b in range(nb)]
    got = m.rgb_image_point_mask_to_pixel_locations(cx.arr(px, 'uint8'), {c: c for c in table})
    for c in table:
        want = [(y, x) for y in range(ny) for x in range(nx) if (y, x) not in free and tuple(px[y][x][:3]) == HEX[c]]
        want += [(y, x) for y, x in free if cx.And(*[px[y][x][b] == HEX[c][b] for b in range(3)])]
        places(cx, got[c], want, 'pixels of a colour')


@P.case(quick=[((2, 3), 3), ((3, 2), 4), ((1, 1), 3)], thorough=[((3, 3), 4), ((2, 4), 3)])
def any_colour(cx):
    (ny, nx), nb = cx.p
    m = env(cx)
    img = cx.array('i', (ny, nx, nb), dtype='uint8')
    want = [(y, x) for y in range(ny) for x in range(nx) if cx.Or(*[img[y, x, b] != 0 for b in range(3)])]
    places(cx, m.rgb_image_point_mask_to_pixel_locations(img), want, 'pixels that are not black')
