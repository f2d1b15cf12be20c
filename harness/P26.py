import math
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P26', bounds='bands and cubes of up to 3x4x3 (and of 17x31x3) samples with arbitrary content of several types, pixel grids of up to 5x4 pixels at eight samplings, uniform images of up to four bands with arbitrary values, arbitrary bounds and shares',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='normalising a constant image, larger images, samplings other than the listed ones, the interpolation of resized images (Pillow, a stand-in)')
MOD = 'resippy.utils.image_utils.image_utils'
SP = 'resippy.utils.spectral_utils'
SHAPES = [(3, 4), (4, 2), (1, 3), (3, 1), (1, 1), (17, 31)]


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    fakes.use_pillow(cx)
    return cx.mod(MOD)


@P.case(quick=[(s, t) for s in SHAPES for t in ('int16', 'float64')])
def bands(cx):
    (ny, nx), dtype = cx.p
    m = env(cx)
    d = cx.array('d', (ny, nx), dtype=dtype)
    f = m.flatten_image_band(d)
    cx.true(tuple(f.shape) == (ny * nx,), 'length')
    cx.eq(f, [d[r, c] for r in range(ny) for c in range(nx)], 'row-major order')
    b = m.unflatten_image_band(f, nx, ny)
    cx.true(tuple(b.shape) == (ny, nx) and b.dtype == d.dtype, 'shape and type')
    cx.eq(b, d, 'inverse')
    v = cx.array('v', nx * ny, dtype=dtype)
    cx.eq(m.unflatten_image_band(v, nx, ny), [[v[r * nx + c] for c in range(nx)] for r in range(ny)], 'unflattened')
    cx.true(m.is_grayscale(d), 'a band is grayscale')
    cx.true(tuple(m.get_image_ny_nx_nbands(d)) == (ny, nx, 1), 'size of a band')


@P.case(quick=[(s, n, t) for s in SHAPES for n, t in ((3, 'int16'), (1, 'float64'))] + [((2, 3), 4, 'float64')])
def cubes(cx):
    (ny, nx), nb, dtype = cx.p
    m = cx.mod(SP)
    d = cx.array('d', (ny, nx, nb), dtype=dtype)
    f = m.flatten_image_cube(d)
    cx.true(tuple(f.shape) == (ny * nx, nb), 'shape')
    cx.eq(f, [[d[r, c, b] for b in range(nb)] for r in range(ny) for c in range(nx)], 'row-major order')
    b = m.unflatten_image_cube(f, nx, ny)
    cx.true(tuple(b.shape) == (ny, nx, nb) and b.dtype == d.dtype, 'shape and type')
    cx.eq(b, d, 'inverse')
    v = cx.array('v', (nx * ny, nb), dtype=dtype)
    cx.eq(m.unflatten_image_cube(v, nx, ny), [[[v[r * nx + c, k] for k in range(nb)] for c in range(nx)] for r in range(ny)], 'unflattened')
    cx.true(tuple(m.get_2d_cube_nx_ny_nbands(d)) == (nx, ny, nb), 'size of a cube')
    cx.true(m.is_2d_cube(d) and not m.is_2d_cube(f) and m.is_1d_cube(f) and not m.is_1d_cube(d), 'kind of cube')
    i = env(cx)
    cx.true(tuple(i.get_image_ny_nx_nbands(d)) == (ny, nx, nb) and not i.is_grayscale(d), 'size of an image')


@P.case(quick=[1, 2, 0.5, 4, 0.25, 3, 1.5, 0.75])
def grid(cx):
    s = cx.p
    m = env(cx)
    nx, ny = cx.int('nx', 1, 5).__index__(), cx.int('ny', 1, 4).__index__()
    xx, yy = m.create_pixel_grid(nx, ny, *([] if s == 1 else [s]))
    kx, ky = math.ceil(nx * s), math.ceil(ny * s)
    cx.true(tuple(xx.shape) == (ky, kx) and tuple(yy.shape) == (ky, kx), 'shape')
    cx.eq(xx, [[c / s for c in range(kx)] for r in range(ky)], 'column coordinates')
    cx.eq(yy, [[r / s for c in range(kx)] for r in range(ky)], 'row coordinates')


@P.case(quick=[('uint8', 1), ('uint8', 3), ('int16', 2), ('float32', 3), ('float64', 4), ('int32', 2)])
def uniform(cx):
    dtype, nb = cx.p
    m = env(cx)
    T = getattr(numpy, dtype)
    lo, hi = (-1000.0, 1000.0) if 'float' in dtype else (0, 255)
    v = [cx.real('v%d' % i, lo, hi) if 'float' in dtype else cx.int('v%d' % i, lo, hi) for i in range(nb)]
    img = m.create_uniform_image_data(4, 2, nbands=nb, values=v, dtype=T)
    cx.true(tuple(img.shape) == (2, 4, nb) and img.dtype == numpy.dtype(dtype), 'shape and type')
    cx.eq(img, [[v for c in range(4)] for r in range(2)], 'values per band', rtol=1e-6)
    if dtype in ('int32', 'float64'):
        big = [cx.int('w%d' % i, -2**31, 2**31 - 1) if dtype == 'int32' else cx.real('w%d' % i, -2.0**40, 2.0**40) for i in range(nb)]
        img = m.create_uniform_image_data(2, 1, nbands=nb, values=big, dtype=T)
        cx.eq(img, [[big, big]], 'large values per band', rtol=0, atol=0)
    for k in (7, 0, 255):
        img = m.create_uniform_image_data(3, 2, nbands=nb, values=k, dtype=T)
        cx.true(tuple(img.shape) == (2, 3, nb) and img.dtype == numpy.dtype(dtype), 'shape and type')
        cx.eq(img, [[[k] * nb] * 3] * 2, 'one value for all bands')
    img = m.create_uniform_image_data(3, 2)
    cx.true(tuple(img.shape) == (2, 3, 1) and img.dtype == numpy.dtype('uint8'), 'shape and type by default')


@P.case(quick=[((1, 3), 'float64', None), ((2, 2), 'uint8', None), ((2, 2), 'int16', None), ((1, 3), 'float64', 'uint8'), ((1, 2), 'int32', 'float32')],
        thorough=[((2, 2), 'float64', None), ((2, 2), 'int8', None), ((2, 2), 'int16', None), ((2, 2), 'uint16', 'int16'), ((2, 2, 2), 'float64', None), ((1, 4), 'float64', 'uint8'), ((2, 2), 'int32', 'float32')], budget=100)
def normalize(cx):
    shape, dtype, out = cx.p
    m = env(cx)
    d = cx.array('d', shape, dtype=dtype)
    x = [v + 0.0 for v in d.reshape(-1)]
    lo, hi = x[0], x[0]
    for v in x[1:]:
        lo, hi = cx.min(lo, v), cx.max(hi, v)
    cx.assume(hi > lo + 0.01)
    a, b = cx.real('new_min', 0, 200), cx.real('new_max', 0, 200)
    r = m.normalize_grayscale_image(d, a, b, *([] if out is None else [getattr(numpy, out)]))
    cx.true(tuple(r.shape) == tuple(shape), 'shape')
    if out is not None:
        cx.true(r.dtype == numpy.dtype(out), 'type')
    r = list(r.reshape(-1))
    for v, g in zip(x, r):
        want = (v - lo) / (hi - lo) * (b - a) + a
        if out in (None, 'float32'):
            cx.eq(g, want, 'linear between the bounds', rtol=1e-6, atol=1e-6)
        else:
            cx.true(cx.And(g <= want + 1e-6, g >= want - 1 - 1e-6), 'linear between the bounds, whole part')


@P.case(quick=['float64', 'uint8', 'int16'])
def blend(cx):
    m = env(cx)
    a, b = cx.array('a', (2, 3, 2), dtype=cx.p), cx.array('b', (2, 3, 2), dtype=cx.p)
    p = cx.real('p', 0, 1)
    ref = lambda q: [[[(a[r, c, k] + 0.0) * q + (b[r, c, k] + 0.0) * (1 - q) for k in range(2)] for c in range(3)] for r in range(2)]
    cx.eq(m.blend_images(a, b, p), ref(p), 'weighted mean')
    cx.eq(m.blend_images(a, b), ref(0.5), 'equal shares by default')
    cx.eq(m.blend_images(a, b, 1), ref(1.0), 'only the first image')
    cx.eq(m.blend_images(a, b, 0), ref(0.0), 'only the second image')


@P.case(quick=[((2, 3), (4, 1)), ((3, 2, 3), (2, 5)), ((2, 2, 4), (2, 2)), ((1, 4), (3, 2))])
def resize(cx):
    """an image of the rows and columns asked for, each band from itself"""
    shape, (h, w) = cx.p
    m = env(cx)
    d = cx.array('d', shape, dtype='uint8')
    got = m.resize_image(d, h, w)
    cx.true(tuple(got.shape) == (h, w) + shape[2:] and got.dtype == numpy.dtype('uint8'), 'shape and type')
    cx.eq(got, [[d[r, c] if len(shape) == 2 else [d[r, c, b] for b in range(shape[2])] for r, c in q] for q in fakes.shrunk(d, h, w)], 'content')
