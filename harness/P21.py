import itertools
import os
import shutil
import tempfile
import numpy
from sv.prop import Prop
from .lib import *

P = Prop('P21', bounds='cubes of 2x3x4, 3x2x2, 1x3x2, 2x1x3, 2x3x1 and 1x1x1 (and 7x5x33, 130x4x2 and 2x260x2) samples with arbitrary content in every real sample type of the standard, all three interleaves, written by the library or by another writer; every type code 0 to 20 and every numpy type',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'numpy tofile/fromfile keep samples of one type in order (virtual files symbolically, real files on replay)'],
         outside='complex content, byte orders other than the machine one, header offsets, larger cubes')
MOD = 'resippy.utils.envi_utils'
CODES = {1: 'uint8', 2: 'int16', 3: 'int32', 4: 'float32', 5: 'float64', 6: 'complex64', 9: 'complex128', 12: 'uint16', 13: 'uint32', 14: 'int64', 15: 'uint64'}
REAL = {v: k for k, v in CODES.items() if 'complex' not in v}
SHAPES = [(2, 3, 4), (3, 2, 2), (1, 3, 2), (2, 1, 3), (2, 3, 1), (1, 1, 1)]


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p21')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def order(shape, interleave):
    ny, nx, nb = shape
    if interleave == 'bil':
        return [(r, c, b) for r in range(ny) for b in range(nb) for c in range(nx)]
    if interleave == 'bip':
        return [(r, c, b) for r in range(ny) for c in range(nx) for b in range(nb)]
    return [(r, c, b) for b in range(nb) for r in range(ny) for c in range(nx)]


def same(cx, got, cube, shape, dtype):
    cx.true(tuple(got.shape) == shape, 'shape')
    cx.true(got.dtype == numpy.dtype(dtype), 'sample type')
    cx.eq(got, cube, 'content')


@P.case(quick=[((2, 3, 4), t, i, 0) for t in ('int16', 'float64') for i in ('bil', 'bip', 'bsq')] + [(s, 'float32', i, 1) for s in SHAPES[1:] for i in ('bil', 'bip', 'bsq')] + [((2, 3, 2), t, 'bil', 2) for t in REAL] + [((7, 5, 33), 'int16', i, 0) for i in ('bil', 'bip', 'bsq')] + [((130, 4, 2), 'float32', 'bil', 1), ((2, 260, 2), 'uint16', 'bsq', 1)],
        thorough=[(s, t, i, n) for s in SHAPES for t in REAL for i in ('bil', 'bip', 'bsq') for n in (0, 1, 2)])
def roundtrip(cx):
    shape, dtype, interleave, naming = cx.p
    m = cx.mod(MOD)
    cube = cx.array('d', shape, dtype=dtype)
    keep = cube.copy()
    with Dir() as d:
        f, h = [(d + '/cube', None), (d + '/cube.img', d + '/cube.hdr'), (d + '/scene.dat', d + '/other.txt')][naming]
        m.write_envi_image(cube, f, *([] if h is None else [h]), **({} if interleave == 'bil' else dict(interleave=interleave)))
        cx.eq(cube, keep, 'the cube itself is left alone')
        raw = cx.read_raw(f, dtype)
        cx.true(len(raw) == int(numpy.prod(shape)), 'number of samples in the file')
        cx.eq(raw, [keep[k] for k in order(shape, interleave)], 'order of the samples in the file')
        got = m.read_envi_image(f, *([h] if naming == 2 else []))
        same(cx, got, keep, shape, dtype)
        hd = m.read_envi_header(f + '.hdr' if h is None else h)
        cx.eq([hd['samples'], hd['lines'], hd['bands'], hd['data type']], [shape[1], shape[0], shape[2], REAL[dtype]], 'size and type in the header')
        cx.true(hd['interleave'] == interleave, 'interleave in the header')


@P.case(quick=[((2, 3, 4), 'int16', i) for i in ('bil', 'bip', 'bsq')] + [((3, 2, 2), 'uint16', i) for i in ('BIL', 'BIP', 'BSQ')] + [((1, 3, 2), t, 'bsq') for t in REAL])
def foreign(cx):
    """a file of another writer"""
    shape, dtype, interleave = cx.p
    m = cx.mod(MOD)
    cube = cx.array('d', shape, dtype=dtype)
    with Dir() as d:
        cx.write_raw(d + '/a.img', [cube[k] for k in order(shape, interleave.lower())], dtype)
        with open(d + '/a.hdr', 'w') as f:
            f.write('ENVI\nsamples = %d\nlines   = %d\nbands   = %d\nheader offset = 0\nfile type = ENVI Standard\ndata type = %d\ninterleave = %s\nbyte order = 0\n' % (shape[1], shape[0], shape[2], REAL[dtype], interleave))
        same(cx, m.read_envi_image(d + '/a.img'), cube, shape, dtype)


@P.case(quick=['bil', 'bip', 'bsq'])
def arrange(cx):
    ny, nx, nb = 2, 3, 2
    raw = cx.array('raw', ny * nx * nb, dtype='float64')
    got = cx.mod(MOD).construct_image_cube_from_raw_data(raw, nx, ny, nb, cx.p)
    o = order((ny, nx, nb), cx.p)
    cx.eq(got, [[[raw[o.index((r, c, b))] for b in range(nb)] for c in range(nx)] for r in range(ny)], 'cube')


@P.case()
def unknown_interleave(cx):
    """an interleave that does not exist is not silently read or written as zeros"""
    m = cx.mod(MOD)
    cube = cx.array('d', (1, 2, 2), dtype='float64')
    with Dir() as d:
        cx.raises(lambda: m.write_envi_image(cube, d + '/x', interleave='bli'), Exception, 'writing an unknown interleave')
    cx.raises(lambda: m.construct_image_cube_from_raw_data(cube.reshape(-1), 2, 1, 2, 'bli'), Exception, 'reading an unknown interleave')


@P.case()
def codes(cx):
    """type codes of the standard, in both directions"""
    m = cx.mod(MOD)
    code = cx.choice('code', list(range(0, 21)))
    known = [k for k in CODES if k == code]
    if known:
        t = numpy.dtype(CODES[known[0]])
        cx.true(numpy.dtype(m.envi_dtype_to_numpy_dtype(code)) == t, 'numpy type of a code')
        cx.eq(m.numpy_dtype_to_envi_dtype(t), known[0], 'code of a numpy type')
        cx.eq(m.numpy_dtype_to_envi_dtype(t.type), known[0], 'code of a numpy scalar type')
    else:
        with Dir() as d:
            numpy.zeros(8).tofile(d + '/a.img')
            with open(d + '/a.hdr', 'w') as f:
                f.write('ENVI\nsamples = 2\nlines = 2\nbands = 2\ndata type = %d\ninterleave = bil\n' % int(code))
            cx.raises(lambda: m.read_envi_image(d + '/a.img'), Exception, 'files of an unsupported type are not read as another type')


@P.case(quick=['bool', 'int8', 'float16', '>i2'])
def unsupported(cx):
    """sample types without a code are not written as another type"""
    m = cx.mod(MOD)
    cube = numpy.zeros((1, 2, 2), dtype=cx.p)
    with Dir() as d:
        cx.raises(lambda: m.write_envi_image(cx.arr(cube, cx.p), d + '/x'), Exception, 'unsupported type')
