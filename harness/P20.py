import math
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *
from .P19 import cells, bandof

P = Prop('P20', bounds='images of 2x3, 3x2 and 1x1 pixels with 1 to 3 bands and 2-D arrays, every content in each of seven sample types, every geotransform and no-data value (including fractions, not-a-number and none)',
         assumptions=['GDAL stores what it is told to store and hands it back (in-memory model of datasets, bands, size, type, geotransform, projection text and no-data value)', 'the projection text of a definition leads back to that definition (PROJ/OSR are native code)'],
         outside='larger images, compression and tiling (native code), datum and axis details of projection texts')
E = 'resippy.image_objects.earth_overhead.geotiff.'
TYPES = {'float64': 7, 'float32': 6, 'int16': 3, 'uint16': 2, 'int32': 5, 'uint32': 4, 'uint8': 1}


def env(cx):
    gd = fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    return gd, fakes.FakeProj('+proj=mine')


def nodata_of(cx, which):
    return {'real': lambda: cx.real('nodata', -1e6, 1e6), 'int': lambda: cx.int('nodata', -32768, 32767), 'nan': lambda: float('nan'), 'none': lambda: None}[which]()


def check(cx, ds, md, exp, g, nodata, which, gdt, shape, label):
    """ds: file or in-memory dataset"""
    ny, nx, nb = shape
    cx.eq([ds.RasterXSize, ds.RasterYSize, ds.RasterCount], [nx, ny, nb], label + ': size')
    for b in range(nb):
        band = ds.GetRasterBand(b + 1)
        cx.eq(bandof(band.ReadAsArray()), exp[b], label + ': band')
        cx.true(band.DataType == gdt, label + ': type')
        nd = band.GetNoDataValue()
        if which == 'none':
            cx.true(nd is None, label + ': no no-data value')
        elif which == 'nan':
            cx.true(nd is not None and math.isnan(nd), label + ': not-a-number no-data value')
        else:
            cx.eq(nd, nodata, label + ': no-data value')
    cx.eq(list(ds.GetGeoTransform()), g, label + ': geotransform')
    cx.true('+proj=mine' in ds.GetProjection(), label + ': projection')


def image(cx, shape, dtype, which, late=False):
    gd, pj = env(cx)
    d = cx.array('d', shape, dtype=dtype)
    g = [cx.real('g%d' % i, nice=(-4, 4)) for i in range(6)]
    det = g[1] * g[5] - g[2] * g[4]
    cx.assume(cx.Or(det >= 0.0625, det <= -0.0625))
    nodata = nodata_of(cx, which)
    shape3 = tuple(shape) + (1,) * (3 - len(shape))
    exp = cells(d.reshape(shape3))
    im = cx.mod(E + 'geotiff_image_factory').GeotiffImageFactory.from_numpy_array(d, list(g), pj, *([] if late else [nodata]))
    if late:
        im.get_metadata().set_nodata_val(nodata)
    return gd, im, exp, g, nodata, shape3


@P.case(quick=[((2, 3, 2), t, 'real') for t in TYPES] + [((3, 2, 3), 'float64', 'nan'), ((2, 3), 'int16', 'int'), ((2, 3), 'float64', 'none'), ((1, 1, 1), 'uint8', 'int'), ((1, 1), 'float32', 'real'), ((270, 3, 1), 'int16', 'int'), ((2, 300), 'uint8', 'none'), ((2, 3, 12), 'float32', 'real'), ((65, 67, 1), 'float64', 'real')])
def written(cx):
    shape, dtype, which = cx.p
    gd, im, exp, g, nodata, s3 = image(cx, shape, dtype, which, late=len(shape) == 2)
    im.write_to_disk('/out/im.tif')
    cx.true('/out/im.tif' in gd.files, 'file written')
    check(cx, gd.files['/out/im.tif'], None, exp, g, nodata, which, TYPES[dtype], s3, 'file')
    back = cx.mod(E + 'geotiff_image_factory').GeotiffImageFactory.from_file('/out/im.tif')
    md, pc = back.get_metadata(), back.get_point_calculator()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [s3[1], s3[0], s3[2]], 'size read')
    cx.true(md.get_gdal_datatype() == TYPES[dtype], 'type read')
    if which == 'none':
        cx.true(md.get_nodata_val() is None, 'no no-data value read')
    elif which == 'nan':
        cx.true(md.get_nodata_val() is not None and math.isnan(md.get_nodata_val()), 'not-a-number no-data value read')
    else:
        cx.eq(md.get_nodata_val(), nodata, 'no-data value read')
    cx.eq(list(pc.get_geot()), g, 'geotransform read')
    cx.true(pc.get_projection().srs.strip() == '+proj=mine', 'projection read')
    al = back.read_all_image_data_from_disk()
    cx.true(tuple(al.shape) == s3 and al.dtype == numpy.dtype(dtype), 'shape and type read')
    cx.eq(cells(al), exp, 'content read')
    for b in range(s3[2]):
        cx.eq(bandof(back.read_band_from_disk(b)), exp[b], 'band read')
    # written again without loading it first
    back.write_to_disk('/out/again.tif')
    check(cx, gd.files['/out/again.tif'], None, exp, g, nodata, which, TYPES[dtype], s3, 'second file')


@P.case(quick=['data', 'band', 'mem'])
def changed(cx):
    """an image opened from a file and changed in memory is written as it is in memory"""
    gd, im, exp, g, nodata, s3 = image(cx, (2, 3, 2), 'float64', 'real')
    im.write_to_disk('/out/im.tif')
    back = cx.mod(E + 'geotiff_image_factory').GeotiffImageFactory.from_file('/out/im.tif')
    k = cx.choice('band', range(2))
    new = cx.array('n', (2, 3))
    d = back.read_all_image_data_from_disk()
    if cx.p != 'band':
        d[:, :, k] = new
    back.set_image_data(d)
    if cx.p == 'band':
        back.set_image_band(new, k)
    exp = [bandof(new) if b == k else exp[b] for b in range(2)]
    if cx.p == 'mem':
        ds = back.get_gdal_mem_datset()
    else:
        back.write_to_disk('/out/new.tif')
        ds = gd.files['/out/new.tif']
    check(cx, ds, None, exp, g, nodata, 'real', 7, s3, 'changed image')


@P.case(quick=[((2, 3, 2), 'float64', 'real'), ((2, 3, 2), 'int16', 'int'), ((3, 2), 'uint8', 'none'), ((3, 2, 3), 'float32', 'nan')])
def in_memory(cx):
    shape, dtype, which = cx.p
    gd, im, exp, g, nodata, s3 = image(cx, shape, dtype, which)
    check(cx, im.get_gdal_mem_datset(), None, exp, g, nodata, which, TYPES[dtype], s3, 'dataset')
    # from a file that was not loaded
    im.write_to_disk('/out/im.tif')
    back = cx.mod(E + 'geotiff_image_factory').GeotiffImageFactory.from_file('/out/im.tif')
    check(cx, back.get_gdal_mem_datset(), None, exp, g, nodata, which, TYPES[dtype], s3, 'dataset of a file')
    check(cx, back.get_dset(), None, exp, g, nodata, which, TYPES[dtype], s3, 'open file')
    back.close_image()
    cx.true(back.get_dset() is None, 'closed')
