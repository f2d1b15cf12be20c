import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P19', bounds='images of 2 rows, 3 columns and 1 to 3 bands with arbitrary content (float64 and int16), every band index, every raster-backed image type (geotiff, physical camera, stereo, ENVI, multi-file), in memory and from file; content set twice, bands of another type, images of 300 bands',
         assumptions=['GDAL and the image reader hand over the stored samples, sizes, types and no-data values'],
         outside='larger images (numpy slicing treats them the same way), the decoding of files by GDAL')
O = 'resippy.image_objects.'
E = O + 'earth_overhead.'
KINDS = {'geotiff': (E + 'geotiff.geotiff_image', 'GeotiffImage'), 'physical': (E + 'physical_camera.physical_camera_image', 'PhysicalCameraImage'),
         'stereo': (E + 'digital_globe.view_ready_stereo.view_ready_stereo_image', 'ViewReadyStereoImage'), 'envi': (O + 'envi.envi_image', 'EnviImage'),
         'micasense': (E + 'micasense.micasense_image', 'MicasenseImage'), 'igm': (E + 'igm.igm_image', 'IgmImage')}
BASIC = ['geotiff', 'physical', 'stereo', 'envi', 'micasense', 'igm']


def env(cx):
    gd = fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    reader = {}
    cx.fake('imageio', fakes.Namespace('imageio', imread=lambda f, *a, **k: reader[f].copy()))
    cx.fake('exifread', fakes.Namespace('exifread'))
    return gd, reader


def make(cx, kind):
    m, c = KINDS[kind]
    return getattr(cx.mod(m), c)()


def cube(cx, name, nb, dtype='float64', ny=2, nx=3):
    return cx.array(name, (ny, nx, nb), dtype=dtype)


def cells(d):
    ny, nx, nb = d.shape
    return [[[d[r, c, b] for c in range(nx)] for r in range(ny)] for b in range(nb)]


def bandof(b):
    return [[b[r, c] for c in range(b.shape[1])] for r in range(b.shape[0])]


@P.case(quick=[(k, d) for k in BASIC for d in ('float64', 'int16')])
def memory(cx):
    kind, dtype = cx.p
    env(cx)
    im = make(cx, kind)
    d = cx.own(cube(cx, 'd', 3, dtype))     # the image keeps the array it is given
    before = cells(d)
    im.set_image_data(d)
    g = im.get_image_data()
    cx.true(tuple(g.shape) == (2, 3, 3), 'shape')
    cx.eq(cells(g), before, 'image data as set')
    k = cx.choice('band', range(3))
    for b in range(3):
        cx.eq(bandof(im.get_image_band(b)), before[b], 'band in memory')
    new = cx.array('n', (2, 3), dtype=dtype)
    im.set_image_band(new, k)
    after = cells(im.get_image_data())
    for b in range(3):
        cx.eq(after[b], bandof(new) if b == k else before[b], 'bands after one was replaced')
        cx.eq(bandof(im.get_image_band(b)), after[b], 'band after one was replaced')


@P.case(quick=[('geotiff', 'float64', 'int16'), ('geotiff', 'int32', 'uint8'), ('envi', 'float32', 'uint8'), ('igm', 'float64', 'float32')])
def band_of_another_type(cx):
    """replacing a band by one of a shorter type leaves the other bands and the type of the image alone"""
    kind, dtype, other = cx.p
    env(cx)
    im = make(cx, kind)
    d = cx.own(cube(cx, 'd', 3, dtype))
    before = cells(d)
    im.set_image_data(d)
    k = cx.choice('band', range(3))
    new = cx.array('n', (2, 3), dtype=other)
    im.set_image_band(new, k)
    cx.true(im.get_image_data().dtype == numpy.dtype(dtype), 'type of the image')
    after = cells(im.get_image_data())
    for b in range(3):
        cx.eq(after[b], [[v + 0.0 for v in row] for row in bandof(new)] if b == k else before[b], 'bands after one was replaced')


@P.case(quick=[('geotiff', 'int16', 'float64'), ('envi', 'float32', 'float64'), ('physical', 'uint8', 'int16')])
def other_data(cx):
    """content set later replaces the earlier content, values and type, and leaves the earlier array alone"""
    kind, t1, t2 = cx.p
    env(cx)
    im = make(cx, kind)
    d1, d2 = cube(cx, 'd', 3, t1), cube(cx, 'e', 3, t2)
    im.set_image_data(d1)
    im.get_image_band(1)
    im.set_image_data(d2)
    g = im.get_image_data()
    cx.true(tuple(g.shape) == (2, 3, 3) and g.dtype == numpy.dtype(t2), 'shape and type of the second content')
    cx.eq(cells(g), cells(d2), 'second content')
    for b in range(3):
        cx.eq(bandof(im.get_image_band(b)), cells(d2)[b], 'band of the second content')
    other = make(cx, kind)
    cx.true(other.get_image_data() is None, 'another image has no content')


@P.case(quick=['geotiff', 'envi'])
def many_bands(cx):
    """a spectral image of very many bands"""
    env(cx)
    im = make(cx, cx.p)
    d = cx.array('d', (1, 2, 300), dtype='int16')
    im.set_image_data(d)
    cx.eq(cells(im.get_image_data()), cells(d), 'image data as set')
    for b in (0, 127, 128, 255, 256, 299):
        cx.eq(bandof(im.get_image_band(b)), [[d[0, 0, b], d[0, 1, b]]], 'band in memory')


@P.case(quick=BASIC)
def not_loaded(cx):
    env(cx)
    im = make(cx, cx.p)
    cx.true(im.get_image_data() is None, 'no data')
    cx.true(im.get_image_band(cx.choice('band', range(3))) is None, 'no band')


GT = (3.0, 2.0, 0.25, 5.0, 0.125, -0.5)
RPC = dict(SAMP_SCALE='1', SAMP_OFF='7', LINE_SCALE='1', LINE_OFF='11', LAT_SCALE='1', LAT_OFF='0', LONG_SCALE='1', LONG_OFF='0', HEIGHT_SCALE='1', HEIGHT_OFF='0')


def from_file(cx, gd, kind, bands, gdt, nodata):
    meta = dict(RPC)
    for k in ('SAMP_NUM_COEFF', 'SAMP_DEN_COEFF', 'LINE_NUM_COEFF', 'LINE_DEN_COEFF'):
        meta[k] = ' '.join(['1.0'] + ['0.5'] * 19)
    gd.put('/d/im.dat', bands, gdt, GT, wkt='WKT[+proj=native]', nodata=nodata, meta={'RPC': meta})
    if kind == 'geotiff':
        return cx.mod(E + 'geotiff.geotiff_image_factory').GeotiffImageFactory.from_file('/d/im.dat')
    if kind == 'physical':
        return cx.mod(E + 'physical_camera.physical_camera_image_factory').PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc('/d/im.dat', 'the camera')
    if kind == 'stereo':
        return cx.mod(E + 'digital_globe.DigitalGlobeImageFactory').DigitalGlobeImageFactory.view_ready_stereo.from_file('/d/im.dat')
    import io
    ny, nx = bands[0].shape
    text = 'ENVI\nsamples = %d\nlines = %d\nbands = %d\nheader offset = 0\nfile type = ENVI Standard\ndata type = 5\ninterleave = bsq\nbyte order = 0\n' % (nx, ny, len(bands))
    cx.set_open(lambda f, *a, **k: io.StringIO(text))
    return cx.mod(O + 'envi.envi_image_factory').EnviImageFactory.from_file('/d/im.dat', '/d/im.hdr')


@P.case(quick=[(k, nb, t) for k in ('geotiff', 'physical', 'stereo', 'envi') for nb, t in ((1, 7), (3, 7), (2, 3))])
def file(cx):
    kind, nb, gdt = cx.p
    gd, _ = env(cx)
    dtype = fakes.GDT_DTYPE[gdt]
    bands = [cx.array('b%d' % b, (2, 3), dtype=dtype) for b in range(nb)]
    exp = [bandof(b) for b in bands]
    nodata = cx.real('nodata', -9999, 9999)
    im = from_file(cx, gd, kind, bands, gdt, nodata)
    md = im.get_metadata()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [3, 2, nb], 'size')
    if kind != 'envi':
        cx.eq(md.get_nodata_val(), nodata, 'no-data value')
        cx.true(md.get_gdal_datatype() == gdt, 'type')
        cx.true(md.get_image_name() == '/d/im', 'name')
    if kind == 'physical':
        cx.true(im.get_point_calculator() == 'the camera', 'camera')
    if kind == 'geotiff':
        pc = im.get_point_calculator()
        cx.eq(list(pc.get_geot()), list(GT), 'georeference')
        cx.true('+proj=native' in pc.get_projection().srs, 'projection')
        x, y = cx.real('x', -4, 4), cx.real('y', -4, 4)
        cx.eq(list(pc.pixel_x_y_alt_to_lon_lat(x, y, 0)), [3 + 2 * x + 0.25 * y, 5 + 0.125 * x - 0.5 * y], 'position of a pixel')
    if kind == 'stereo':
        # equal polynomials above and below: the offset plus one scale, with pixel corners at whole numbers
        cx.eq(list(im.get_point_calculator().lon_lat_alt_to_pixel_x_y(0.25, 0.5, 0.125)), [8.5, 12.5], 'camera model of the file')
    for b in range(nb):
        cx.eq(bandof(im.read_band_from_disk(b)), exp[b], 'band of the file')
    al = im.read_all_image_data_from_disk()
    cx.true(tuple(al.shape) == (2, 3, nb), 'shape of all bands')
    cx.eq(cells(al), exp, 'all bands of the file')
    cx.true(al.dtype == numpy.dtype(dtype), 'type of the samples')


@P.case(quick=[1, 3])
def memory_or_file(cx):
    """a physical camera image answers a band from memory when it is loaded and from the file otherwise"""
    nb = cx.p
    gd, _ = env(cx)
    bands = [cx.array('b%d' % b, (2, 3)) for b in range(nb)]
    exp = [bandof(b) for b in bands]
    im = from_file(cx, gd, 'physical', bands, 7, None)
    cx.true(im.get_metadata().get_nodata_val() is None, 'no no-data value')
    for b in range(nb):
        cx.eq(bandof(im.read_band_from_disk(b)), exp[b], 'band of the file')
    d = cube(cx, 'd', nb)
    im.set_image_data(d)
    for b in range(nb):
        cx.eq(bandof(im.read_band_from_disk(b)), cells(d)[b], 'loaded band')


@P.case(quick=['float64', 'uint16'])
def multi_file(cx):
    """one file per band"""
    gd, reader = env(cx)
    im = make(cx, 'micasense')
    exp = []
    for b in range(5):
        name = '/d/IMG_000%d_%d.tif' % (9 - b, b)
        reader[name] = cx.array('b%d' % b, (2, 3), dtype=cx.p)
        im.band_fnames.append(name)
        exp.append(bandof(reader[name]))
    for b in range(5):
        cx.eq(bandof(im.read_band_from_disk(b)), exp[b], 'band of its file')
    al = im.read_all_image_data_from_disk()
    cx.true(tuple(al.shape) == (2, 3, 5), 'shape of all bands')
    cx.eq(cells(al), exp, 'bands in file order')
    md = cx.mod(E + 'micasense.micasense_metadata').MicasenseMetadata()
    cx.eq([md.get_n_bands(), md.get_npix_x(), md.get_npix_y()], [5, 1280, 960], 'size')


@P.case(quick=['geotiff', 'physical', 'igm'])
def arrays(cx):
    """images made from arrays"""
    gd, _ = env(cx)
    pj = cx.mod('resippy.photogrammetry.crs_defs').PROJ_4326
    d = cube(cx, 'd', 2, ny=3, nx=2)
    exp = cells(d)
    if cx.p == 'geotiff':
        nodata = cx.real('nodata')
        im = cx.mod(E + 'geotiff.geotiff_image_factory').GeotiffImageFactory.from_numpy_array(d, [0.0, 1.0, 0.0, 0.0, 0.0, -1.0], pj, nodata_val=nodata)
        cx.eq(im.get_metadata().get_nodata_val(), nodata, 'no-data value')
        cx.true(im.get_metadata().get_gdal_datatype() == 7, 'type')
        pc = im.get_point_calculator()
        cx.eq(list(pc.get_geot()), [0.0, 1.0, 0.0, 0.0, 0.0, -1.0], 'georeference')
        cx.true(pc.get_projection() is pj and pc.bands_coregistered(), 'projection')
        cx.eq([pc._npix_x, pc._npix_y], [2, 3], 'size of the point calculator')
        flat = cx.array('e', (3, 2))
        im2 = cx.mod(E + 'geotiff.geotiff_image_factory').GeotiffImageFactory.from_numpy_array(flat, [0.0, 1.0, 0.0, 0.0, 0.0, -1.0], pj)
        cx.eq(cells(im2.get_image_data()), [bandof(flat)], 'a single band')
        cx.eq([im2.get_metadata().get_npix_x(), im2.get_metadata().get_npix_y(), im2.get_metadata().get_n_bands()], [2, 3, 1], 'size of a single band')
    elif cx.p == 'igm':
        lon, lat = cx.array('lon', (3, 2)), cx.array('lat', (3, 2))
        im = cx.mod(E + 'igm.igm_image').IgmImage.from_params(d, lon, lat, cx.real('alt'), 2, pj)
    else:
        md = cx.mod(E + 'physical_camera.physical_camera_metadata').PhysicalCameraMetadata()
        md.set_npix_x(2)
        md.set_npix_y(3)
        md.set_n_bands(2)
        im = cx.mod(E + 'physical_camera.physical_camera_image_factory').PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(d, md, 'the camera')
        cx.true(im.get_point_calculator() == 'the camera' and im.pointcalc == 'the camera' and im.metadata is md, 'camera and metadata')
    md = im.get_metadata()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [2, 3, 2], 'size')
    cx.eq(cells(im.get_image_data()), exp, 'content')


@P.case()
def metadata(cx):
    """each metadata entry is kept on its own"""
    env(cx)
    for m, c in ((E + 'geotiff.geotiff_metadata', 'GeotiffMetadata'), (E + 'physical_camera.physical_camera_metadata', 'PhysicalCameraMetadata'), (O + 'envi.envi_metadata', 'EnviMetadata')):
        a, b = getattr(cx.mod(m), c)(), getattr(cx.mod(m), c)()
        cx.true(a.get_nodata_val() is None, 'no no-data value at first')
        v = [cx.int('i%s%d' % (c, i), 0, 10**6) for i in range(3)] + [cx.real('r%s' % c)]
        a.set_npix_x(v[0]), a.set_npix_y(v[1]), a.set_n_bands(v[2]), a.set_nodata_val(v[3]), a.set_image_name('a')
        b.set_npix_x(1), b.set_npix_y(2), b.set_n_bands(3), b.set_nodata_val(4.0), b.set_image_name('b')
        cx.eq([a.get_npix_x(), a.get_npix_y(), a.get_n_bands(), a.get_nodata_val()], v, 'entries')
        cx.true(a.get_image_name() == 'a', 'name')


@P.case(quick=[('im.dat', 'im.dat.hdr'), ('im.dat', 'im.hdr'), ('image', 'image.hdr'), ('im.dat', 'other.txt')])
def header_of_image(cx):
    """the header beside an ENVI image is found, a header given is taken"""
    name, hdr = cx.p
    gd, _ = env(cx)
    bands = [cx.array('b%d' % b, (2, 3)) for b in range(2)]
    exp = [bandof(b) for b in bands]
    f = cx.mod(O + 'envi.envi_image_factory').EnviImageFactory.from_file
    with Scratch() as d:
        put_text(d + '/' + hdr, 'ENVI\nsamples = 3\nlines = 2\nbands = 2\nheader offset = 0\ndata type = 5\ninterleave = bsq\n')
        if hdr == 'other.txt':
            put_text(d + '/im.hdr', 'ENVI\nsamples = 5\nlines = 5\nbands = 5\nheader offset = 0\ndata type = 5\ninterleave = bsq\n')
        gd.put(d + '/' + name, bands, 7, GT)
        im = f(d + '/' + name, d + '/' + hdr) if hdr == 'other.txt' else f(d + '/' + name)
        md = im.get_metadata()
        cx.true((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (3, 2, 2), 'size of the header')
        cx.eq(cells(im.read_all_image_data_from_disk()), exp, 'content')
