import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P45', bounds='rasters of 2x3, 3x1 and 1x2 samples with one to two bands of arbitrary content (float64, int16), any height offset between the datums, files and images in memory, named and unnamed destinations, up to three images warped after one another, with and without no-data cells',
         assumptions=['GDAL warping is a stand-in with the documented behaviour: heights of a single band raster change by the offset between source and destination vertical datum, no-data samples stay, the grid goes over into the destination coordinates (here a scale per axis), a virtual raster cannot refer to a dataset in memory, writing to a name replaces what is stored there',
                      'float64 rounding is modelled as exact real arithmetic'],
         outside='resampling and datum grids themselves (native GDAL and PROJ), no-data values given by argument that differ from the one of the file, tile rendering (gdal2tiles)')
D = 'resippy.photogrammetry.dem.'
G = 'resippy.image_objects.earth_overhead.geotiff.'
GT = (3.0, 2.0, 0.0, 5.0, 0.0, -0.5)
WGS = '+proj=longlat +datum=WGS84'


class Ops:
    def __init__(self, *a, **k):
        self.k = k


class SRS(fakes.FakeSRS):
    def SetCompoundCS(self, name, horizontal, vertical):
        self.wkt = 'WKT[%s VERT %s]' % (horizontal.wkt[4:-1], vertical.wkt[4:-1])
        return 0

    def AutoIdentifyEPSG(self):
        raise RuntimeError('OGR Error: Unsupported SRS')

    def GetAuthorityCode(self, k):
        return None


def env(cx, offsets, scale=(4.0, 8.0)):
    gd = fakes.use_gdal(cx)
    cx.fakes['osr'].SpatialReference = SRS
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    gd.log = []

    def plain(s):
        """(horizontal definition, name of the vertical datum)"""
        s = str(s).strip()
        if s.startswith('WKT['):
            s = s[4:-1]
        if ' VERT ' in s:
            h, v = s.split(' VERT ')
            return ' '.join(h.split()), v
        w = s.split()
        v = [x.split('=')[1] for x in w if x.startswith('+geoidgrids=')]
        h = ' '.join(x for x in w if not x.startswith('+geoidgrids='))
        if h.lower().startswith('epsg:') and '+' in h:
            h, v = h.split('+')[0], ['epsg:' + h.split('+')[1]]
        return h.lower() if h.lower().startswith('epsg') else h, (v[0] if v else None)

    def warp(dst, src, options=None, **k):
        k = dict(options.k if options is not None else {}, **k)
        if isinstance(src, str):
            src = gd.files[src]
        s, d = plain(k.get('srcSRS', src.wkt)), plain(k.get('dstSRS', k.get('srcSRS', src.wkt)))
        for u in set(k) - {'srcSRS', 'dstSRS', 'srcNodata', 'dstNodata', 'format'}:
            raise AssertionError('option %s' % u)
        gd.log.append((s, d))
        if dst.endswith('.vrt') and src not in gd.files.values():
            return None
        up = (offsets[s[1]] if s[1] else 0.0) - (offsets[d[1]] if d[1] else 0.0)
        out = []
        for b in range(src.RasterCount):
            a = src.data[b].copy()
            if src.RasterCount == 1 and (s[1] or d[1]):
                nd = src.bands[b].nodata
                for i in range(a.shape[0]):
                    for j in range(a.shape[1]):
                        a[i, j] = a[i, j] + up if nd is None else cx.ite(a[i, j] == nd, a[i, j] + 0.0, a[i, j] + up)
            out.append(a)
        g = src.geot if s[0] == d[0] else tuple(v * scale[i // 3] for i, v in enumerate(src.geot))
        old = gd.files.get(dst)
        new = gd.put(dst, out, src.gdt, g, wkt='WKT[%s]' % d[0], nodata=src.bands[0].nodata)
        if old is not None:
            old.data, old.geot, old.wkt = new.data, new.geot, new.wkt
        return new
    gd.Warp, gd.WarpOptions = warp, Ops
    return gd


def cells(a):
    return [[a[i, j] + 0.0 for j in range(a.shape[1])] for i in range(a.shape[0])]


@P.case(quick=[('geoid', (2, 3), 'nearest', None), ('ellipsoid', (2, 3), 'nearest', -99.0), ('reference', (2, 3), 'nearest', None), ('reference', (3, 1), 'bilinear', None), ('geoid', (1, 2), 'bilinear', -9999.0), ('ellipsoid', (3, 1), 'bilinear', None), ('round', (2, 3), 'nearest', -99.0)])
def heights(cx):
    how, (ny, nx), method, nodata = cx.p
    n = cx.real('n', -120, 120)
    offsets = {'egm.gtx': n, 'epsg:5773': n}
    gd = env(cx, offsets)
    z = cx.array('z', (ny, nx), lo=-20000, hi=20000)
    ref = cells(z)
    if nodata is not None:
        cx.assume(cx.Or(*[v != nodata for r in ref for v in r]))
        cx.assume(cx.And(*[cx.Or(v == nodata, cx.And(v >= -50, v <= 9000)) for r in ref for v in r]))
        cx.assume(n >= 1)
        # no valid height becomes the no-data value by the conversion itself
        cx.assume(cx.And(*[cx.And(v - n != nodata, v + n != nodata) for r in ref for v in r]))
    src = gd.put('/dem.tif', [z], 7, GT, wkt='WKT[%s]' % WGS, nodata=nodata)
    dem = cx.mod(D + 'dem_factory').DemFactory.from_gtiff_file('/dem.tif', interpolation_method=method)
    if how == 'reference':
        dem.convert_reference('/out.tif', 5773)
        shift = -n
    elif how == 'round':
        dem.convert_to_geoid_heights('/mid.tif', 'egm.gtx')
        dem.convert_to_ellipsoid_heights('/out.tif', 'egm.gtx')
        shift = 0.0
    elif how == 'geoid':
        dem.convert_to_geoid_heights('/out.tif', 'egm.gtx')
        shift = -n
    else:
        dem.convert_to_ellipsoid_heights('/out.tif', 'egm.gtx')
        shift = n
    cx.true('/out.tif' in gd.files, 'converted file written')
    cx.true(all(s[0] == d[0] == WGS for s, d in gd.log), 'horizontal datum kept')
    cx.true(dem.get_interpolation_method() == method, 'interpolation method kept')
    cx.eq([v for r in cells(gd.files['/dem.tif'].data[0]) for v in r], [v for r in ref for v in r], 'source file left alone')
    wrong, top, low = [], -1e9, 1e9
    for r in range(ny):
        for c in range(nx):
            d = 0.5 if method == 'nearest' else 0.0
            if method == 'nearest':
                e = dem.get_elevations(GT[0] + 2.0 * (c + d), GT[3] - 0.5 * (r + d))
            else:
                e = dem.dem_data[r, c]
            ok = True if nodata is None else ref[r][c] != nodata
            if nodata is None:
                cx.eq(e, ref[r][c] + shift, 'converted height')
            else:
                cx.eq_if(ok, e, ref[r][c] + shift, 'converted height')
                cx.true(cx.Or(ok, cx.isnan(e)), 'no-data cells stay without a height')
            top = cx.ite(cx.And(ok, ref[r][c] > top), ref[r][c], top)
            low = cx.ite(cx.And(ok, ref[r][c] < low), ref[r][c], low)
    cx.eq([dem.get_highest_alt(), dem.get_lowest_alt()], [top + shift, low + shift], 'range of the converted heights')
    cx.true(dem.gtiff.get_dset() is gd.files['/out.tif'], 'the model serves the converted file')


def image(cx, gd, kind, name, shape, dtype='float64', nodata=None):
    ny, nx, nb = shape
    d = cx.array('d' + name, shape, dtype=dtype)
    ref = [[[d[i, j, b] + 0 for j in range(nx)] for i in range(ny)] for b in range(nb)]
    f = cx.mod(G + 'geotiff_image_factory').GeotiffImageFactory
    if kind == 'file':
        gd.put('/%s.tif' % name, [d[:, :, b].copy() for b in range(nb)], {'float64': 7, 'int16': 3}[dtype], GT, wkt='WKT[%s]' % WGS, nodata=nodata)
        return f.from_file('/%s.tif' % name), ref
    im = f.from_numpy_array(d, list(GT), cx.fakes['pyproj'].Proj(WGS))
    if nodata is not None:
        im.get_metadata().set_nodata_val(nodata)
    return im, ref


def compare(cx, im, ref, dtype, geot, proj, label):
    nb, ny, nx = len(ref), len(ref[0]), len(ref[0][0])
    got = im.read_all_image_data_from_disk()
    cx.true(tuple(got.shape) == (ny, nx, nb), 'shape ' + label)
    cx.true(got.dtype == numpy.dtype(dtype), 'sample type ' + label)
    cx.eq(got, [[[ref[b][i][j] for b in range(nb)] for j in range(nx)] for i in range(ny)], 'samples ' + label)
    cx.eq(list(im.get_point_calculator().get_geot()), list(geot), 'georeference ' + label)
    cx.true(proj in im.get_point_calculator().get_projection().srs.lower(), 'projection ' + label)
    md = im.get_metadata()
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [nx, ny, nb], 'size ' + label)


SC = tuple(v * (4.0, 8.0)[i // 3] for i, v in enumerate(GT))


@P.case(quick=[(('mem', 'file'), (None, None), (2, 3, 1), 'float64'), (('mem', 'mem'), (None, None), (1, 2, 2), 'int16'), (('file', 'mem'), ('/a.tif', None), (3, 1, 2), 'float64'), (('mem', 'file', 'mem'), (None, '/b.tif', None), (2, 1, 1), 'int16'), (('file', 'file'), (None, None), (1, 2, 1), 'int16')])
def warped(cx):
    """each warped image holds the samples of its own source in the coordinates asked for"""
    kinds, names, shape, dtype = cx.p
    gd = env(cx, {})
    m = cx.mod(G + 'geotiff_image').GeotiffImage
    outs = []
    for i, (k, n) in enumerate(zip(kinds, names)):
        im, ref = image(cx, gd, k, 's%d' % i, shape, dtype, nodata=-7.0 if i == 0 else None)
        w = m.gdalwarp_geotiff_image(im, gd.WarpOptions(dstSRS='EPSG:3857'), *([n] if n else []))
        outs.append((w, ref))
        # the source is left as it was
        compare(cx, im if k == 'file' else w, ref, dtype, GT if k == 'file' else SC, WGS.lower() if k == 'file' else 'epsg:3857', 'of the source' if k == 'file' else 'at once')
    for i, (w, ref) in enumerate(outs):
        compare(cx, w, ref, dtype, SC, 'epsg:3857', 'of a warped image')
        nd = w.get_metadata().get_nodata_val()
        cx.true(nd == -7.0 if i == 0 else nd is None, 'no-data value')
        if names[i]:
            cx.true(w.get_dset() is gd.files[names[i]], 'file asked for')


@P.case(quick=[('file', (2, 3, 1)), ('mem', (1, 2, 2)), ('mem', (3, 1, 1))])
def tiles(cx):
    """map tiles are cut from the image in the web map projection"""
    kind, shape = cx.p
    gd = env(cx, {})
    made = []

    def generate(fname, out, **k):
        made.append((gd.files.get(fname), out))
    cx.fake('gdal2tiles', fakes.Namespace('gdal2tiles', generate_tiles=generate))
    im, ref = image(cx, gd, kind, 's', shape)
    im.create_map_tiles('/tiles')
    cx.true(len(made) == 1 and made[0][1] == '/tiles', 'tiles written once')
    ds = made[0][0]
    cx.true(ds is not None and 'epsg:3857' in ds.wkt.lower(), 'web map projection')
    cx.eq(list(ds.geot), list(SC), 'georeference of the tiles')
    for b in range(shape[2]):
        cx.eq(ds.data[b], ref[b], 'samples of the tiles')
