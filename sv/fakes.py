"""Stand-ins for the environment (PROJ, GDAL, ...).  They behave the same in symbolic and in real mode."""
import types

import numpy as np

from . import terms as T
from . import arr as A


class Namespace(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise T.Unsupported('%s.%s' % (self.__name__, n))


# ------------------------------------------------------------------ pyproj

class FakeProj:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k
        self.srs = ' '.join([str(x) for x in a] + ['+%s=%s' % (n, k[n]) for n in sorted(k) if n not in ('preserve_units',)]).strip() + ' '
        self.definition = self.srs

    def __call__(self, *a, **k):
        raise T.Unsupported('PROJ computation')

    def __repr__(self):
        return 'FakeProj(%r)' % self.srs


class FakePyproj(Namespace):
    """projections are invertible affine maps of each axis; scale and offset of each are free inputs of the harness"""

    def __init__(self, cx, alt_shift=False):
        super().__init__('pyproj')
        self.cx = cx
        self.Proj = FakeProj
        self.transform = self._transform
        self.maps = {}
        self.calls = []
        self.alt_shift = alt_shift

    def params(self, a, b):
        """scale/offset taking coordinates of a to coordinates of b (registered once per unordered pair)"""
        key = tuple(sorted((a, b)))
        if key not in self.maps:
            n = 'proj%d' % len(self.maps)
            cx = self.cx
            self.maps[key] = (cx.real(n + '_sx', 0.25, 4, nice=(0.25, 4)), cx.real(n + '_ox', nice=(-4, 4)),
                              cx.real(n + '_sy', 0.25, 4, nice=(0.25, 4)), cx.real(n + '_oy', nice=(-4, 4)),
                              cx.real(n + '_oz', nice=(-4, 4)) if self.alt_shift else 0.0)
        return self.maps[key], key[0] == a

    def apply(self, a, b, x, y, z=None):
        if a == b:
            return (x, y) if z is None else (x, y, z)
        (sx, ox, sy, oy, oz), fwd = self.params(a, b)
        if fwd:
            r = (x * sx + ox, y * sy + oy)
            zz = None if z is None else z + oz
        else:
            r = ((x - ox) / sx, (y - oy) / sy)
            zz = None if z is None else z - oz
        return r if z is None else r + (zz,)

    def _transform(self, src, dst, x, y, z=None, **k):
        def conv(v):
            if isinstance(v, (list, tuple)):
                return A.array(v) if self.cx.sym else np.array(v)
            return v
        self.calls.append((src.srs, dst.srs))
        return self.apply(src.srs, dst.srs, conv(x), conv(y), None if z is None else conv(z))


def use_pyproj(cx, **k):
    p = FakePyproj(cx, **k)
    cx.fake('pyproj', p)
    return p


def real_crs(cx):
    """crs_defs without PROJ"""


# ------------------------------------------------------------------ gdal

def inv_geotransform(g):
    """GDAL: affine inverse; None/raises when singular"""
    det = g[1] * g[5] - g[2] * g[4]
    a1 = g[5] / det
    a2 = -1.0 * g[2] / det
    b1 = -1.0 * g[4] / det
    b2 = g[1] / det
    return (-1.0 * (g[0] * a1 + g[3] * a2), a1, a2, -1.0 * (g[0] * b1 + g[3] * b2), b1, b2)


GDT = dict(GDT_Unknown=0, GDT_Byte=1, GDT_UInt16=2, GDT_Int16=3, GDT_UInt32=4, GDT_Int32=5, GDT_Float32=6, GDT_Float64=7, GDT_CInt16=8,
           GDT_CInt32=9, GDT_CFloat32=10, GDT_CFloat64=11, GDT_Int8=14, GDT_UInt64=12, GDT_Int64=13)
GDT_DTYPE = {1: 'uint8', 2: 'uint16', 3: 'int16', 4: 'uint32', 5: 'int32', 6: 'float32', 7: 'float64', 14: 'int8', 12: 'uint64', 13: 'int64',
             10: 'complex64', 11: 'complex128'}


class FakeSRS:
    def __init__(self, wkt=''):
        self.wkt = wkt

    def ImportFromWkt(self, w):
        self.wkt = w
        return 0

    def ImportFromProj4(self, p):
        self.wkt = 'WKT[%s]' % p.strip()
        return 0

    def ImportFromEPSG(self, n):
        self.wkt = 'WKT[epsg:%d]' % n
        return 0

    def ExportToWkt(self):
        return self.wkt

    def ExportToProj4(self):
        return self.wkt[4:-1] if self.wkt.startswith('WKT[') else '+' + self.wkt


class Band:
    def __init__(self, ds, i):
        self.ds, self.i = ds, i
        self.nodata = None
        self.XSize, self.YSize = ds.RasterXSize, ds.RasterYSize
        self.DataType = ds.gdt

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, *a, **k):
        d = self.ds.data[self.i]
        ny = self.ds.RasterYSize if win_ysize is None else win_ysize
        nx = self.ds.RasterXSize if win_xsize is None else win_xsize
        xoff, yoff, nx, ny = [T.engine().enumerate_int(v.t) if T.is_sym(v) else int(v) for v in (xoff, yoff, nx, ny)]
        if xoff < 0 or yoff < 0 or xoff + nx > self.ds.RasterXSize or yoff + ny > self.ds.RasterYSize:
            raise RuntimeError('Access window out of range in RasterIO()')
        return d[yoff:yoff + ny, xoff:xoff + nx].copy()

    def WriteArray(self, arr, xoff=0, yoff=0, *a):
        if arr is None or len(arr.shape) != 2:
            raise ValueError('expected array of dim 2')
        self.ds.data[self.i][yoff:yoff + arr.shape[0], xoff:xoff + arr.shape[1]] = arr
        return 0

    def SetNoDataValue(self, v):
        if v is None:
            raise TypeError('in method \'Band_SetNoDataValue\', argument 2 of type \'double\'')
        self.nodata = v
        return 0

    def GetNoDataValue(self):
        return self.nodata

    def FlushCache(self):
        self.ds.flushed = True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise T.Unsupported('gdal Band.%s' % n)


class Dataset:
    def __init__(self, gd, fname, nx, ny, nb, gdt, data=None):
        self.gd, self.fname = gd, fname
        self.RasterXSize, self.RasterYSize, self.RasterCount = nx, ny, nb
        self.gdt = gdt
        dt = GDT_DTYPE[gdt]
        if data is None:
            z = A.zeros if gd.cx.sym else np.zeros
            data = [z((ny, nx), dtype=dt) for _ in range(nb)]
        self.data = data
        self.bands = [Band(self, i) for i in range(nb)]
        self.geot = (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        self.wkt = ''
        self.meta = {}
        self.flushed = False

    def GetRasterBand(self, i):
        if not (1 <= i <= self.RasterCount):
            raise RuntimeError('Illegal band #%s' % i)
        return self.bands[i - 1]

    def ReadAsArray(self, *a, **k):
        bs = [b.ReadAsArray(*a, **k) for b in self.bands]
        return bs[0] if len(bs) == 1 else (A.np_call('stack', (bs,), {}) if self.gd.cx.sym else np.stack(bs))

    def GetGeoTransform(self, *a, **k):
        return tuple(self.geot)

    def SetGeoTransform(self, g):
        self.geot = tuple(g)
        return 0

    def GetProjection(self):
        return self.wkt

    GetProjectionRef = GetProjection

    def SetProjection(self, w):
        self.wkt = w
        return 0

    def GetMetadata(self, domain=''):
        return dict(self.meta.get(domain, {}))

    def GetMetadata_Dict(self, domain=''):
        return self.GetMetadata(domain)

    def SetMetadata(self, d, domain=''):
        self.meta[domain] = dict(d)

    def FlushCache(self):
        self.flushed = True

    def BuildOverviews(self, *a, **k):
        return 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise T.Unsupported('gdal Dataset.%s' % n)


class Driver:
    def __init__(self, gd, name):
        self.gd, self.name = gd, name
        self.ShortName = name

    def Create(self, fname, xsize, ysize, bands=1, eType=1, options=(), **k):
        if eType == 0 or eType not in GDT_DTYPE:
            raise RuntimeError('Unsupported data type')
        ds = Dataset(self.gd, fname, xsize, ysize, bands, eType)
        if self.name != 'MEM':
            self.gd.files[fname] = ds
        return ds

    def CreateCopy(self, fname, src, *a, **k):
        ds = Dataset(self.gd, fname, src.RasterXSize, src.RasterYSize, src.RasterCount, src.gdt, [d.copy() for d in src.data])
        ds.geot, ds.wkt, ds.meta = src.geot, src.wkt, dict(src.meta)
        for b, c in zip(ds.bands, src.bands):
            b.nodata = c.nodata
        self.gd.files[fname] = ds
        return ds


class FakeGdal(Namespace):
    """an in-memory raster store: what is written to a band is what is read back"""

    def __init__(self, cx):
        super().__init__('gdal')
        self.cx = cx
        self.files = {}
        self.InvGeoTransform = inv_geotransform
        self.__dict__.update(GDT)
        self.GA_ReadOnly, self.GA_Update = 0, 1
        self.GRA_NearestNeighbour, self.GRA_Bilinear, self.GRA_Cubic = 0, 1, 2
        self.GRIORA_NearestNeighbour = 0

    def GetDataTypeName(self, g):
        return {1: 'Byte', 2: 'UInt16', 3: 'Int16', 4: 'UInt32', 5: 'Int32', 6: 'Float32', 7: 'Float64'}.get(g, 'Unknown')

    def Open(self, fname, *a, **k):
        return self.files.get(fname)

    def GetDriverByName(self, n):
        return Driver(self, n)

    def UseExceptions(self):
        pass

    def DontUseExceptions(self):
        pass

    def put(self, fname, data, gdt, geot, wkt='WKT[+proj=x]', nodata=None, meta=None):
        """data: list of 2-D arrays"""
        ny, nx = data[0].shape
        ds = Dataset(self, fname, nx, ny, len(data), gdt, list(data))
        ds.geot, ds.wkt = tuple(geot), wkt
        for b in ds.bands:
            b.nodata = nodata
        ds.meta = meta or {}
        self.files[fname] = ds
        return ds


def use_gdal(cx):
    g = FakeGdal(cx)
    osr = Namespace('osr', SpatialReference=FakeSRS)
    na = Namespace('gdal_array', GDALTypeCodeToNumericTypeCode=lambda c: np.dtype(GDT_DTYPE[c]).type if c in GDT_DTYPE else None,
                   NumericTypeCodeToGDALTypeCode=lambda d: {np.dtype(v): k for k, v in GDT_DTYPE.items()}.get(np.dtype(d)))
    g.gdal_array = na
    osgeo = Namespace('osgeo', gdal=g, osr=osr, gdal_array=na)
    for n, m in (('gdal', g), ('osr', osr), ('osgeo', osgeo), ('osgeo.gdal', g), ('osgeo.osr', osr), ('gdal_array', na), ('osgeo.gdal_array', na)):
        cx.fake(n, m)
    g.osr = osr
    return g


# ------------------------------------------------------------------ shapely (symbolic mode only)

class Coords:
    def __init__(self, pts):
        self.pts = [tuple(p) for p in pts]

    @property
    def xy(self):
        return [p[0] for p in self.pts], [p[1] for p in self.pts]

    def __iter__(self):
        return iter(self.pts)

    def __len__(self):
        return len(self.pts)

    def __getitem__(self, i):
        return self.pts[i]


class SymPolygon:
    geom_type = 'Polygon'

    def __init__(self, shell, holes=None):
        pts = [tuple(p) for p in shell]
        first, last = pts[0], pts[-1]
        if first is not last and not all(a is b or (not T.is_sym(a) and not T.is_sym(b) and a == b) or (T.is_sym(a) and T.is_sym(b) and a.t.eq(b.t))
                                         for a, b in zip(first, last)):
            pts.append(first)
        self._pts = pts
        self.exterior = types.SimpleNamespace(coords=Coords(pts), xy=Coords(pts).xy)
        self.interiors = []

    @property
    def bounds(self):
        xs, ys = Coords(self._pts).xy
        f = lambda c, v: _fold(c, v)
        return f('min', xs), f('min', ys), f('max', xs), f('max', ys)

    @property
    def envelope(self):
        a, b, c, d = self.bounds
        return sym_box(a, b, c, d)

    @property
    def area(self):
        s = 0
        p = self._pts
        for i in range(len(p) - 1):
            s = s + p[i][0] * p[i + 1][1] - p[i + 1][0] * p[i][1]
        return abs(s) * 0.5

    @property
    def centroid(self):
        raise T.Unsupported('shapely centroid')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise T.Unsupported('shapely Polygon.%s' % n)


class SymPoint:
    geom_type = 'Point'

    def __init__(self, *a):
        if len(a) == 1:
            a = tuple(a[0])
        self.x, self.y = a[0], a[1]
        self.coords = Coords([a])


class SymMultiPoint:
    geom_type = 'MultiPoint'

    def __init__(self, pts):
        self._pts = [tuple(p) for p in pts]

    @property
    def bounds(self):
        xs, ys = Coords(self._pts).xy
        return _fold('min', xs), _fold('min', ys), _fold('max', xs), _fold('max', ys)

    @property
    def envelope(self):
        return sym_box(*self.bounds)

    @property
    def convex_hull(self):
        return SymHull(self._pts)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise T.Unsupported('shapely MultiPoint.%s' % n)


class SymHull(SymMultiPoint):
    """the convex hull of a set of points; only its bounds and its point set are known"""
    geom_type = 'Polygon'

    def simplify(self, tolerance, *a, **k):
        h = SymHull(self._pts)
        h.tolerance = tolerance
        return h


def polygon(cx, pts):
    if cx.sym:
        return SymPolygon(pts)
    from shapely.geometry import Polygon
    return Polygon(pts)


def _fold(which, xs):
    r = xs[0]
    for x in xs[1:]:
        c = x > r if which == 'max' else x < r
        if T.is_sym(c):
            d = T.engine().decided(c.t)
            c = c if d is None else d
        r = T.ite(c, x, r) if T.is_sym(c) else (x if c else r)
    return r


def sym_box(minx, miny, maxx, maxy, ccw=True):
    pts = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return SymPolygon(pts if ccw else pts[::-1])


def use_shapely(cx):
    """real mode keeps the real shapely"""
    if not cx.sym:
        return
    geo = Namespace('shapely.geometry.geo', box=sym_box, Polygon=SymPolygon)
    base = Namespace('shapely.geometry.base', BaseGeometry=object)
    geom = Namespace('shapely.geometry', Polygon=SymPolygon, Point=SymPoint, MultiPoint=SymMultiPoint, box=sym_box, base=base, geo=geo)

    def transform(f, g):
        if isinstance(g, SymMultiPoint):
            # only known to be the hull of the images of the points for maps that keep straight lines (as the stand-in projections do)
            xs, ys = Coords(g._pts).xy
            r = f(xs, ys)
            return type(g)(list(zip(r[0], r[1])))
        xs, ys = g.exterior.coords.xy
        r = f(xs, ys)
        return SymPolygon(list(zip(r[0], r[1])))
    ops = Namespace('shapely.ops', transform=transform, unary_union=lambda gs: SymMultiPoint([p for g in gs for p in g._pts]))
    sh = Namespace('shapely', geometry=geom, ops=ops)
    for n, m in (('shapely', sh), ('shapely.geometry', geom), ('shapely.geometry.geo', geo), ('shapely.geometry.base', base), ('shapely.ops', ops)):
        cx.fake(n, m)


# ------------------------------------------------------------------ utm

def fake_utm(asked, zone, letter):
    def from_latlon(latitude, longitude, *a, **k):
        asked.append((latitude, longitude))
        return 0.0, 0.0, zone, letter

    def num(latitude, longitude):
        asked.append((latitude, longitude))
        return zone
    return Namespace('utm', from_latlon=from_latlon, latlon_to_zone_number=num, latitude_to_zone_letter=lambda la: letter)


# ------------------------------------------------------------------ scipy.spatial

def use_kdtree(cx, perms):
    """symbolic mode: the nearest neighbours of query point i are, in order, perms[i] (assumed; each harness run covers one ordering)"""
    if not cx.sym:
        return

    class Tree:
        def __init__(self, data, *a, **k):
            self.data = data

        def query(self, x, k=1, **kw):
            if kw:
                raise T.Unsupported('cKDTree.query options')
            x = A.array(x)
            pts = x.reshape((-1, x.shape[-1]))
            n = self.data.shape[0]
            D, I = [], []
            for i in range(pts.shape[0]):
                d = [cx.sqrt(sum((pts[i, c] - self.data[j, c]) * (pts[i, c] - self.data[j, c]) for c in range(pts.shape[1]))) for j in range(n)]
                p = list(perms[i % len(perms)])
                for a, b in zip(p[:k - 1], p[1:k]):
                    cx.assume(d[a] <= d[b])
                for b in set(range(n)) - set(p[:k]):
                    cx.assume(d[p[k - 1]] <= d[b])
                D.append([d[j] for j in p[:k]])
                I.append(p[:k])
            lead = x.shape[:-1]
            if k == 1:
                D, I = [r[0] for r in D], [r[0] for r in I]
                return A.array(D).reshape(lead) if lead else D[0], np.array(I).reshape(lead) if lead else I[0]
            return A.array(D).reshape(lead + (k,)), np.array(I).reshape(lead + (k,))
    m = Namespace('scipy.spatial', cKDTree=Tree, KDTree=Tree)
    m.ckdtree = m
    m.kdtree = m
    for n in ('scipy.spatial', 'scipy.spatial.ckdtree', 'scipy.spatial.kdtree'):
        cx.fake(n, m)


# ------------------------------------------------------------------ interpolation (symbolic mode only)

def use_ndimage(cx):
    """scipy.ndimage.map_coordinates and skimage.transform.warp for orders 0 and 1 and mode 'constant', as documented:
    nearest or linear interpolation between the samples at whole coordinates, cval outside [0, n - 1]"""
    if not cx.sym:
        return

    def sample(img, coords, order, cval, dt):
        n = img.shape
        out = T.lor(*[T.lor(c < 0, c > n[i] - 1) for i, c in enumerate(coords)])
        lim = [T.ite(c < 0, 0, T.ite(c > n[i] - 1, n[i] - 1, c)) for i, c in enumerate(coords)]
        rows = [[img[r, c] for c in range(n[1])] for r in range(n[0])]

        def at(r, c):
            return cx.sel([cx.sel(row, c) for row in rows], r)
        if order == 0:
            v = at(*[cx.floor(c + 0.5) for c in lim])
        else:
            lo = [cx.floor(c) for c in lim]
            hi = [cx.min(a + 1, n[i] - 1) for i, a in enumerate(lo)]
            fr = [c - a for c, a in zip(lim, lo)]
            v = (at(lo[0], lo[1]) * (1 - fr[0]) * (1 - fr[1]) + at(hi[0], lo[1]) * fr[0] * (1 - fr[1])
                 + at(lo[0], hi[1]) * (1 - fr[0]) * fr[1] + at(hi[0], hi[1]) * fr[0] * fr[1])
        v = T.ite(out, cval, v)
        if dt.kind in 'iu':
            if order or isinstance(cval, float):
                v = T.ite(v >= 0, cx.floor(v + 0.5), -cx.floor(-v + 0.5))
            ii = np.iinfo(dt)
            v = T.ite(v > int(ii.max), int(ii.max), T.ite(v < int(ii.min), int(ii.min), v))
        return v

    def spline(img, cs, order, mode, cval, prefilter):
        """known positions: the shares of the samples come from the real library, which is linear in samples and cval"""
        import scipy.ndimage
        ny, nx = img.shape
        if ny * nx > 400:
            raise T.Unsupported('map_coordinates of a large image')
        shape = cs.shape[1:]
        at = np.array([[float(v) for v in cs[i].reshape(-1)] for i in range(2)])
        f = lambda im, c: scipy.ndimage.map_coordinates(im, at, order=order, mode=mode, cval=c, prefilter=prefilter)
        zero = f(np.zeros((ny, nx)), 1.0)
        unit = {}
        for r in range(ny):
            for c in range(nx):
                u = np.zeros((ny, nx))
                u[r, c] = 1.0
                unit[(r, c)] = f(u, 0.0)
        dt = np.dtype(img.dtype)
        out = []
        for k in range(at.shape[1]):
            v = cval * float(zero[k]) if zero[k] else 0.0
            for (r, c), w in unit.items():
                if abs(w[k]) > 1e-12:
                    v = v + img[r, c] * float(np.round(w[k], 12))
            if dt.kind in 'iu':
                v = T.ite(v >= 0, cx.floor(v + 0.5), -cx.floor(-v + 0.5))
                ii = np.iinfo(dt)
                v = T.ite(v > int(ii.max), int(ii.max), T.ite(v < int(ii.min), int(ii.min), v))
            out.append(v)
        return A.fromcells(out, (at.shape[1],), dt).reshape(shape)

    def map_coordinates(input, coordinates, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
        cs = A.array(coordinates)
        if output is None and len(input.shape) == 2 and (order > 1 or mode != 'constant') and not any(T.is_sym(v) for v in list(cs.reshape(-1))):
            return spline(input, cs, order, mode, cval, prefilter)
        if order not in (0, 1) or mode != 'constant' or output is not None or len(input.shape) != 2:
            raise T.Unsupported('map_coordinates options')
        if cs.shape[0] != 2:
            raise RuntimeError('invalid shape for coordinate array')
        shape = cs.shape[1:]
        flat = cs.reshape((2, -1))
        dt = np.dtype(input.dtype)
        return A.fromcells([sample(input, [flat[0, i], flat[1, i]], order, cval, dt) for i in range(flat.shape[1])], (flat.shape[1],), dt).reshape(shape)

    def warp(image, inverse_map, map_args=None, output_shape=None, order=None, mode='constant', cval=0.0, clip=True, preserve_range=False):
        if mode != 'constant' or not preserve_range or order is None or output_shape is not None or map_args:
            raise T.Unsupported('warp options')
        return map_coordinates(image.astype(float), inverse_map, order=order, cval=cval)
    cx.fake('scipy.ndimage', Namespace('scipy.ndimage', map_coordinates=map_coordinates))
    tr = Namespace('skimage.transform', warp=warp)
    cx.fake('skimage.transform', tr)
    cx.fake('skimage', Namespace('skimage', transform=tr))


def use_plots(cx):
    """plotting is not part of any property"""
    for n in ('matplotlib', 'matplotlib.pyplot', 'seaborn', 'seaborn.palettes'):
        cx.fake(n, Namespace(n, pyplot=None, palettes=None, _ColorPalette=list))


def use_matrix_power(cx):
    """scipy.linalg powers +-1/2 and +-1 of symmetric positive definite matrices of one or two rows, in closed form"""
    def half(m):
        if len(m) == 1:
            return [[cx.sqrt(m[0][0])]]
        (a, b), (c, d) = m
        s = cx.sqrt(a * d - b * c)
        t = cx.sqrt(a + d + 2 * s)
        return [[(a + s) / t, b / t], [c / t, (d + s) / t]]

    def inverse(m):
        if len(m) == 1:
            return [[1 / m[0][0]]]
        (a, b), (c, d) = m
        det = a * d - b * c
        return [[d / det, -b / det], [-c / det, a / det]]

    def power(a, t):
        n = a.shape[0]
        if n > 2:
            raise T.Unsupported('matrix power of more than two rows')
        m = [[a[i, j] for j in range(n)] for i in range(n)]
        if t in (0.5, -0.5):
            m = half(m)
        elif t not in (1, -1):
            raise T.Unsupported('matrix power %r' % (t,))
        return cx.arr(inverse(m) if t < 0 else m)
    la = Namespace('scipy.linalg', fractional_matrix_power=power, sqrtm=lambda a, *x, **k: power(a, 0.5), inv=lambda a, *x, **k: power(a, -1))
    cx.fake('scipy.linalg', la)
    cx.fake('scipy', Namespace('scipy', linalg=la))


# ------------------------------------------------------------ folders and file names
class Folder:
    """one folder whose entries may have arbitrary names; what os, os.path, glob and fnmatch document about it"""

    def __init__(self, root, entries):
        self.root, self.entries = root, list(entries)       # (name, 'f' or 'd')

    def entry(self, path):
        """(name, kind) of the entry at path, ('', 'd') for the folder itself, None if there is nothing there"""
        d, n = split(path)
        if isinstance(path, str) and path.rstrip('/') == self.root:
            return ('', 'd')
        if isinstance(d, str) and d.rstrip('/') == self.root:
            for e, k in self.entries:
                if e == n:
                    return (e, k)
        return None

    def names(self, path='.'):
        if not isinstance(path, str) or path.rstrip('/') != self.root:
            raise FileNotFoundError(path)
        return [e for e, k in self.entries]


def split(p):
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if isinstance(head, str) and head.rstrip('/'):
        head = head.rstrip('/')
    return head, tail


def join(a, *rest):
    for b in rest:
        if b.startswith('/'):
            a = b
        elif not len(a) or a.endswith('/'):
            a = a + b
        else:
            a = a + '/' + b
    return a


def splitext(p):
    from .text import make
    i = p.rfind('.')
    if i <= p.rfind('/') + 1 or all(c == '.' for c in p[p.rfind('/') + 1:i]):
        return p, ''
    return p[:i], p[i:]


def matches(name, pat):
    """fnmatch.fnmatchcase for names and patterns with arbitrary characters (forks)"""
    import fnmatch
    if isinstance(name, str) and isinstance(pat, str):
        return fnmatch.fnmatchcase(name, pat)
    if not len(pat):
        return not len(name)
    c = pat[0]
    if c == '*':
        return any(matches(name[i:], pat[1:]) for i in range(len(name) + 1))
    if not len(name):
        return False
    if c == '?':
        return matches(name[1:], pat[1:])
    if c == '[':
        j = pat.find(']', 2)
        if j > 0:
            cls = pat[1:j]
            if isinstance(cls, str) and '-' not in cls and cls[0] != '!':
                return any(bool(name[0] == k) for k in cls) and matches(name[1:], pat[j + 1:])
            raise Unsupported('character class in a file pattern')
    return bool(c == name[0]) and matches(name[1:], pat[1:])


def use_folder(cx, root, entries):
    """os, glob and fnmatch see one folder (symbolic mode only; replays use a real one)"""
    import os
    import glob
    import fnmatch
    fo = Folder(root, entries)
    pm = types.ModuleType('os.path')
    for k in dir(os.path):
        if not k.startswith('__'):
            setattr(pm, k, getattr(os.path, k))
    pm.join, pm.split, pm.splitext = join, split, splitext
    pm.basename, pm.dirname = (lambda p: split(p)[1]), (lambda p: split(p)[0])
    pm.abspath = pm.normpath = pm.realpath = lambda p: p.rstrip('/') if isinstance(p, str) else p
    pm.exists = pm.lexists = lambda p: fo.entry(p) is not None
    pm.isfile = lambda p: (fo.entry(p) or ('', ''))[1] == 'f'
    pm.isdir = lambda p: (fo.entry(p) or ('', ''))[1] == 'd'
    pm.islink = lambda p: False
    om = types.ModuleType('os')
    for k in dir(os):
        if not k.startswith('__'):
            setattr(om, k, getattr(os, k))
    om.path = pm
    om.fspath = lambda p: p
    om.listdir = fo.names

    class Entry:
        def __init__(self, d, name, kind):
            self.name, self.path, self.kind = name, join(d, name), kind

        def is_file(self, follow_symlinks=True):
            return self.kind == 'f'

        def is_dir(self, follow_symlinks=True):
            return self.kind == 'd'

    class Entries(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        close = lambda self: None

    def scandir(path='.'):
        fo.names(path)
        return Entries(Entry(path, e, k) for e, k in fo.entries)

    def walk(top, *a, **k):
        fo.names(top)
        yield top, [e for e, k in fo.entries if k == 'd'], [e for e, k in fo.entries if k == 'f']
        for e, k in fo.entries:
            if k == 'd':
                yield join(top, e), [], []
    om.scandir, om.walk = scandir, walk
    gm = types.ModuleType('glob')

    def find(pattern, root_dir=None, recursive=False, include_hidden=False, **k):
        given = pattern
        if root_dir is not None:
            pattern = join(root_dir if not glob.has_magic(root_dir) else glob.escape(root_dir), pattern)
        d, n = pattern[:pattern.rfind('/')], pattern[pattern.rfind('/') + 1:]
        if not isinstance(d, str):
            raise Unsupported('folder pattern with arbitrary characters')
        d = d.rstrip('/')
        plain = d
        if glob.has_magic(d):
            # the only folders there are lie on the way to the root
            a, b = d.split('/'), root.split('/')
            if len(a) != len(b) or not all(fnmatch.fnmatchcase(y, x) and (not y.startswith('.') or x.startswith('.')) for x, y in zip(a, b)):
                return []
            plain = root
        if plain != root:
            return []
        head = pattern[:pattern.rfind('/') + 1]
        head = head if not glob.has_magic(head) else root + '/'
        out = []
        for e, kind in fo.entries:
            hid = bool(e[0] == '.')
            if hid and not (include_hidden or (len(n) and n[0] == '.')):
                continue
            if matches(e, n):
                out.append(head + e if root_dir is None else e)
        return out

    def escape(p):
        r = ''
        for c in p:
            r = r + ('[' + c + ']' if any(bool(c == k) for k in '*?[') else c)
        return r
    gm.glob, gm.escape, gm.has_magic = find, escape, lambda p: any(bool(c == k) for c in p for k in '*?[')
    gm.iglob = lambda *a, **k: iter(find(*a, **k))
    fm = types.ModuleType('fnmatch')
    fm.fnmatch = fm.fnmatchcase = matches
    fm.filter = lambda names, pat: [n for n in names if matches(n, pat)]
    fm.translate = fnmatch.translate
    for name, m in (('os', om), ('os.path', pm), ('glob', gm), ('fnmatch', fm)):
        cx.fake(name, m)
    return fo


# ------------------------------------------------------------ Pillow
def shrunk(a, h, w):
    """nearest cells, rows and columns each by their own factor"""
    H, W = np.shape(a)[0], np.shape(a)[1]
    return [[(i * H // h, j * W // w) for j in range(w)] for i in range(h)]


def use_pillow(cx):
    """images that resize to their nearest cells (a model of resizing; sizes are given as width, height)"""
    class Image:
        __sv_array__ = True

        def __init__(self, a):
            if np.ndim(a) not in (2, 3) or (np.ndim(a) == 3 and np.shape(a)[2] not in (2, 3, 4)):
                raise TypeError('Cannot handle this data type')
            self.a = a.copy()
            self.size = (np.shape(a)[1], np.shape(a)[0])

        def resize(self, size, resample=None, box=None, reducing_gap=None):
            w, h = size
            idx = shrunk(self.a, h, w)
            return Image(cx.arr([[self.a[i, j] if np.ndim(self.a) == 2 else [self.a[i, j, k] for k in range(np.shape(self.a)[2])] for i, j in r] for r in idx], str(self.a.dtype)))

        def __array__(self, dtype=None, copy=None):
            return self.a.copy()
    im = Namespace('PIL.Image', fromarray=lambda a, mode=None: Image(a), Image=Image, NEAREST=0, BILINEAR=2, BICUBIC=3, LANCZOS=1)
    cx.fake('PIL.Image', im)
    cx.fake('PIL', Namespace('PIL', Image=im))
