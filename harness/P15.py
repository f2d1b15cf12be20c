import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P15', bounds='grids of 1..4 columns by 1..4 rows (and of 17x9, 3x40 and 33x2) over every rectangle (every size up to 7x7 when thorough); geotransform and pixel count for every size and ground sample distance, with symbolic sizes up to 10000',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the polygons are rectangles or triangles; shapely supplies their bounds'],
         outside='larger grids (the code treats them through the same numpy expressions), rounding when the extent is within rounding of a whole number of samples')
M = 'resippy.utils.photogrammetry_utils'
SIZES = [(a, b) for a in range(1, 5) for b in range(1, 5)] + [(17, 9), (3, 40), (33, 2)]


def rect(cx):
    x0, y0 = cx.real('minx', -1e7, 1e7, nice=(-64, 64)), cx.real('miny', -1e7, 1e7, nice=(-64, 64))
    w, h = cx.real('w', 0.001, 1e6, nice=(0.5, 64)), cx.real('h', 0.001, 1e6, nice=(0.5, 64))
    return x0, y0, x0 + w, y0 + h, w, h


def poly(cx, x0, y0, x1, y1, form):
    fakes.use_shapely(cx)
    if form == 'triangle':
        pts = [(x0, y0), (x1, (y0 + y1) / 2), (x0 * 0.5 + x1 * 0.5, y1), (x0, y0)]
    else:
        pts = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
        k = {'from the east': 2, 'from the north': 1}.get(form, 0)
        pts = pts[k:] + pts[:k]
        if form == 'from the north':
            pts = pts[::-1]
        pts = pts + pts[:1]
    return fakes.polygon(cx, pts)


@P.case(quick=SIZES, thorough=[(a, b) for a in range(1, 8) for b in range(1, 8)] + SIZES[-3:])
def centres(cx):
    nx, ny = cx.p
    fakes.use_pyproj(cx)
    x0, y0, x1, y1, w, h = rect(cx)
    pol = poly(cx, x0, y0, x1, y1, 'rectangle')
    m = cx.mod(M)
    gx, gy = m.create_ground_grid(x0, x1, y0, y1, nx, ny)
    cx.true(tuple(gx.shape) == (ny, nx) and tuple(gy.shape) == (ny, nx), 'one centre per cell')
    cx.eq(gx.reshape(-1), [x0 + w * (2 * c + 1) / (2.0 * nx) for r in range(ny) for c in range(nx)], 'columns from the west')
    cx.eq(gy.reshape(-1), [y1 - h * (2 * r + 1) / (2.0 * ny) for r in range(ny) for c in range(nx)], 'rows from the north')
    g = m.world_poly_to_geo_t(pol, nx, ny)
    cx.eq([g[0] + g[1] * (c + 0.5) + g[2] * (r + 0.5) for r in range(ny) for c in range(nx)], gx.reshape(-1), 'geotransform agrees with the grid in x')
    cx.eq([g[3] + g[4] * (c + 0.5) + g[5] * (r + 0.5) for r in range(ny) for c in range(nx)], gy.reshape(-1), 'geotransform agrees with the grid in y')


@P.case(quick=['rectangle', 'triangle', 'from the east', 'from the north'])
def corners(cx):
    fakes.use_pyproj(cx)
    x0, y0, x1, y1, w, h = rect(cx)
    nx, ny = cx.int('nx', 1, 10000, nice=(1, 40)), cx.int('ny', 1, 10000, nice=(1, 40))
    g = cx.mod(M).world_poly_to_geo_t(poly(cx, x0, y0, x1, y1, cx.p), nx, ny)
    cx.true(len(g) == 6, 'six numbers')
    at = lambda c, r: (g[0] + g[1] * c + g[2] * r, g[3] + g[4] * c + g[5] * r)
    cx.eq(at(0, 0), [x0, y1], 'upper left corner')
    cx.eq(at(nx, 0), [x1, y1], 'upper right corner')
    cx.eq(at(0, ny), [x0, y0], 'lower left corner')
    cx.eq(at(nx, ny), [x1, y0], 'lower right corner')


@P.case(quick=['rectangle', 'triangle', 'from the east', 'from the north'])
def count(cx):
    fakes.use_pyproj(cx)
    x0, y0, x1, y1, w, h = rect(cx)
    gx, gy = cx.real('gsd_x', 0.001, 1e6, nice=(0.25, 64)), cx.real('gsd_y', 0.001, 1e6, nice=(0.25, 64))
    # clear of whole numbers of samples, where rounding decides
    k, l = cx.int('k', 0, 10**6, nice=(0, 40)), cx.int('l', 0, 10**6, nice=(0, 40))
    cx.assume(cx.And(w > (k + 0.001) * gx, w < (k + 0.999) * gx, h > (l + 0.001) * gy, h < (l + 0.999) * gy))
    nx, ny = cx.mod(M).get_nx_ny_pixels_in_extent(poly(cx, x0, y0, x1, y1, cx.p), gx, gy)
    cx.eq([nx, ny], [k, l], 'whole samples that fit')


@P.case()
def bounds(cx):
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    x0, y0, x1, y1, w, h = rect(cx)
    p = cx.mod('resippy.utils.geom_utils').bounds_2_shapely_polygon(x0, x1, y1, y0)
    cx.eq(list(p.bounds), [x0, y0, x1, y1], 'rectangle of the given bounds')
