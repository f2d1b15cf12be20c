import numpy
from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P31', bounds='cubes of 2x3, 3x2, 1x3 and 3x1 pixels and 2 bands (all wide and tall shapes up to 3x4 in the thorough tier) with arbitrary content, arbitrary masks, every operation with every combination of its optional arguments; cubes and masks stored by row and by column',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'the fractional power of a symmetric matrix is a function of its entries'],
         outside='larger cubes, other numbers of bands, principal components (P44)')
SHAPES = [(2, 3), (3, 2), (1, 3), (3, 1)]
MORE = SHAPES + [(2, 4), (4, 2), (3, 3), (3, 4)]


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    de = fakes.Namespace('sklearn.decomposition', PCA=None, IncrementalPCA=None)
    cx.fake('sklearn.decomposition', de)
    cx.fake('sklearn', fakes.Namespace('sklearn', decomposition=de))
    fakes.use_matrix_power(cx)
    return cx.mod(S1), cx.mod(S2)


def cube(cx, name, shape, nb=2, dtype='float64'):
    d = cx.array(name, shape + (nb,), dtype=dtype)
    ny, nx = shape
    return d, cx.arr([[d[r, c, b] for b in range(nb)] for r in range(ny) for c in range(nx)], dtype)


def flat(cx, m, dtype):
    return cx.arr([m[r, c] for r in range(m.shape[0]) for c in range(m.shape[1])], dtype)


def mask(cx, name, shape, kind):
    """an arbitrary mask, and the same mask as a list of pixels (masked pixels are enumerated)"""
    sel = [[1 if v else 0 for v in r] for r in rows2(bools(cx, name, shape, kind))]
    m = cx.layout(cx.arr(sel, kind), name)
    return m, flat(cx, m, kind)


def image_of(cx, got, want, shape, nb, label):
    """results of the list of pixels at their places"""
    ny, nx = shape
    cx.true(tuple(got.shape) == tuple(shape) + ((nb,) if nb else ()), 'shape of ' + label)
    for r in range(ny):
        for c in range(nx):
            if nb:
                cx.eq([got[r, c, b] for b in range(nb)], [want[r * nx + c, b] for b in range(nb)], label, nan_ok=True)
            else:
                cx.eq(got[r, c], want[r * nx + c], label, nan_ok=True)


@P.case(quick=[(s, 2) for s in SHAPES] + [((2, 3), 3)], thorough=[(s, n) for s in MORE for n in (2, 3)])
def plain_operations(cx):
    """operations without statistics of the scene"""
    shape, nb = cx.p
    m1, m2 = env(cx)
    d, f = cube(cx, 'd', shape, nb)
    t, mu = cx.array('t', nb), cx.array('mu', nb)
    c = cx.array('c', (nb, nb))
    image_of(cx, m2.sam(d, t), m1.sam(f, t), shape, 0, 'spectral angle')
    image_of(cx, m2.rx_anomaly_detector(d, mu, c), m1.rx_anomaly_detector(f, mu, c), shape, 0, 'anomaly score')
    image_of(cx, m2.ace(d, t, mu, c), m1.ace(f, t, mu, c), shape, 0, 'adaptive cosine')
    image_of(cx, m2.ace_demeaned(d, t, c), m1.ace_demeaned(f, t, c), shape, 0, 'demeaned adaptive cosine')
    image_of(cx, m2.ace(d, t, spectral_mean=mu, inverse_covariance=c), m1.ace(f, t, mu, c), shape, 0, 'named statistics')
    image_of(cx, m2.ace(d, t, inverse_covariance=c), m1.ace(f, t, None, c), shape, 0, 'adaptive cosine about the scene mean')
    image_of(cx, m2.rx_anomaly_detector(d, inverse_covariance=c), m1.rx_anomaly_detector(f, None, c), shape, 0, 'anomaly score about the scene mean')
    cx.eq([[[d[r, k, b] for b in range(nb)] for k in range(shape[1])] for r in range(shape[0])], [[[f[r * shape[1] + k, b] for b in range(nb)] for k in range(shape[1])] for r in range(shape[0])], 'cube left alone')


@P.case(quick=SHAPES, thorough=MORE)
def statistics(cx):
    shape = cx.p
    m1, m2 = env(cx)
    d, f = cube(cx, 'd', shape)
    cx.eq(vecof(m2.compute_image_cube_spectral_mean(d)), vecof(m1.compute_image_cube_spectral_mean(f)), 'mean')
    cx.eq(rows2(m2.compute_image_cube_spectral_covariance(d)), rows2(m1.compute_image_cube_spectral_covariance(f)), 'covariance')
    image_of(cx, m2.demean_image_data(d), m1.demean_image_data(f), shape, 2, 'deviations')


@P.case(quick=[((2, 3), 'bool'), ((3, 1), 'int64')], thorough=[((2, 3), 'bool'), ((3, 2), 'int64'), ((2, 3), 'uint8'), ((1, 3), 'bool')], budget=120)
def masked_statistics(cx):
    """each mask value belongs to its own pixel"""
    shape, kind = cx.p
    m1, m2 = env(cx)
    d, f = cube(cx, 'd', shape)
    m, mf = mask(cx, 'm', shape, kind)
    cx.assume(sum(1 for v in mf if not v) >= 2)
    cx.eq(vecof(m2.compute_image_cube_spectral_mean(d, m)), vecof(m1.compute_image_cube_spectral_mean(f, mf)), 'mean')
    cx.eq(rows2(m2.compute_image_cube_spectral_covariance(d, m)), rows2(m1.compute_image_cube_spectral_covariance(f, mf)), 'covariance')
    image_of(cx, m2.demean_image_data(d, m), m1.demean_image_data(f, mf), shape, 2, 'deviations')


@P.case(quick=[(1, 4), (3, 1)], thorough=[(2, 2), (3, 1), (1, 4), (2, 3)], budget=120)
def scene_detectors(cx):
    """missing statistics come from the (masked) cube"""
    shape = cx.p
    m1, m2 = env(cx)
    d, f = cube(cx, 'd', shape)
    m, mf = mask(cx, 'm', shape, 'bool')
    cx.assume(sum(1 for v in mf if not v) >= 3)
    C = cov([[f[i, b] for b in range(2)] for i in range(len(mf)) if not mf[i]])
    cx.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0.01)
    t = cx.array('t', 2)
    image_of(cx, m2.ace(d, t, image_mask=m), m1.ace(f, t, image_mask=mf), shape, 0, 'adaptive cosine')
    if not any(mf):
        image_of(cx, m2.rx_anomaly_detector(d), m1.rx_anomaly_detector(f), shape, 0, 'anomaly score')


@P.case(quick=[((2, 3), 0), ((3, 2), 4), ((3, 3), 7)])
def known_scene(cx):
    """a given cube and mask (by column in memory), any target"""
    (ny, nx), k = cx.p
    m1, m2 = env(cx)
    px = [[float((3 * i * i + 5 * i + k) % 7), float((i * i * i + 2 * i) % 5) + 0.5] for i in range(ny * nx)]
    sel = [i == k % (ny * nx) or i == 1 for i in range(ny * nx)]
    byrow = lambda v: [v[r * nx + c] for r in range(ny) for c in range(nx)]
    bycol = lambda v: cx.arr([[v[r * nx + c] for r in range(ny)] for c in range(nx)])
    f, mf = cx.arr(px), cx.arr(sel, 'bool')
    d = cx.arr([[px[r * nx + c] for r in range(ny)] for c in range(nx)]).transpose((1, 0, 2))
    m = cx.arr([[sel[r * nx + c] for r in range(ny)] for c in range(nx)], 'bool').transpose()
    t = cx.array('t', 2)
    image_of(cx, m2.ace(d, t, image_mask=m), m1.ace(f, t, image_mask=mf), (ny, nx), 0, 'adaptive cosine')
    image_of(cx, m2.rx_anomaly_detector(d, m2.compute_image_cube_spectral_mean(d, m)), m1.rx_anomaly_detector(f, m1.compute_image_cube_spectral_mean(f, mf)), (ny, nx), 0, 'anomaly score')


@P.case(quick=[((2, 2), (1, 3), 0), ((1, 4), (3, 1), 1), ((3, 1), (1, 4), 2), ((1, 3), (3, 1), 3)], thorough=[(a, b, k) for a, b in (((2, 2), (1, 3)), ((3, 1), (2, 2)), ((2, 2), (1, 4))) for k in range(4)], budget=120)
def equalisation(cx):
    """with no mask, either mask, or both"""
    sa, sb, which = cx.p
    m1, m2 = env(cx)
    a, fa = cube(cx, 'a', sa)
    b, fb = cube(cx, 'b', sb)
    ma, mfa = mask(cx, 'ma', sa, 'bool') if which & 1 else (None, None)
    mb, mfb = mask(cx, 'mb', sb, 'bool') if which & 2 else (None, None)
    for f, mf in ((fa, mfa), (fb, mfb)):
        px = [[f[i, k] for k in range(2)] for i in range(f.shape[0]) if mf is None or not mf[i]]
        cx.assume(len(px) >= 3)
        C = cov(px)
        cx.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0.01)
    k2 = {k: v for k, v in (('input_scene_mask', ma), ('scene_to_match_mask', mb)) if v is not None}
    k1 = {k: v for k, v in (('input_scene_mask', mfa), ('scene_to_match_mask', mfb)) if v is not None}
    cx.eq(rows2(m2.compute_cov_eq_linear_transform_matrix(a, b, **k2)), rows2(m1.compute_cov_eq_linear_transform_matrix(fa, fb, **k1)), 'transform', nan_ok=True)
    image_of(cx, m2.covariance_equalization_mean_centered(a, b, **k2), m1.covariance_equalization_mean_centered(fa, fb, **k1), sa, 2, 'equalised scene')
