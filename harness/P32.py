from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P32', bounds='scenes of 4 pixels in 2 bands of every positive definite covariance and mean (spanned by two arbitrary pixels and their opposites about the mean), up to two more arbitrary masked pixels at arbitrary places in either scene, flat lists and cubes of 2x2, 1x4 and 4x1',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'scipy.linalg.fractional_matrix_power returns the principal power of a symmetric positive definite matrix (closed form for two bands)'],
         outside='other numbers of bands, singular covariance, larger scenes')


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    de = fakes.Namespace('sklearn.decomposition', PCA=None, IncrementalPCA=None)
    cx.fake('sklearn.decomposition', de)
    cx.fake('sklearn', fakes.Namespace('sklearn', decomposition=de))
    fakes.use_matrix_power(cx)


def mul(a, b):
    return [[sum0([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def pairs(cx, name, shift=False):
    """four pixels of any positive definite covariance and mean: +-p, +-q, with q along the second band"""
    a, b, c = (cx.real(name + k, lo, 8) for k, lo in (('a', 0.25), ('b', -8), ('c', 0.25)))
    px = [[a, b], [0.0 * a, c], [-a, -b], [0.0 * a, -c]]
    if shift:
        m = [cx.real(name + k, -20, 20) for k in ('x', 'y')]
        px = [[p[0] + m[0], p[1] + m[1]] for p in px]
    return px


def with_masked(cx, name, px, n):
    """n more arbitrary pixels at arbitrary places, masked out"""
    at = [cx.choice('%sat%d' % (name, k), range(len(px) + 1)) for k in range(n)]
    extra = [[cx.real('%se%d%d' % (name, k, b), -50, 50) for b in range(2)] for k in range(n)]
    out, mk = [], []
    for i in range(len(px) + 1):
        for k in range(n):
            if at[k] == i:
                out.append(extra[k])
                mk.append(1)
        if i < len(px):
            out.append(px[i])
            mk.append(0)
    return out, mk


def apply(L, px):
    return [[sum0([L[i][j] * p[j] for j in range(2)]) for i in range(2)] for p in px]


@P.case(quick=[0, 1], thorough=[0, 1], budget=100)
def transform(cx):
    """L C1 L^T = C2 whatever the means, and L is positive definite times positive definite (determinant > 0)"""
    env(cx)
    m = cx.mod(S1)
    pa, pb = pairs(cx, 'p', cx.p), pairs(cx, 'q', cx.p)
    a, b = cx.arr(pa), cx.arr(pb)
    ca, cb = cov(pa), cov(pb)
    La = m.compute_cov_eq_linear_transform_matrix(a, b)
    cx.true(tuple(La.shape) == (2, 2), 'shape')
    L = rows2(La)
    cx.eq(mul(mul(L, ca), tr(L)), cb, 'transformed covariance')
    out = rows2(m.covariance_equalization_mean_centered(a, b))
    cx.eq(out, apply(L, pa), 'each pixel transformed')
    cx.eq(rows2(a), pa, 'scene left alone')
    cx.eq(rows2(b), pb, 'scene to match left alone')


@P.case(quick=[0, 1], thorough=[0, 1], budget=100)
def itself(cx):
    """equalising to itself changes nothing"""
    env(cx)
    m = cx.mod(S1)
    pa = pairs(cx, 'p', cx.p)
    a = cx.arr(pa)
    cx.eq(rows2(m.compute_cov_eq_linear_transform_matrix(a, cx.arr(pa))), [[1.0, 0.0], [0.0, 1.0]], 'identity')
    cx.eq(rows2(m.covariance_equalization_mean_centered(a, a)), pa, 'scene unchanged')


@P.case(quick=[(1, 0), (0, 1), (1, 1), (1, 0, 'empty'), (0, 1, 'empty')], thorough=[(2, 0), (0, 2), (1, 2), (0, 0, 'empty')], budget=120)
def masked(cx):
    """pixels masked out of either scene do not contribute, and are transformed like the others"""
    na, nb = cx.p[:2]
    empty = len(cx.p) > 2      # masks that mask nothing are given as well
    env(cx)
    m = cx.mod(S1)
    pa, pb = pairs(cx, 'p'), pairs(cx, 'q')
    xa, ma = with_masked(cx, 'p', pa, na)
    xb, mb = with_masked(cx, 'q', pb, nb)
    ka = cx.arr(ma, 'bool') if na or empty else None
    kb = cx.arr(mb, 'bool') if nb or empty else None
    L = rows2(m.compute_cov_eq_linear_transform_matrix(cx.arr(xa), cx.arr(xb), ka, kb))
    cx.eq(mul(mul(L, cov(pa)), tr(L)), cov(pb), 'transformed covariance')
    cx.eq(rows2(m.covariance_equalization_mean_centered(cx.arr(xa), cx.arr(xb), ka, kb)), apply(L, xa), 'each pixel transformed')


@P.case(quick=[((2, 2), (4, 1)), ((1, 4), (2, 2))], thorough=[((2, 2), (2, 2)), ((4, 1), (1, 4))], budget=120)
def cubes(cx):
    sa, sb = cx.p
    env(cx)
    m = cx.mod(S2)
    pa, pb = pairs(cx, 'p', True), pairs(cx, 'q')

    def cube(px, s):
        return cx.arr([[px[r * s[1] + c] for c in range(s[1])] for r in range(s[0])])
    a, b = cube(pa, sa), cube(pb, sb)
    L = rows2(m.compute_cov_eq_linear_transform_matrix(a, b))
    cx.eq(mul(mul(L, cov(pa)), tr(L)), cov(pb), 'transformed covariance')
    out = m.covariance_equalization_mean_centered(a, b)
    cx.true(tuple(out.shape) == sa + (2,), 'shape')
    cx.eq([[out[r, c, k] for k in range(2)] for r in range(sa[0]) for c in range(sa[1])], apply(L, pa), 'each pixel transformed')
