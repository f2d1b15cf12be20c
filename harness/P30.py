import numpy
from sv.prop import Prop
from .spectral import *

P = Prop('P30', bounds='scenes of 1 to 4 pixels and 2 or 3 bands (statistics supplied; an arbitrary symmetric inverse covariance) and of 3 to 5 pixels and 2 bands (statistics computed; up to three arbitrary pixels beside fixed ones; every mask that leaves enough pixels), arbitrary content (float64, uint8, int16), any target',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'numpy.linalg.inv returns the inverse of a well-conditioned matrix'],
         outside='scenes with singular covariance (determinant below 0.01), one band, pixels or targets equal to the mean for the cosine score, larger scenes')


def stats(cx, nb, spd=False):
    mu = cx.array('mu', nb, lo=-100, hi=100)
    c = [[None] * nb for _ in range(nb)]
    for i in range(nb):
        for j in range(i, nb):
            c[i][j] = c[j][i] = cx.real('c%d%d' % (i, j), -10, 10)
    return mu, vecof(mu), cx.arr(c), c


def scene(cx, n, nb, dtype, lim=100):
    hi = min(lim, 127)
    lo = 0 if dtype.startswith('u') else -hi
    d = cx.array('d', (n, nb), dtype=dtype, lo=lo, hi=hi)
    t = cx.array('t', nb, dtype=dtype, lo=lo, hi=hi)
    return d, [[v + 0.0 for v in r] for r in rows2(d)], t, [v + 0.0 for v in vecof(t)]


def dev(p, mu):
    return [a - b for a, b in zip(p, mu)]


def proper(cx, devs, dt, c):
    """the cosine is defined for every pixel"""
    tt = quad(dt, c, dt)
    for x in devs:
        xx = quad(x, c, x)
        cx.assume(cx.Or(tt * xx > 0.01, tt * xx < -0.01))


def check_ace(cx, got, devs, dt, c, label):
    tt = quad(dt, c, dt)
    for g, x in zip(got, devs):
        tx = quad(dt, c, x)
        cx.eq(g, tx * tx / (tt * quad(x, c, x)), label)


@P.case(quick=[(3, 2, 'float64'), (2, 3, 'float64'), (2, 2, 'uint8'), (2, 2, 'int16')], thorough=[(4, 2, 'float64'), (3, 3, 'float64'), (2, 4, 'float64'), (3, 2, 'uint16'), (3, 2, 'int32')], budget=100)
def anomaly_given(cx):
    n, nb, dtype = cx.p
    d, px, t, tv = scene(cx, n, nb, dtype)
    mu, muv, c, cv = stats(cx, nb)
    r = cx.mod(S1).rx_anomaly_detector(d, mu, c)
    cx.true(tuple(r.shape) == (n,), 'one score per pixel')
    cx.eq(vecof(r), [quad(dev(p, muv), cv, dev(p, muv)) for p in px], 'Mahalanobis form')
    cx.eq(rows2(d), px, 'scene left alone')


@P.case(quick=[(3, 2, 'float64'), (4, 2, 'float64'), (3, 2, 'int16')], thorough=[(5, 2, 'float64'), (4, 2, 'uint8')], budget=100)
def anomaly_scene(cx):
    """missing statistics are those of the scene; either one may be supplied alone"""
    n, nb, dtype = cx.p
    d, px, t, tv = scene(cx, n, nb, dtype)
    C = cov(px)
    cx.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0.01)
    ci, m = inv2(C), mean(px)
    rx = cx.mod(S1).rx_anomaly_detector
    cx.eq(vecof(rx(d)), [quad(dev(p, m), ci, dev(p, m)) for p in px], 'both missing', rtol=1e-6, atol=1e-6)
    mu, muv, c, cv = stats(cx, nb)
    cx.eq(vecof(rx(d, inverse_covariance=c)), [quad(dev(p, m), cv, dev(p, m)) for p in px], 'mean missing', rtol=1e-6, atol=1e-6)
    cx.eq(vecof(rx(d, spectral_mean=mu)), [quad(dev(p, muv), ci, dev(p, muv)) for p in px], 'covariance missing', rtol=1e-6, atol=1e-6)


@P.case(quick=[(3, 2, 'float64'), (1, 3, 'float64'), (2, 2, 'uint8'), (2, 2, 'int16')], thorough=[(4, 2, 'float64'), (3, 3, 'float64'), (2, 4, 'float64'), (3, 2, 'int16')], budget=100)
def cosine_given(cx):
    n, nb, dtype = cx.p
    d, px, t, tv = scene(cx, n, nb, dtype)
    mu, muv, c, cv = stats(cx, nb)
    m = cx.mod(S1)
    dt, devs = dev(tv, muv), [dev(p, muv) for p in px]
    proper(cx, devs, dt, cv)
    r = m.ace(d, t, mu, c)
    cx.true(tuple(r.shape) == (n,), 'one score per pixel')
    check_ace(cx, vecof(r), devs, dt, cv, 'adaptive cosine')
    # the form for mean-free data
    q = m.ace_demeaned(cx.arr(devs), cx.arr(dt), c)
    cx.true(tuple(q.shape) == (n,), 'one score per pixel')
    cx.eq(vecof(q), vecof(r), 'demeaned form')
    cx.eq(rows2(d), px, 'scene left alone')
    cx.eq(vecof(t), tv, 'target left alone')


@P.case(quick=[(2, 'float64'), (2, 'uint8')])
def integer_statistics(cx):
    """statistics of an integer type are the same numbers"""
    nb, dtype = cx.p
    d, px, t, tv = scene(cx, 2, nb, dtype)
    mu = cx.array('mi', nb, dtype=dtype, lo=0, hi=100)
    muv = [v + 0.0 for v in vecof(mu)]
    c = cx.array('ci', (nb, nb), dtype='int64', lo=-5, hi=5)
    cv = [[v + 0.0 for v in r] for r in rows2(c)]
    cx.assume(c[0, 1] == c[1, 0])
    proper(cx, [dev(p, muv) for p in px], dev(tv, muv), cv)
    m = cx.mod(S1)
    cx.eq(vecof(m.rx_anomaly_detector(d, mu, c)), [quad(dev(p, muv), cv, dev(p, muv)) for p in px], 'Mahalanobis form')
    check_ace(cx, vecof(m.ace(d, t, mu, c)), [dev(p, muv) for p in px], dev(tv, muv), cv, 'adaptive cosine')


FIXED = [(3.0, -7.0), (-20.0, 11.0), (35.0, 30.0)]


@P.case(quick=[(3, 3, 'float64', None, 'both'), (2, 4, 'float64', 'bool', 'both'), (1, 4, 'int16', 'int64', 'mean'), (2, 4, 'float64', 'bool', 'covariance')],
        thorough=[(k, n, d, m, w) for k, n in ((3, 3), (2, 4), (2, 5)) for d, m in (('float64', None), ('float64', 'bool'), ('int16', 'int64')) for w in ('both', 'mean', 'covariance')], budget=120)
def cosine_scene(cx):
    """missing statistics are those of the unmasked pixels; masked pixels are scored too (k arbitrary pixels beside fixed ones)"""
    k, n, dtype, kind, missing = cx.p
    d, px, t, tv = scene(cx, k, 2, dtype)
    rest = FIXED[:n - k]
    d = cx.arr([[d[i, b] for b in range(2)] for i in range(k)] + [[int(v) if 'int' in dtype else v for v in f] for f in rest], dtype)
    px = px + [list(f) for f in rest]
    mask, good = None, px
    if kind:
        sel = [1 if v else 0 for v in vecof(bools(cx, 'm', n, kind))]
        good = [p for p, v in zip(px, sel) if not v]
        mask = cx.arr(sel, kind)
        cx.assume(len(good) >= 3)
    C = cov(good)
    cx.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0.01)
    m = cx.mod(S1)
    gm, gmv, gc, gcv = stats(cx, 2)
    mu = gmv if missing == 'covariance' else mean(good)
    ci = gcv if missing == 'mean' else inv2(C)
    proper(cx, [dev(p, mu) for p in px], dev(tv, mu), ci)
    kw = {} if mask is None else dict(image_mask=mask)
    if missing == 'covariance':
        kw['spectral_mean'] = gm
    if missing == 'mean':
        kw['inverse_covariance'] = gc
    r = m.ace(d, t, **kw)
    cx.true(tuple(r.shape) == (n,), 'one score per pixel')
    check_ace(cx, vecof(r), [dev(p, mu) for p in px], dev(tv, mu), ci, 'adaptive cosine with missing statistics')


@P.case(quick=[2], thorough=[2, 3], budget=150)
def cosine_range(cx):
    """one at the target (and its mirror image), between zero and one elsewhere, for every positive definite inverse covariance"""
    nb = cx.p
    d, px, t, tv = scene(cx, 1, nb, 'float64')
    # positive definite by construction: a lower triangular factor times its transpose
    l = [[cx.real('l%d%d' % (i, j), 0.1 if i == j else -3, 3) if j <= i else 0.0 for j in range(nb)] for i in range(nb)]
    c = mul(l, tr(l))
    mu = cx.array('mu', nb, lo=-100, hi=100)
    muv = vecof(mu)
    dt, dx = dev(tv, muv), dev(px[0], muv)
    cx.assume(sum0([v * v for v in dt]) > 0.01)
    cx.assume(sum0([v * v for v in dx]) > 0.01)
    m = cx.mod(S1)
    r = m.ace(cx.arr([tv, [2 * b - a for a, b in zip(tv, muv)], px[0]]), t, mu, cx.arr(c))
    cx.eq([r[0], r[1]], [1.0, 1.0], 'one at the target')
    k = cx.real('k', 0.1, 10)
    s = m.ace(cx.arr([[b + k * v for b, v in zip(muv, dx)]]), t, mu, cx.arr(c))
    cx.eq(s[0], r[2], 'unchanged by the length of the deviation')
    if nb == 2:
        # whitened vectors: u = l^T dt, w = l^T dx; (u.w)^2 <= |u|^2 |w|^2
        u, w = vec(tr(l), dt), vec(tr(l), dx)
        a = u[0] * w[1] - u[1] * w[0]
        uu, ww = u[0] * u[0] + u[1] * u[1], w[0] * w[0] + w[1] * w[1]
        cx.eq(1 - r[2], a * a / (uu * ww), 'one minus the squared sine, hence between zero and one')
