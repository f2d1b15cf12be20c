"""reference statistics shared by the spectral properties"""
from .lib import *

S1 = 'resippy.spectral.spectral_image_processing_1d'
S2 = 'resippy.spectral.spectral_image_processing_2d'


def rows2(a):
    """cells of a 2-D result (masked or not)"""
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def vecof(a):
    return [a[i] for i in range(a.shape[0])]


def mean(px):
    n = len(px)
    return [sum0([p[b] for p in px]) / n for b in range(len(px[0]))]


def cov(px):
    """unbiased sample covariance"""
    m, n, k = mean(px), len(px), len(px[0])
    return [[sum0([(p[i] - m[i]) * (p[j] - m[j]) for p in px]) / (n - 1) for j in range(k)] for i in range(k)]


def used(cx, px, mask):
    """pixels that are not masked out; forks on the mask"""
    out = []
    for p, m in zip(px, mask):
        if not m:
            out.append(p)
    return out


def inv2(m):
    if len(m) == 1:
        return [[1 / m[0][0]]]
    (a, b), (c, d) = m
    det = a * d - b * c
    return [[d / det, -b / det], [-c / det, a / det]]


def quad(v, m, w):
    """v^T m w"""
    return sum0([v[i] * m[i][j] * w[j] for i in range(len(v)) for j in range(len(w))])


def bools(cx, name, shape, kind):
    """an arbitrary mask of a given type: bool, or numbers that are zero where pixels count"""
    if kind == 'bool':
        return cx.array(name, shape, dtype='bool')
    if kind == '255':
        v = cx.array(name, shape, dtype='bool')
        return v * 255
    if kind == 'int64':
        return cx.array(name, shape, dtype='int64', lo=0, hi=1)
    return cx.array(name, shape, dtype='uint8', lo=0, hi=1)
