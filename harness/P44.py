import numpy
from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P44', bounds='cubes of up to 3x4 pixels and 3 bands with arbitrary content, every number of components, with and without whitening',
         assumptions=['the decomposition itself (scikit-learn) is a stand-in with the documented interface: a fixed linear map of the mean-centred spectra, overwriting its input when told not to copy',
                      'float64 rounding is modelled as exact real arithmetic'],
         outside='the decomposition itself (native code): that the components are uncorrelated and ordered by variance')
W = [[0.5, -1.0, 2.0], [1.5, 0.25, -0.75], [-2.0, 3.0, 1.0]]


class PCA:
    """components are the rows of W; scores are those of the spectra less their mean, scaled when whitened"""
    def __init__(self, n_components=None, *, copy=True, whiten=False, svd_solver='auto', tol=0.0, iterated_power='auto', n_oversamples=10, power_iteration_normalizer='auto', random_state=None, batch_size=None):
        self.n, self.copy, self.whiten = n_components, copy, whiten

    def fit(self, X, y=None):
        if numpy.ndim(X) != 2:
            raise ValueError('Expected 2D array')
        n, k = numpy.shape(X)
        if self.n is not None and not 1 <= self.n <= min(n, k):
            raise ValueError('n_components')
        self.n_components_ = min(n, k) if self.n is None else self.n
        self.mean_ = [sum([X[i, j] + 0.0 for i in range(n)][1:], X[0, j] + 0.0) / n for j in range(k)]
        if not self.copy:
            for i in range(n):
                for j in range(k):
                    X[i, j] = X[i, j] - self.mean_[j]
        return self

    def scores(self, rows):
        out = []
        for r in rows:
            out.append([sum([W[c][j] * v for j, v in enumerate(r)], 0.0) * ((c + 2.0) if self.whiten else 1.0) for c in range(self.n_components_)])
        return self.cx.arr(out, 'float64')

    def transform(self, X):
        return self.scores([[X[i, j] - self.mean_[j] for j in range(len(self.mean_))] for i in range(len(X))])

    def fit_transform(self, X, y=None):
        rows = [[X[i, j] + 0.0 for j in range(numpy.shape(X)[1])] for i in range(len(X))] if numpy.ndim(X) == 2 else None
        self.fit(X)
        return self.scores([[v - m for v, m in zip(r, self.mean_)] for r in rows])


@P.case(quick=[((2, 3), 2, 'float64'), ((3, 2), 3, 'float64'), ((1, 4), 2, 'float64'), ((4, 1), 2, 'float64'), ((2, 2), 3, 'int16'), ((3, 4), 2, 'float64')], thorough=[((3, 4), 3, 'float64'), ((4, 3), 3, 'uint8')])
def scores(cx):
    """every pixel holds the scores of its own spectrum, as many as asked for"""
    (ny, nx), nb, dtype = cx.p
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('ogr', fakes.Namespace('ogr'))
    cx.fake('skimage', fakes.Namespace('skimage', transform=None))
    cls = type('PCA', (PCA,), {'cx': cx})
    de = fakes.Namespace('sklearn.decomposition', PCA=cls, IncrementalPCA=cls)
    cx.fake('sklearn.decomposition', de)
    cx.fake('sklearn', fakes.Namespace('sklearn', decomposition=de))
    d = cx.array('d', (ny, nx, nb), dtype=dtype)
    x = [[[d[r, c, b] + 0.0 for b in range(nb)] for c in range(nx)] for r in range(ny)]
    mean = [sum([x[r][c][b] for r in range(ny) for c in range(nx)][1:], x[0][0][b]) / (nx * ny) for b in range(nb)]
    n = cx.choice('components', [None] + list(range(1, nb + 1)))
    whiten = cx.choice('whiten', [None, False, True])
    kw = {k: v for k, v in (('n_components', n), ('whiten', whiten)) if v is not None}
    got = cx.mod(S2).compute_image_cube_pca(d, **kw)
    k = nb if n is None else n
    cx.true(tuple(numpy.shape(got)) == (ny, nx, k), 'shape')
    cx.eq(got, [[[sum([W[c][b] * (x[r][q][b] - mean[b]) for b in range(nb)], 0.0) * (c + 2.0 if whiten else 1.0) for c in range(k)] for q in range(nx)] for r in range(ny)], 'scores of the pixel')
