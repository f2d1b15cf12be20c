from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P34', bounds='files of 1 to 6 (and 60, 400) rows of arbitrary numbers; delimited files with 0 to 3 header lines, three delimiters and every order of the two columns among up to four; the three newline conventions, with and without a final newline, several spacings; library directories with their tables under each recognised name among other files',
         assumptions=['decimal text parses back to the number it stands for'],
         outside='rows that are not numbers, blank lines between rows, quoting, unit algebra of pint')
F = 'resippy.spectral.spectrum_factories.'
NL = ['\n', '\r\n']


def check(cx, s, w, r, label):
    got = s.get_wavelengths()
    cx.true(tuple(got.shape) == (len(w),), 'one wavelength per row')
    cx.eq(vecof(got), w, 'wavelengths')
    data = s.get_spectral_data()
    cx.true(tuple(data.shape) == (len(r),), 'one value per row')
    cx.eq(vecof(data), r, label)


def numbers(cx, n, k, whole=False):
    """n rows of k numbers, and their text"""
    v = [[cx.int('v%d_%d' % (i, j), -10 ** 6, 10 ** 6) if whole else cx.real('v%d_%d' % (i, j), -10 ** 4, 10 ** 4) for j in range(k)] for i in range(n)]
    return v, [[cx.text(x) for x in row] for row in v]


def units(cx, s):
    cx.true(s.get_wavelength_units() == 'nanometers', 'wavelength units')
    cx.true(s.get_spectrum_units() == 'reflectance_0-1', 'zero-one reflectance')


@P.case(quick=[(0, 1, 2, ',', 1), (1, 0, 2, ',', 3), (3, 1, 4, ';', 0), (2, 0, 3, '\t', 2), (1, 3, 4, ',', 1)], thorough=[(a, b, 4, ',', h) for a in range(4) for b in range(4) if a != b for h in (0, 2)] + [(1, 0, 2, ' ', 5)])
def delimited(cx):
    a, b, k, delim, nh = cx.p
    m = cx.mod(F + 'csv.ascii.csv_spectral_factory')
    n = 3
    nl = cx.choice('newline', NL)
    final = cx.choice('final newline', [True, False])
    v, t = numbers(cx, n, k, whole=a % 2 == 1)
    head = ['%s%d' % (delim.join(['wave', 'refl', 'x', 'y'][:k]), i) for i in range(nh)]
    with Scratch() as d:
        f = put_text(d + '/s.csv', nl.join(head + [delim.join(r) for r in t]) + (nl if final else ''))
        s = m.CsvAsciiFileFactory.from_csv_file(f, delimiter=delim, nheader=nh, wave_index=a, reflectance_index=b)
        check(cx, s, [r[a] for r in v], [r[b] for r in v], 'values of the requested column')
        units(cx, s)
        if (a, b, delim, nh) == (0, 1, ',', 1):
            check(cx, m.CsvAsciiFileFactory.from_csv_file(f), [r[0] for r in v], [r[1] for r in v], 'default columns')


@P.case(quick=[1, 5, 400], thorough=[12])
def delimited_defaults(cx):
    """one header line, comma, wavelength then reflectance"""
    m = cx.mod(F + 'csv.ascii.csv_spectral_factory')
    v, t = numbers(cx, cx.p, 3)
    with Scratch() as d:
        f = put_text(d + '/s.csv', '\n'.join(['12,34,56'] + [','.join(r) for r in t]) + '\n')
        check(cx, m.CsvAsciiFileFactory.from_csv_file(f), [r[0] for r in v], [r[1] for r in v], 'values of the second column')


HEAD = ['/*** Spectra Vista SIG Data ***/', 'name= a.sig', 'instrument= HR: 1092142', 'integration= 200.0, 40.0', 'scan method= Time-based', 'comm= no data here', 'factors= 1.0, 1.0 [metadata]', 'temp= 1 2 3 4']


@P.case(quick=[(1, 8), (4, 8), (3, 2), (2, 0), (60, 20)], thorough=[(12, 8), (6, 5)])
def signature(cx):
    """rows of wavelength, reference, target, per cent reflectance after the data line"""
    n, nh = cx.p
    m = cx.mod(F + 'SVC.ascii.svc_spectral_factory')
    nl = cx.choice('newline', NL)
    sep = cx.choice('separator', ['  ', ' ', '\t'])
    final = cx.choice('final newline', [True, False])
    v, t = numbers(cx, n, 4)
    with Scratch() as d:
        f = put_text(d + '/a.sig', nl.join(HEAD[:nh] + ['data= '] + [sep.join(r) for r in t]) + (nl if final else ''))
        s = m.SvcAsciiFileFactory.from_sig_file(f)
        check(cx, s, [r[0] for r in v], [r[3] / 100.0 for r in v], 'reflectance from per cent')
        units(cx, s)


@P.case(quick=[1, 4, 60], thorough=[12])
def plot_file(cx):
    """two columns after three header lines"""
    n = cx.p
    m = cx.mod(F + 'envi.ascii.envi_ascii_plot_file_factory')
    nl = cx.choice('newline', NL)
    sep = cx.choice('separator', ['  ', '\t'])
    lead = cx.choice('leading blanks', ['', '   '])
    final = cx.choice('final newline', [True, False])
    v, t = numbers(cx, n, 2)
    with Scratch() as d:
        f = put_text(d + '/a.txt', nl.join(['ENVI ASCII Plot File [Thu]', 'Column 1: Wavelength', 'Column 2: Mean~~2'] + [lead + sep.join(r) for r in t]) + (nl if final else ''))
        s = m.EnviAsciiPlotFileFactory.from_ascii_file(f)
        check(cx, s, [r[0] for r in v], [r[1] for r in v], 'reflectance')
        units(cx, s)


class Units:
    def __getattr__(self, n):
        return 'unit ' + n


NAMES = [('USGS_Wavelengths_BECK.txt', 'USGS_Bandpass_FWHM.txt'), ('a_WAVES.txt', 'a_resolution.txt'), ('wavelength.txt', 'Bandpass.txt'), ('s07_waves_x.txt', 's07_RESOLUTION.txt')]


@P.case(quick=[(1, 0), (4, 1), (3, 2), (2, 3)], thorough=[(10, 0)])
def library(cx):
    """a spectrum in a chapter directory; wavelengths and bandwidths in the library directory above it"""
    n, names = cx.p
    u = Units()
    cx.fake('resippy.utils.units', fakes.Namespace('resippy.utils.units', ureg=u, unit_constants=u))
    m = cx.mod(F + 'usgs.ascii.usgs_ascii_spectral_factory')
    nl = cx.choice('newline', NL)
    final = cx.choice('final newline', [True, False])
    lead = cx.choice('leading blanks', ['', '  '])
    miss = cx.choice('missing sample', [None] + list(range(n)))
    v, t = numbers(cx, n, 3)
    if miss is not None:
        t[miss][1] = '-1.23e34'
    wn, bn = NAMES[names]

    def text(head, k):
        return nl.join([head] + [lead + r[k] for r in t]) + (nl if final else '')
    with Scratch() as d:
        put_text(d + '/lib/' + wn, text('title of the wavelengths', 0))
        put_text(d + '/lib/' + bn, text('title of the bandwidths', 2))
        put_text(d + '/lib/readme.txt', 'nothing here\n1.0\n')
        put_text(d + '/lib/waves.asc', 'nothing here\n1.0\n')
        put_text(d + '/lib/chapter/other_wavelengths.txt', 'nothing here\n1.0\n')
        f = put_text(d + '/lib/chapter/quartz.txt', text('quartz', 1))
        s = m.UsgsAsciiSpectralFactory.from_ascii_file(f)
        cx.eq(vecof(s.get_wavelengths()), [r[0] for r in v], 'wavelengths')
        cx.eq(vecof(s.get_fwhm()), [r[2] for r in v], 'bandwidths')
        g = s.get_spectral_data()
        cx.true(tuple(g.shape) == (n,), 'one value per row')
        for i in range(n):
            if i == miss:
                cx.true(cx.isnan(g[i]), 'missing sample')
            else:
                cx.eq(g[i], v[i][1], 'reflectance')
        cx.true(s.get_fname() == f, 'file name')
        cx.true(s.get_wavelength_units() == 'unit microns' and s.get_spectrum_units() == 'unit reflectance_zero_to_one', 'units')
