import os
import shutil
import tempfile
import numpy
from sv.prop import Prop
from .lib import *

P = Prop('P22', bounds='headers of up to 13 entries in rotated orders with each kind of entry in the first and the last place; arbitrary integers and arbitrary real wavelengths (1, 2, 3 or 1200 of them); the three newline conventions, with and without a final newline, blank lines, one-line and multi-line brackets, several spacings; written headers read again; names in any capitalisation, lists with all digits',
         assumptions=['decimal text parses back to the number it stands for'],
         outside='braces or newlines inside plain values, nested brackets, comment lines')
MOD = 'resippy.utils.envi_utils'
INTS = ['samples', 'lines', 'bands', 'header offset', 'data type', 'byte order', 'x start', 'y start']


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p22')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def put(d, text):
    with open(d + '/a.hdr', 'wb') as f:
        f.write(text.encode())
    return d + '/a.hdr'


def flat(t):
    """text of a bracketed entry, newline convention and outer blanks aside"""
    return '\n'.join(l.strip() for l in t.replace('\r\n', '\n').replace('\r', '\n').split('\n'))


def contents(cx, nw=3):
    """(key, kind, value, text) of every entry"""
    e = [(k, 'int', v, cx.text(v)) for k, v in [(k, cx.int('i%d' % i, -(10 ** 6) if 'start' in k else 0, 10 ** 6)) for i, k in enumerate(INTS)]]
    w = [cx.real('w%d' % i, 0, 10 ** 5) for i in range(nw)]
    fw = [cx.real('f%d' % i) for i in range(2)]
    e.append(('wavelength', 'list', w, [cx.text(v) for v in w]))
    e.append(('fwhm', 'list', fw, [cx.text(v) for v in fw]))
    e.append(('description', 'bracket', None, ['a scene, gain=2', 'second part = 7']))
    e.append(('band names', 'bracket', None, ['Band 1', 'Band 2', 'Band 3']))
    e.append(('wavelength units', 'text', None, 'Nanometers'))
    e.append(('sensor type', 'text', None, 'model=x = y'))
    e.append(('interleave', 'text', None, 'bil'))
    return e


def check(cx, got, entries, brackets):
    cx.true(sorted(got) == sorted(k for k, *_ in entries), 'every entry is there under its key, and no other')
    for k, kind, val, _ in entries:
        g = got.get(k)
        if kind == 'int':
            cx.true(isinstance(g, int) or type(g).__name__ == 'SymInt', 'integer ' + k)
            cx.eq(g, val, k)
        elif kind == 'list':
            cx.true(g.shape == (len(val),), 'length of ' + k)
            cx.eq(g, val, k)
        elif kind == 'bracket':
            cx.true(flat(g) == flat(brackets[k]), 'text of ' + k)
        else:
            cx.true(g == _, 'text of ' + k)


def render(entries, eq, multi):
    lines, br = [], {}
    for k, kind, val, text in entries:
        if kind in ('list', 'bracket'):
            b = '{' + (' ' if multi == 2 else '\n' if multi else '') + (',\n ' if multi else ', ').join(text) + ('\n}' if multi == 1 else '}')
            br[k] = b
            text = b
        lines.append(k + eq + text)
    return lines, br


@P.case(quick=[('\n', True, ' = ', 0), ('\n', False, ' = ', 1), ('\r\n', False, '=', 2), ('\r', True, '   = ', 1), ('\r\n', True, ' = ', 0)],
        thorough=[(nl, last, eq, m) for nl in ('\n', '\r\n', '\r') for last in (True, False) for eq in (' = ', '=', '\t=  ') for m in (0, 1, 2)], budget=100)
def entries(cx):
    nl, last, eq, multi = cx.p
    e = contents(cx)
    k = cx.choice('rotation', list(range(len(e))))
    k = [i for i in range(len(e)) if i == k][0]
    e = e[k:] + e[:k]
    lines, br = render(e, eq, multi)
    blank = cx.bool('blank')
    if blank:
        lines.insert(len(lines) // 2, '')
    text = '\n'.join(['ENVI'] + lines) + ('\n' if last else '')
    with Dir() as d:
        check(cx, cx.mod(MOD).read_envi_header(put(d, text.replace('\n', nl))), e, br)


EDGES = {'blank after a brace': ('ENVI\nband names = {a, b} \nlines = %s\nfwhm = {%s}\t\nbands = 3\n', {'band names': '{a, b}'}),
         'ends with a brace': ('ENVI\nlines = %s\nbands = 3\nfwhm = {\n %s}', {}),
         'blanks after values': ('ENVI\nlines = %s  \nfwhm = { %s }\nbands = 3 \nsensor type = Unknown \t\ninterleave = bsq \n', {'sensor type': 'Unknown', 'interleave': 'bsq'}),
         'several on a line of braces': ('ENVI\nfwhm = {1,\n2,\n 3, \n%s}\nlines = %s\nbands = 3\n', {})}


@P.case(quick=list(EDGES))
def layout(cx):
    """blanks around values and braces"""
    text, more = EDGES[cx.p]
    n, w = cx.int('n', 0, 10 ** 6), cx.real('w', 0, 10 ** 5)
    several = cx.p.startswith('several')
    with Dir() as d:
        got = cx.mod(MOD).read_envi_header(put(d, text % ((cx.text(w), cx.text(n)) if several else (cx.text(n), cx.text(w)))))
    cx.true(sorted(got) == sorted(['lines', 'bands', 'fwhm'] + list(more)), 'entries')
    cx.eq([got['lines'], got['bands']], [n, 3], 'numbers')
    cx.eq(got['fwhm'], [1, 2, 3, w] if several else [w], 'list')
    for k in more:
        cx.true(got[k] == more[k], k)


@P.case()
def capitals(cx):
    """entries count under any capitalisation of their names, and lists keep all digits"""
    n, w = cx.int('n', 0, 10 ** 6), cx.real('w', 0, 10 ** 5)
    with Dir() as d:
        got = cx.mod(MOD).read_envi_header(put(d, 'ENVI\nSamples = %s\nData Type = 4\nWavelength = {%s, 0.4500001, 1234.567891}\nFWHM = {0.1}\n' % (cx.text(n), cx.text(w))))
    cx.eq([got['Samples'], got['Data Type']], [n, 4], 'numbers')
    cx.eq(got['Wavelength'], [w, 0.4500001, 1234.567891], 'list', rtol=1e-12, atol=0)
    cx.true(float(got['FWHM'][0]) == 0.1, 'list of one')


@P.case(quick=[1, 2, 1200])
def lists(cx):
    """band lists of other lengths, alone in the header"""
    n = cx.p
    w = [cx.real('w%d' % i, 0, 10 ** 5) for i in range(min(n, 3))]
    w = w + list(range(n - len(w)))
    with Dir() as d:
        m = cx.mod(MOD)
        got = m.read_envi_header(put(d, 'ENVI\nwavelength = {' + ','.join(cx.text(v) for v in w) + '}'))
        cx.true(list(got) == ['wavelength'], 'entries')
        cx.true(got['wavelength'].shape == (n,), 'length')
        cx.eq(got['wavelength'], w, 'wavelengths')
        m.write_envi_header(got, d + '/b.hdr')
        back = m.read_envi_header(d + '/b.hdr')
        cx.true(back['wavelength'].shape == (n,), 'length after writing')
        cx.eq(back['wavelength'], w, 'wavelengths after writing')


@P.case(quick=[0, 1, 2])
def rewrite(cx):
    """a header that is read, written and read again has the same entries"""
    e = contents(cx)
    k = cx.choice('rotation', list(range(len(e))))
    k = [i for i in range(len(e)) if i == k][0]
    e = e[k:] + e[:k]
    lines, br = render(e, ' = ', cx.p)
    m = cx.mod(MOD)
    with Dir() as d:
        got = m.read_envi_header(put(d, '\n'.join(['ENVI'] + lines) + '\n'))
        m.write_envi_header(got, d + '/b.hdr')
        check(cx, m.read_envi_header(d + '/b.hdr'), e, br)


@P.case()
def metadata(cx):
    nx, ny, nb = cx.int('nx', 1, 10 ** 6), cx.int('ny', 1, 10 ** 6), cx.int('nb', 1, 10 ** 6)
    with Dir() as d:
        md = cx.mod('resippy.image_objects.envi.envi_metadata').EnviMetadata.init_from_header(put(d, 'ENVI\nbands = %s\nlines = %s\nsamples = %s\ninterleave = bsq\n' % (cx.text(nb), cx.text(ny), cx.text(nx))))
    cx.eq([md.get_npix_x(), md.get_npix_y(), md.get_n_bands()], [nx, ny, nb], 'image size')
    cx.eq(md.envi_header['bands'], nb, 'header kept')
