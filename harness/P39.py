import os
from sv.prop import Prop
from sv import fakes
from .spectral import *

P = Prop('P39', bounds='lists of 0 to 4 lines of 0 to 3 arbitrary characters (code points 1 to 0x2fff), texts of up to 5 arbitrary characters under both platform newlines, tables of up to 4 rows and 4 columns of arbitrary numbers and of arbitrary characters, tuple lists of up to 4 entries of up to 3 arbitrary numbers, lists of up to 6 arbitrary values with any value removed',
         assumptions=['text files translate newlines as documented by Python', 'decimal text parses back to the number it stands for'],
         outside='quoted table fields, longer texts, text encodings, tuples that mix numbers and text')
U = 'resippy.utils.'


class Files:
    """a place for the files of one run: in memory in symbolic mode"""
    def __init__(self, cx):
        self.cx = cx

    def __enter__(self):
        self.store = self.cx.memory_files()
        self.d = Scratch()
        return self.d.__enter__()

    def __exit__(self, *a):
        self.d.__exit__()


@P.case(quick=[(), (0,), (2,), (0, 0), (1, 0), (0, 1), (2, 1), (1, 0, 2), (0, 1, 0), (2, 2, 0, 0)], thorough=[(3, 3), (4,), (1, 1, 1, 1), (0, 0, 0, 0, 0), (3, 0, 2)])
def text_lists(cx):
    """what is written is read back, whatever the lines contain apart from newlines"""
    sizes = cx.p
    lines = [cx.string('s%d' % i, n, exclude='\r\n') for i, n in enumerate(sizes)]
    with Files(cx) as d:
        m = cx.mod(U + 'file_utils')
        given = list(lines)
        m.write_text_list_to_file(given, d + '/t.txt')
        cx.true(len(given) == len(lines) and all(a is b for a, b in zip(given, lines)), 'given list left alone')
        got = m.read_text_list_from_file(d + '/t.txt')
        cx.true(len(got) == len(lines), 'number of lines')
        cx.true(cx.And(*[a == b for a, b in zip(got, lines)]), 'lines')


@P.case(quick=[(n, sep) for n in (0, 1, 2, 3, 4) for sep in ('\n', '\r\n')], thorough=[(5, '\n'), (5, '\r\n'), (6, '\r\n')], budget=100)
def newlines(cx):
    """every newline convention becomes that of the platform, and nothing else changes"""
    n, sep = cx.p
    s = cx.string('s', n)
    m = cx.mod(U + 'string_utils')
    keep = os.linesep
    os.linesep = sep
    try:
        got, bare = m.cleanup_newlines(s), m.remove_newlines(s)
    finally:
        os.linesep = keep
    want, none, i = '', '', 0
    while i < n:
        c = s[i]
        if c == '\r':
            want = want + sep
            i += 2 if i + 1 < n and s[i + 1] == '\n' else 1
        elif c == '\n':
            want = want + sep
            i += 1
        else:
            want, none = want + c, none + c
            i += 1
    cx.true(len(got) == len(want) and got == want, 'newlines of the platform')
    cx.true(len(bare) == len(none) and bare == none, 'newlines removed')


@P.case(quick=[(0, 3, ','), (1, 1, ','), (1, 4, ';'), (4, 2, ','), (3, 3, '\t')], thorough=[(6, 4, '|')])
def tables(cx):
    """columns under their header names, rows in order"""
    n, k, delim = cx.p
    nl = cx.choice('newline', ['\n', '\r\n'])
    final = cx.choice('final newline', [True, False])
    names = ['time', ' x pos ', 'Z', ''][:k]
    blank = cx.choice('first cell of the second row empty', [False, True]) if n > 1 and k > 1 else False
    t = [[cx.text(cx.real('v%d_%d' % (i, j), -10 ** 6, 10 ** 6) if j % 2 else cx.int('v%d_%d' % (i, j), -10 ** 6, 10 ** 6)) for j in range(k)] for i in range(n)]
    if blank:
        t[1][0] = ''
    for i in range(n):
        if k > 2:
            t[i][2] = ['a b', '', '  x'][i % 3]
    with Scratch() as d:
        f = put_text(d + '/t.csv', nl.join(delim.join(r) for r in [names] + t) + (nl if final else ''))
        m = cx.mod(U + 'csv_utils').CsvUtils
        got = m.single_line_header_csv_to_dict(f, delim) if delim != ',' else m.single_line_header_csv_to_dict(f)
    cx.true(sorted(got) == sorted(names), 'one entry per column')
    for j, name in enumerate(names):
        col = [str(x) for x in list(got[name])]
        cx.true(col == [r[j] for r in t], 'column ' + name)


@P.case(quick=[(1, 2), (2, 1), (3, 2), (2, 3), (4, 2), (0, 0)], thorough=[(6, 3)])
def tuples(cx):
    """lists of tuples to separate lists and back"""
    n, k = cx.p
    m = cx.mod(U + 'numpy_and_array_utils')
    whole = cx.choice('whole', [True, False])
    v = [tuple(cx.int('v%d_%d' % (i, j), -10 ** 6, 10 ** 6) if whole else cx.real('v%d_%d' % (i, j)) for j in range(k)) for i in range(n)]
    lists = m.list_of_tuples_to_separate_lists(v)
    cx.true(isinstance(lists, list) and len(lists) == k, 'one list per position')
    for j in range(k):
        cx.true(isinstance(lists[j], list) and len(lists[j]) == n, 'one value per tuple')
        cx.eq(lists[j], [t[j] for t in v], 'separate lists')
    back = m.separate_lists_to_list_of_tuples([[t[j] for t in v] for j in range(k)])
    cx.true(isinstance(back, list) and len(back) == n and all(isinstance(t, tuple) and len(t) == k for t in back), 'list of tuples')
    for a, b in zip(back, v):
        cx.eq(list(a), list(b), 'tuples')


@P.case(quick=[0, 1, 3, 6], thorough=[8])
def removal(cx):
    """exactly the occurrences of a value go; the rest stays in order"""
    n = cx.p
    m = cx.mod(U + 'numpy_and_array_utils')
    v = [cx.int('v%d' % i, -5, 5) if i % 2 else cx.real('v%d' % i, -5, 5) for i in range(n)]
    x = cx.int('x', -5, 5)
    given = list(v)
    got = m.remove_all_entries_from_list(given, x)
    want = [a for a in v if a != x]
    cx.true(len(got) == len(want), 'number of entries left')
    cx.eq(list(got), want, 'entries left')
    cx.true(len(given) == n, 'given list left alone')


@P.case(quick=[(1, 2), (2, 1, 2)], thorough=[(2, 2, 2)])
def removal_of_text(cx):
    m = cx.mod(U + 'numpy_and_array_utils')
    v = [cx.string('v%d' % i, k) for i, k in enumerate(cx.p)]
    x = cx.string('x', 2)
    got = m.remove_all_entries_from_list(list(v), x)
    want = [a for a in v if a != x]
    cx.true(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'entries left')


@P.case()
def removal_of_anything(cx):
    """entries of any kind: those equal to the value go, and no others"""
    m = cx.mod(U + 'numpy_and_array_utils')
    i, x = cx.int('i', -2, 2), cx.real('x', -2, 2)
    v = [None, 0, False, '0', i, '', 0.0, True, x, 'None', 1, (), (0,)]
    for w in (0, None, True, '', '0', (0,), 2):
        got = m.remove_all_entries_from_list(list(v), w)
        want = [a for a in v if a != w]
        cx.true(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'entries left')
