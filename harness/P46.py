import os
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P46', bounds='folders of up to 3 entries, each a file or a folder, with distinct visible names of up to 5 characters (every one but "/" and the null character, code points to 0x2fff); extensions of up to 3 and prefixes of up to 2 arbitrary characters, one or two of each, extensions written as "ext", ".ext" or "*.ext", also compound ones; four folder names, some with characters that mean something in file patterns; paths of up to 3 parts of up to 2 arbitrary characters',
         assumptions=['os, glob and fnmatch behave as documented (a stand-in in symbolic mode; replays use a real folder)'],
         outside='names that begin with a dot, extensions holding "*", "?" or "[", links, sub-folders of sub-folders')
M = 'resippy.utils.file_utils'
ROOTS = ['data', 'a[1] b', 'x*', 'q?.d']


class Folder:
    """a folder with the given entries: a stand-in in symbolic mode, a real one otherwise"""
    def __init__(self, cx, name, entries):
        self.cx, self.name, self.entries = cx, name, entries

    def __enter__(self):
        if self.cx.sym:
            self.root = '/tmp/svq/' + self.name
            fakes.use_folder(self.cx, self.root, self.entries)
            return self.root
        self.s = Scratch()
        self.root = self.s.__enter__() + '/' + self.name
        os.mkdir(self.root)
        for n, k in self.entries:
            if k == 'd':
                os.mkdir(os.path.join(self.root, n))
            else:
                open(os.path.join(self.root, n), 'w').close()
        return self.root

    def __exit__(self, *a):
        if not self.cx.sym:
            self.s.__exit__()


def entries(cx, kinds):
    """distinct visible names; a kind is f or d and the number of characters"""
    out = []
    for i, k in enumerate(kinds):
        n = cx.string('n%d' % i, int(k[1:]), exclude='/')
        cx.assume(n[0] != '.')
        for m, _ in out:
            if len(m) == len(n):
                cx.assume(cx.Not(m == n))
        out.append((n, k[0]))
    return out


def same_files(cx, got, want, what):
    """the wanted ones, each once, in any order"""
    got = list(got)
    cx.true(len(got) == len(want), what + ': how many')
    for w in want:
        cx.true(sum(1 for g in got if g == w) == 1, what + ': each once')


def ends(n, e):
    return len(n) >= len(e) + 1 and bool(n[len(n) - len(e) - 1:] == '.' + e)


@P.case(quick=[('data', ()), ('data', ('f3',)), ('a[1] b', ('f1', 'd3')), ('x*', ('d2', 'f3')), ('q?.d', ('f3', 'f1')), ('data', ('f4', 'd1', 'f2'))], thorough=[('a[1] b', ('f5', 'f5', 'd3'))])
def everything(cx):
    """all files and no folders; all folders and no files"""
    root, kinds = cx.p
    full = cx.choice('full paths', [None, True, False])
    es = entries(cx, kinds)
    with Folder(cx, root, es) as d:
        m = cx.mod(M)
        got = m.get_all_files_in_dir(d) if full is None else m.get_all_files_in_dir(d, return_fullpaths=full)
        dirs = m.get_all_folders_in_dir(d)
    same_files(cx, got, [n if full is False else d + '/' + n for n, k in es if k == 'f'], 'files')
    same_files(cx, dirs, [d + '/' + n for n, k in es if k == 'd'], 'folders')


@P.case(quick=[('data', ('f3', 'f4'), (1,)), ('a[1] b', ('f4', 'd4'), (2,)), ('x*', ('f3', 'f4'), (1, 2)), ('data', ('f5', 'f3'), (3,)), ('q?.d', ('f3', 'f3', 'd3'), (1, 1)), ('data', ('f3',), ())],
        thorough=[('a[1] b', ('f5', 'f5', 'd5'), (2, 3)), ('data', ('f4', 'f4', 'f4', 'd4'), (2, 1, 2))], budget=100)
def by_extension(cx):
    """the files that have one of the extensions"""
    root, kinds, sizes = cx.p
    style = cx.choice('style', ['%', '.%', '*.%'])
    full = cx.choice('full paths', [True, False])
    es = entries(cx, kinds)
    ex = [cx.string('e%d' % i, n, exclude='*?[/') for i, n in enumerate(sizes)]
    for e in ex:
        cx.assume(e[0] != '.')
    with Folder(cx, root, es) as d:
        m = cx.mod(M)
        arg = [style[:-1] + e for e in ex]
        given = list(arg)
        one = len(arg) == 1 and cx.choice('as text', [True, False])
        got = m.get_all_files_in_dir(d, extensions=arg[0] if one else arg, return_fullpaths=full)
        cx.true(len(arg) == len(given) and all(a is b for a, b in zip(arg, given)), 'given extensions left alone')
    same_files(cx, got, [d + '/' + n if full else n for n, k in es if k == 'f' and any([ends(n, e) for e in ex])], 'files')


@P.case(quick=[('data', ('f1', 'f2'), (1,), None), ('a[1] b', ('f3', 'd3'), (2,), None), ('data', ('f3', 'f3'), (1, 1), None), ('x*', ('f4', 'f4'), (1,), 1), ('q?.d', ('f3', 'f1'), (2, 1), 1), ('data', ('f2', 'f2'), (3, 0), None), ('data', ('f3', 'f3'), (1,), (1, 1))],
        thorough=[('a[1] b', ('f5', 'f4', 'd4'), (2, 1), 2)], budget=100)
def by_prefix(cx):
    """the files that begin with one of the prefixes, and have the extension"""
    root, kinds, sizes, elen = cx.p
    full = cx.choice('full paths', [None, True, False])
    es = entries(cx, kinds)
    ps = [cx.string('p%d' % i, n, exclude='/') for i, n in enumerate(sizes)]
    es_ = [] if elen is None else [cx.string('e%d' % i, n, exclude='*?[/.') for i, n in enumerate(elen if isinstance(elen, tuple) else (elen,))]
    with Folder(cx, root, es) as d:
        m = cx.mod(M)
        one = len(ps) == 1 and cx.choice('as text', [True, False])
        kw = {} if full is None else {'return_fullpaths': full}
        if elen is not None:
            kw['extensions'] = list(es_) if isinstance(elen, tuple) else es_[0]
        got = m.get_files_in_dir_that_start_with(d, ps[0] if one else ps, **kw)
    want = [n for n, k in es if k == 'f' and (elen is None or any([ends(n, e) for e in es_])) and any([n.startswith(p) for p in ps])]
    same_files(cx, got, [n if full is False else d + '/' + n for n in want], 'files')


@P.case(quick=[(), (1,), (2, 1), (1, 2, 1)])
def paths(cx):
    """a path goes down the given folders in order"""
    parts = [cx.string('s%d' % i, n, exclude='/') for i, n in enumerate(cx.p)]
    base = cx.choice('base', ['/data', '/data/', 'rel'])
    if cx.sym:
        fakes.use_folder(cx, '/data', [])
    m = cx.mod(M)
    got = m.get_path_from_subdirs(base, parts)
    want = base
    for s in parts:
        want = want + ('' if want.endswith('/') else '/') + s
    cx.true(len(got) == len(want) and got == want, 'path')
    cx.true(len(parts) == len(cx.p), 'given parts left alone')
