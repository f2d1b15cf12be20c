"""looks for gaps: plants small random bugs in the functions a property's check encodes and lists those that neither the check nor the repository's tests notice
   mutate.py PID [--n N] [--seed S] [--src TREE] [--jobs J] [--log FILE]"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def functions(tree):
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + c.name, c))
                walk(c, pre + c.name + '.')
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + '.')
            else:
                walk(c, pre)
    walk(tree, '')
    return out


BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.MatMult: []}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
PAIRS = [('x', 'y'), ('lon', 'lat'), ('lons', 'lats'), ('width', 'height'), ('min', 'max'), ('rows', 'cols'), ('row', 'col'), ('nx', 'ny'), ('roll', 'pitch'), ('omega', 'phi'), ('left', 'right'), ('ul', 'lr'), ('start', 'end'), ('first', 'last'), ('lowest', 'highest')]


def swap_word(name):
    for a, b in PAIRS:
        for p, q in ((a, b), (b, a)):
            parts = name.split('_')
            if p in parts:
                yield '_'.join(q if z == p else z for z in parts)
            elif name.endswith(p) and len(name) > len(p) and p in ('x', 'y'):
                yield name[:-1] + q


def mutants(fn):
    """(description, function taking the copied fn and applying) -- sites addressed by index in ast.walk order"""
    out = []
    nodes = list(ast.walk(fn))
    names = {n.id for n in nodes if isinstance(n, ast.Name)} | {a.arg for a in fn.args.args}
    attrs = {n.attr for n in nodes if isinstance(n, ast.Attribute)}
    doc = ast.get_docstring(fn)
    for i, n in enumerate(nodes):
        def add(d, f, i=i):
            out.append((getattr(nodes[i], 'lineno', 0), d, i, f))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add('%s->%s' % (type(n.op).__name__, o.__name__), lambda m, o=o: setattr(m, 'op', o()))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                add('swap operands', lambda m: (lambda a, b: (setattr(m, 'left', b), setattr(m, 'right', a)))(m.left, m.right))
        elif isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                add('aug %s' % o.__name__, lambda m, o=o: setattr(m, 'op', o()))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add('%s->%s' % (type(n.ops[0]).__name__, o.__name__), lambda m, o=o: setattr(m, 'ops', [o()]))
        elif isinstance(n, ast.BoolOp):
            add('and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                add('drop condition %d' % k, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, m.values[1 - k]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add('drop unary', lambda m: (setattr(m, 'op', ast.UAdd()) if isinstance(m.op, ast.USub) else (setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add('flip bool', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(v, int):
                add('+1', lambda m: setattr(m, 'value', m.value + 1))
                if v > 0:
                    add('-1', lambda m: setattr(m, 'value', m.value - 1))
            elif isinstance(v, float):
                add('float', lambda m: setattr(m, 'value', m.value * 2 if m.value else 1.0))
            elif isinstance(v, str) and v and v != doc and len(v) < 30:
                add('string', lambda m: setattr(m, 'value', m.value[:-1] + ('_' if m.value[-1] != '_' else '.')))
        elif isinstance(n, ast.Call):
            for k in range(len(n.args) - 1):
                if not any(isinstance(a, ast.Starred) for a in n.args):
                    add('swap args %d %d' % (k, k + 1), lambda m, k=k: m.args.__setitem__(slice(k, k + 2), [m.args[k + 1], m.args[k]]))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    add('drop keyword %s' % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype') :
                add('drop .%s()' % n.func.attr, 'unwrap')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for w in swap_word(n.id):
                if w in names:
                    add('%s->%s' % (n.id, w), lambda m, w=w: setattr(m, 'id', w))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for w in swap_word(n.attr):
                if w in attrs:
                    add('.%s->.%s' % (n.attr, w), lambda m, w=w: setattr(m, 'attr', w))
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            add('swap elements', lambda m: m.elts.__setitem__(slice(0, 2), [m.elts[1], m.elts[0]]))
        elif isinstance(n, ast.If):
            add('always', lambda m: setattr(m, 'test', ast.Constant(True)))
            add('never', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.While, ast.With)):
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, [])
                for k, st in enumerate(b):
                    if isinstance(getattr(st, 'value', None), ast.Constant) and isinstance(st, ast.Assign) and st.value.value is None:
                        continue
                    if isinstance(st, (ast.AugAssign,)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)) or (isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Attribute, ast.Subscript))):
                        out.append((st.lineno, 'drop statement', i, lambda m, k=k, fld=fld: getattr(m, fld).__setitem__(k, ast.Pass())))
    return out


def apply(src, qual, i, f):
    t = ast.parse(src)
    fn = dict(functions(t))[qual]
    nodes = list(ast.walk(fn))
    if f == 'unwrap':
        target = nodes[i]

        class U(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                return n.func.value if n is target else n
        U().visit(fn)
    else:
        f(nodes[i])
    ast.fix_missing_locations(t)
    return ast.unparse(t) + '\n'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--src', default='/repo')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--log')
    ap.add_argument('--only', help='substring of module:function')
    a = ap.parse_args()
    hits = json.load(open(os.path.join(HERE, 'evidence', a.pid + '.json')))['coverage']['functions_encoded']
    anchors = [json.loads(x)['anchors']['files'] for x in open(os.path.join(HERE, 'properties.jsonl')) if json.loads(x)['id'] == a.pid][0]
    rng = random.Random(a.seed)
    pool = []
    for h in hits:
        mod, qual = h.split(':')
        if a.only and a.only not in h:
            continue
        p = mod.replace('.', '/') + '.py'
        if not os.path.exists(os.path.join(a.src, p)):
            p = mod.replace('.', '/') + '/__init__.py'
        if not any(p.startswith(f) for f in anchors):
            continue
        src = open(os.path.join(a.src, p)).read()
        fns = dict(functions(ast.parse(src)))
        if qual in fns:
            pool.append((p, qual, src, mutants(fns[qual])))
    picks = []
    # spread over functions, then sites
    order = [(k, m) for k, (p, q, s, ms) in enumerate(pool) for m in ms]
    rng.shuffle(order)
    seen = {}
    order.sort(key=lambda z: 0)
    per = {}
    for k, m in order:
        per.setdefault(k, []).append(m)
    while len(picks) < a.n and any(per.values()):
        for k in sorted(per):
            # functions with more code get more mutants
            for _ in range(1 + len(pool[k][3]) // 40):
                if per[k] and len(picks) < a.n:
                    picks.append((k, per[k].pop()))
    log = open(a.log, 'a') if a.log else None

    def one(z):
        k, (line, d, i, f) = z
        p, qual, src, _ = pool[k]
        try:
            new = apply(src, qual, i, f)
        except Exception as ex:
            return ('skip', p, qual, line, d, str(ex))
        base = ast.unparse(ast.parse(src)) + '\n'
        if new == base:
            return ('same', p, qual, line, d, '')
        wt = tempfile.mkdtemp(prefix='mut')
        try:
            os.rmdir(wt)
            shutil.copytree(a.src, wt, ignore=shutil.ignore_patterns('.git', '*.tif', '*.TIF'), symlinks=True)
            open(os.path.join(wt, p), 'w').write(new)
            ch = [(x, y) for x, y in zip(base.splitlines(), new.splitlines()) if x != y][:1]
            ch = ('%s  =>  %s' % (ch[0][0].strip(), ch[0][1].strip()))[:200] if ch else ''
            try:
                c = subprocess.run(['python3', 'run.py', a.pid], cwd=HERE, env=dict(os.environ, SV_REPO=wt, SV_FIRST='1', SV_JOBS='2', SV_NOEVIDENCE='1'), capture_output=True, text=True, timeout=600)
                rc = c.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1:
                return ('caught', p, qual, line, d, ch)
            r = subprocess.run([PY, '-W', 'ignore', '-c', 'import resippy,importlib;importlib.import_module("%s")' % p[:-3].replace('/', '.')], cwd=wt, env=dict(os.environ, PYTHONPATH=wt, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
            inc = [x.strip() for x in c.stdout.splitlines() if 'inconclusive' in x.lower()][:1] if rc != 'timeout' else ''
            return ('MISSED rc=%s%s' % (rc, '' if r.returncode == 0 else ' (does not import)'), p, qual, line, d, ch + '  ' + str(inc)[:160])
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    n = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, picks):
            key = r[0].split()[0]
            n[key] = n.get(key, 0) + 1
            if key == 'MISSED':
                s = '%s %s %s:%s L%d %s | %s' % (a.pid, r[0], r[1].split('/')[-1], r[2], r[3], r[4], r[5])
                print(s, flush=True)
                if log:
                    print(s, file=log, flush=True)
    s = '%s summary %s of %d possible' % (a.pid, n, sum(len(x[3]) for x in pool))
    print(s)
    if log:
        print(s, file=log, flush=True)


main()
