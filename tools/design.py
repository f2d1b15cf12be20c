"""rewrites the per-property part of DESIGN.md from the harnesses, the evidence and seeded/ (python3 tools/design.py)"""
import glob
import json
import os
import runpy
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ORACLE = runpy.run_path(os.path.join(HERE, 'tools', 'oracles.py'))['ORACLE']
from sv.prop import REG       # noqa: E402
import importlib              # noqa: E402

seeds = {}
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(m)))
out = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    e = json.loads(line)
    pid = e['id']
    importlib.import_module('harness.' + pid)
    P = REG[pid]
    out.append('### %s %s\n' % (pid, e['title']))
    out.append('* code: ' + '; '.join(m['where'] for m in e['anchors']['mechanism']))
    out.append('* oracle: ' + ORACLE[pid])
    out.append('* cases: ' + ', '.join('%s (%d)' % (c['name'], len(c['quick'])) for c in P.cases))
    out.append('* bounds: ' + P.bounds)
    if P.assumptions:
        out.append('* assumptions: ' + '; '.join(P.assumptions))
    if P.outside:
        out.append('* outside: ' + P.outside)
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(ev):
        d = json.load(open(ev))
        c = d['coverage']
        out.append('* cost of the %s run: %d paths, %d queries, %.0f s of solver time, %.0f s wall' % (d['tier'], c['states'], c['solver_queries'], c['solver_seconds'], d['wall_s']))
    if pid in seeds:
        out.append('* planted changes it catches: ' + ', '.join(seeds[pid]))
    out.append('')
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
a, b = '<!-- per property -->\n', '<!-- end -->\n'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(f, 'w').write(s)
