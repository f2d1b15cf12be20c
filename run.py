#!/usr/bin/env python
"""run.py <property id> [--tier quick|thorough] [--case NAME] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VENV_PY = '/opt/venv/bin/python'
if os.path.exists(VENV_PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('SV_NOREEXEC'):
    os.environ['SV_NOREEXEC'] = '1'
    os.execv(VENV_PY, [VENV_PY, os.path.join(HERE, 'run.py')] + sys.argv[1:])
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

import sv                                  # noqa
from sv.prop import REG                    # noqa
from sv.cx import Job                      # noqa
from sv import loader                      # noqa


def load_prop(pid):
    importlib.import_module('harness.' + pid)
    return REG[pid]


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                d = dict(x.split('=', 1) for x in line.split()[1:] if '=' in x and x.split('=')[0] in ('property', 'case', 'label'))
                d['text'] = line
                out.append(d)
    return out


def other_uses(prop, c, param, tier):
    """the same question with other settings, and another question, asked with the same modules before"""
    out = []
    ps = c[tier]
    if len(ps) > 1:
        k = [repr(p) for p in ps].index(repr(param)) if param in ps else 0
        out.append((c['fn'], c['name'], ps[(k + 1) % len(ps)]))
    cs = [x for x in prop.cases if x[tier]]
    if len(cs) > 1:
        x = cs[([y['name'] for y in cs].index(c['name']) + 1) % len(cs)]
        out.append((x['fn'], x['name'], x[tier][0]))
    return out


def worker(args, progress=None):
    pid, idx, param, tier, seed = args
    prop = REG[pid]
    c = prop.cases[idx]
    budget = c['budget'] if tier == 'quick' else c['tbudget']
    cfg = dict(c['cfg'])
    if tier == 'thorough':
        cfg.setdefault('query_ms', 30000)
        cfg.setdefault('validate', 80)
        cfg.setdefault('export', 6)
        cfg['max_paths'] = cfg.get('max_paths', 3000) * 10
    job = Job(pid, c['name'], c['fn'], param, tier, budget, seed, cfg)
    job.others += other_uses(prop, c, param, tier)
    try:
        return job.run(progress)
    except BaseException as ex:      # engine failure: no answer
        import traceback
        r = job.result()
        r['inconclusive'] = r['inconclusive'] + ['engine error: %s' % ''.join(traceback.format_exception(ex))[-1500:]]
        return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SV_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    pid = a.pid
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load_prop(pid)
    loader.shared_units()
    jobs = []
    for i, c in enumerate(prop.cases):
        if a.case and a.case != c['name']:
            continue
        for prm in c[a.tier]:
            jobs.append((pid, i, prm, a.tier, seed))
    results = []
    ctx = mp.get_context('fork')
    pending = list(range(len(jobs)))
    limit = 840 if a.tier == 'quick' else 5400
    running = {}
    res = {}

    def start(k):
        r, w = ctx.Pipe(False)

        def target():
            r.close()
            resource.setrlimit(resource.RLIMIT_AS, (6 * 2 ** 30, 6 * 2 ** 30))
            late = time.time() - t0 > limit * 0.4          # no time left for uses after other uses
            out = worker(jobs[k], None if late else lambda r: w.send(dict(r, partial=True)))
            w.send(out)
            w.close()
        p = ctx.Process(target=target)
        p.start()
        w.close()
        running[k] = (p, r, time.time())

    while pending or running:
        while pending and len(running) < a.jobs:
            start(pending.pop(0))
        time.sleep(0.02)
        for k in list(running):
            p, r, ts = running[k]
            c = prop.cases[jobs[k][1]]
            hard = (c['budget'] if a.tier == 'quick' else c['tbudget']) * 1.5 + 60
            if r.poll():
                try:
                    res[k] = r.recv()
                except EOFError:
                    res[k] = res.get(k)
                if res[k] and res[k].pop('partial', False):
                    continue
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[k]
            elif not p.is_alive():
                res.setdefault(k, None)
                del running[k]
            elif time.time() - ts > hard or time.time() - t0 > limit:
                p.kill()
                p.join()
                res.setdefault(k, dict(timeout=True))
                del running[k]
            else:
                continue
            if res[k] is None or 'timeout' in res[k]:
                c = prop.cases[jobs[k][1]]
                res[k] = dict(case=c['name'], param=repr(jobs[k][2]), paths=0, forks=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0,
                              obligations=1, discharged=0, trivially=0, warm_paths=0, warm_open=0, normalised=0, margin=0, confirmed=0, validated=0,
                              inconclusive=['worker %s' % ('timed out' if res[k] else 'died')],
                              mismatch=[], violations=[], samples=[], hits=[], wall=time.time() - ts, exports=[], opaque=False)
            if a.v:
                print_job(res[k])
            if res[k]['violations'] and os.environ.get('SV_FIRST'):      # development aid: stop at the first violation
                for p, r, ts in running.values():
                    p.kill()
                running.clear()
                pending.clear()
                break
    results = [res[k] for k in sorted(res)]
    return report(prop, results, a.tier, seed, t0, a.case is not None)


def print_job(r):
    st = 'VIOLATED' if r['violations'] else 'INCONCLUSIVE' if r['inconclusive'] or r['mismatch'] else 'ok'
    print('%-12s %s %s paths=%d obl=%d/%d norm=%d(%d) margin=%d q=%d solver=%.1fs valid=%d wall=%.1fs' % (
        st, r['case'], r['param'], r['paths'], r['discharged'], r['obligations'], r['normalised'], r['confirmed'], r['margin'], r['queries'], r['solver_s'],
        r['validated'], r['wall']))
    for x in r['inconclusive']:
        print('      ?', x)
    for x in r['mismatch']:
        print('      mismatch', x)
    for v in r['violations']:
        print('      !', v['label'], v['detail'][-900:], str(v['values'])[:300])
    sys.stdout.flush()


def cross_check(results):
    """thorough tier: re-decide exported queries with cvc5"""
    try:
        import cvc5  # noqa
    except Exception:
        return None
    import subprocess
    n = ok = unk = dis = 0
    for r in results:
        for s in r['exports']:
            n += 1
            try:
                o = subprocess.run(['cvc5', '--tlimit=20000', '--nl-cov' if False else '--lang=smt2', '-q'], input=s, text=True, capture_output=True, timeout=40).stdout
            except Exception:
                unk += 1
                continue
            if 'unsat' in o:
                ok += 1
            elif 'sat' in o.split():
                dis += 1
            else:
                unk += 1
    return dict(queries=n, agreed=ok, undecided=unk, disagreed=dis)


def report(prop, results, tier, seed, t0, partial):
    pid = prop.pid
    known = [k for k in known_findings() if k.get('property') == pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    if os.environ.get('SV_NOEVIDENCE'):
        os.makedirs('/tmp/replays', exist_ok=True)
    viol, kn = [], []
    for r in results:
        for v in r['violations']:
            hit = [k for k in known if k.get('case') == r['case'] and k.get('label', v['label'].replace(' ', '_')) == v['label'].replace(' ', '_')]
            if hit:
                kn.append((hit[0], r, v))
            else:
                viol.append((r, v))
    inconc = [(r['case'], r['param'], x) for r in results for x in r['inconclusive']] + \
             [(r['case'], r['param'], 'encoding disagrees with the real code: %s' % m) for r in results for m in r['mismatch']]
    tot = lambda k: sum(r[k] for r in results)
    hits = sorted(set(h for r in results for h in r['hits']))
    cc = cross_check(results) if tier == 'thorough' else None
    if cc and cc['disagreed']:
        inconc.append(('cross-check', '', 'cvc5 disagrees on %d queries' % cc['disagreed']))
    samples = [s for r in results for s in r['samples']][:8]
    if not samples:
        samples = [dict(case=r['case'], param=r['param'], result='violated' if r['violations'] else 'no witness') for r in results][:4]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('paths'), paths_after_an_earlier_use_of_the_modules=tot('warm_paths'), obligations_of_those_left_undecided=tot('warm_open'), transitions=tot('forks'), traces_validated_against_impl=tot('validated'), samples=samples,
                            harnesses=[dict(case=r['case'], param=r['param'], paths=r['paths'], obligations=r['obligations'],
                                            discharged=r['discharged'], wall_s=r['wall']) for r in results],
                            functions_encoded=hits, bounds=prop.bounds, outside=prop.outside,
                            obligations_total=tot('obligations'), obligations_discharged=tot('discharged'),
                            syntactically_closed=tot('trivially'), equalities_closed_by_polynomial_normal_form=tot('normalised'),
                            normal_form_goals_confirmed_by_solver=tot('confirmed'), closed_up_to_rounding_margin=tot('margin'),
                            solver_queries=tot('queries'), solver_unsat=tot('unsat'), solver_sat=tot('sat'), solver_unknown=tot('unknown'),
                            solver_seconds=round(tot('solver_s'), 2), second_solver=cc,
                            inconclusive=[list(map(str, x)) for x in inconc][:20]),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not partial and not os.environ.get('SV_NOEVIDENCE'):
        tmp = os.path.join(HERE, 'evidence', pid + '.json')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d harness runs, %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, %d validated traces, wall %.1fs' % (
        pid, tier, len(results), tot('paths'), tot('discharged'), tot('obligations'), tot('queries'), tot('solver_s'), tot('validated'),
        time.time() - t0))
    for k, r, v in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text'].split(' ', 1)[1]))
    if viol:
        for n, (r, v) in enumerate(viol):
            path = os.path.join(HERE if not os.environ.get('SV_NOEVIDENCE') else '/tmp', 'replays', '%s-%s-%d.json' % (pid, r['case'], n))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, case=r['case'], param=r['param'], tier=tier, label=v['label'], detail=v['detail'], values=v['values'], earlier=v.get('earlier')),
                          f, indent=1, default=str)
            print('  case %s %s: %s: %s' % (r['case'], r['param'], v['label'], v['detail'][-600:]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if inconc:
        for x in (inconc[:12] if not os.environ.get('SV_TERSE') else []):
            print('INCONCLUSIVE', *x)
        # what was explored held; what was not is listed above and in the evidence.  No answer at all is exit 2.
        return 0 if tot('discharged') or tot('validated') else 2
    return 0


def do_replay(path):
    d = json.load(open(path))
    prop = load_prop(d['property'])
    for c in prop.cases:
        if c['name'] == d['case']:
            for prm in c['quick'] + c['thorough']:
                if repr(prm) == d['param']:
                    job = Job(d['property'], c['name'], c['fn'], prm, d['tier'], 60)
                    job.others += other_uses(prop, c, prm, d['tier'])
                    job.warm = d.get('earlier')
                    real = job.run_real(d['values'])
                    print('inputs:', d['values'])
                    print('failures:', real.failures, 'exception:', repr(real.exc), 'invalid:', real.invalid)
                    return 1 if real.failures or real.exc else 0
    print('case not found')
    return 2


if __name__ == '__main__':
    sys.exit(main())
