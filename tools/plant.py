"""plants a bug: python3 tools/plant.py SPEC.py  (SPEC: id, property, edits=[(file, old, new)], needs, breaks, demo=python text)
Validates it in a scratch worktree (parses, stable tests pass, demo passes without and fails with it) and writes seeded/<id>/.
With --check also runs the property's quick check against the patched copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', PROJ_NETWORK='OFF')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def tests(wt):
    r = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', 'tests/tests', '-q', '-p', 'no:cacheprovider', '-n', '4', '--timeout=300'], cwd=wt,
                       env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1]


def main():
    specs = runpy.run_path(sys.argv[1])['SPECS']
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    base = None
    for s in specs:
        if only and s['id'] not in only:
            continue
        wt = tempfile.mkdtemp(prefix='seed')
        os.rmdir(wt)
        try:
            subprocess.run(['git', '-C', '/tmp/dev', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
            d = os.path.join(HERE, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            run = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
            r0 = run()
            for f, old, new in s['edits']:
                t = open(os.path.join(wt, f)).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(os.path.join(wt, f), 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r1 = run()
            t = tests(wt)
            ok = r0.returncode == 0 and r1.returncode != 0 and '36 passed' in t
            print(s['id'], 'VALID' if ok else 'INVALID', 'clean=%d patched=%d tests=%s' % (r0.returncode, r1.returncode, t))
            if not ok:
                print(r0.stdout[-500:], r0.stderr[-1500:], r1.stderr[-800:])
                shutil.rmtree(d)
                continue
            if '--check' in sys.argv:
                c = subprocess.run(['python3', 'run.py', s['property']], cwd=HERE, env=dict(os.environ, SV_REPO=wt, SV_TERSE='1'), capture_output=True, text=True)
                v = [x for x in c.stdout.splitlines() if x.startswith('VIOLATION')]
                print('   check exit', c.returncode, v[:1] or c.stdout[-300:])
        finally:
            subprocess.run(['git', '-C', '/tmp/dev', 'worktree', 'remove', '--force', wt])


main()
