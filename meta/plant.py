"""Author tool for planted bugs (not a check).  python3 meta/plant.py SPECS.py [id ...]
SPECS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=python source, needs, breaks)].
Each bug is tried in a scratch copy of /repo: demo passes before, stable tests pass and demo fails after; only then it is
stored in /verif/seeded/<id>/.  Then the check of its property is run against the scratch copy (VERIF_REPO)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLCONFIGDIR='/tmp/seed/mpl')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(ENV, **kw.get('env', {})))


def one(b):
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp/seed')
    try:
        repo = w + '/repo'
        shutil.copytree(os.environ.get('PLANT_SRC', '/repo'), repo, symlinks=True)
        d = w + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        r = sh(f'bash {d}/demo.sh', repo)
        if r.returncode:
            return b['id'], 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-800:] + r.stderr[-1500:]
        for f, old, new in b['edits']:
            s = open(f'{repo}/{f}').read()
            if s.count(old) != 1:
                return b['id'], f'EDIT matches {s.count(old)} times in {f}: {old[:60]!r}'
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        r = sh(f'timeout 300 bash {d}/demo.sh', repo)
        if r.returncode == 0:
            return b['id'], 'DEMO PASSES WITH THE BUG'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if '--notest' not in sys.argv:
            r = sh('timeout 400 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --randomly-seed=0 '
                   '--randomly-dont-reorganize --continue-on-collection-errors --ignore=cdmir/tests/test_anm.py '
                   f'-o junit_family=xunit2 --junitxml={w}/j.xml; python3 /opt/vp/results.py {w}/o.json junit:{w}/j.xml', repo)
            if not os.path.exists(w + '/o.json'):
                return b['id'], 'TESTS HANG'
            o = json.load(open(w + '/o.json'))
            miss = STABLE - set(o['passed'])
            if miss:
                return b['id'], f'TESTS FAIL {sorted(miss)[:3]}'
        out = f'{ROOT}/seeded/{b["id"]}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.py', out)
        shutil.copy(d + '/demo.sh', out)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r = sh(f'VERIF_REPO={repo} bash run.sh {b["property"]} --tier quick', ROOT)
        res = {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'rc={r.returncode}')
        return b['id'], f'{res}; demo: {why}\n      ' + '\n      '.join(r.stdout.splitlines()[:2])[:500]
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    bugs = [b for b in ns['BUGS'] if not ids or b['id'] in ids]
    os.makedirs('/tmp/seed/mpl', exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for f in cf.as_completed([ex.submit(one, b) for b in bugs]):
            print('%s: %s' % f.result(), flush=True)
