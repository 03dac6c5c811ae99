"""Author tool (not a check): behaviour-preserving rewrites of /repo on which the checks have to stay quiet.
python3 meta/refactor.py SPECS.py [id ...]   with REFS = [dict(id, checks=[...], edits=[(file, old, new)])].
Each rewrite is applied in a scratch copy and the listed quick checks are run against it (VERIF_REPO); anything but exit 0 is shown."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    w = tempfile.mkdtemp(prefix='refactor.')
    out = []
    try:
        repo = w + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in b['edits']:
            s = open(f'{repo}/{f}').read()
            if s.count(old) < 1:
                return b['id'], [f'EDIT does not match in {f}: {old[:60]!r}']
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        for c in b['checks']:
            r = subprocess.run(['bash', 'run.sh', c], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_VERBOSE='1', MPLBACKEND='Agg'))
            if r.returncode:
                out.append(f'{c} exit {r.returncode}\n' + '\n'.join((r.stdout + r.stderr).splitlines()[-12:]))
    finally:
        shutil.rmtree(w)
    return b['id'], out


ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
todo = [b for b in ns['REFS'] if not want or b['id'] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '3'))) as ex:
    for ident, out in ex.map(one, todo):
        print(ident, 'quiet' if not out else 'ALARM', flush=True)
        for o in out:
            print('   ', o)
