"""known_findings.jsonl: python3 meta/fixed.py  (hashes come from /repo's history)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # commit subject prefix -> property
    ('remove_nodes_from', 'C01'), ('d-separation', 'C03'), ('Meek rule', 'C06'), ('pdag2dag', 'C05'), ('data form', 'C07'),
    ('independence tests', 'C09'), ('kernel cache', 'C10'), ('polynomial kernel', 'C10'), ('modifying a returned', 'C10'),
    ('marginal likelihood', 'C11'), ('general marginal', 'C11'), ('local scores', 'C11'), ('BDeu', 'C11'), ('Score_G', 'C11'),
    ('get_performance', 'C13'), ('nonlinear simulator', 'C14'), ('post-nonlinear simulator', 'C14'), ('leaky_relu', 'C14'),
    ('function sequences', 'C14'), ('nonlinear time series', 'C15'), ('post-nonlinear time', 'C15'), ('random graph', 'C16'),
]
extra = os.path.join(ROOT, 'meta', 'fixed_more.json')
if os.path.exists(extra):
    PROP = [tuple(x) for x in json.load(open(extra))] + PROP
KNOWN = os.path.join(ROOT, 'meta', 'known.jsonl')
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
with open(os.path.join(ROOT, 'known_findings.jsonl'), 'w') as f:
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        p = [p for k, p in PROP if s.startswith(k)]
        assert p, s
        f.write(json.dumps(dict(status='fixed', property=p[0], commit=h, what=f'fixed: property={p[0]} {h} {s}')) + '\n')
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.strip():
                f.write(l)
