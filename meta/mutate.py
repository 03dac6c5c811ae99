"""Author tool (not a check): small syntactic changes of one source file, each run against the check of a property.
python3 meta/mutate.py CNN cdmir/file.py [first-last] [--tier quick] [--every K]   prints the changes no check notices."""
import ast
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def muts(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            for m in ast.walk(n.body[0]):
                skip.add(id(m))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    for m in ast.walk(a.annotation):
                        skip.add(id(m))
            if n.returns is not None:
                for m in ast.walk(n.returns):
                    skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'tqdm'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logging', 'warnings', 'time'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Assert) and n.msg is not None:
            for m in ast.walk(n.msg):
                skip.add(id(m))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and 'main' in ast.dump(n.test) and '__name__' in ast.dump(n.test):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.FunctionDef) and (n.name in ('main',) or n.name.startswith(('test_', 'run_'))):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id in ('verbose', 'debug', 'is_cuda'):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []

    def put(n, new):
        a, b = span(n)
        old = raw[a:b]
        if isinstance(new, ast.AST):
            new = ast.unparse(new)
            if isinstance(n, ast.expr) and not isinstance(n, (ast.Constant, ast.Name)):
                new = '(' + new + ')'
        t = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((n.lineno, old.decode()[:90].replace('\n', ' '), new[:90].replace('\n', ' '), t))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    ops = list(n.ops)
                    ops[k] = CMP[type(o)]()
                    put(n, ast.Compare(n.left, ops, n.comparators))
        elif isinstance(n, ast.BoolOp):
            put(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values))
            for k in range(len(n.values)):
                v = n.values[:k] + n.values[k + 1:]
                put(n, v[0] if len(v) == 1 else ast.BoolOp(n.op, v))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, n.operand)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, ast.BinOp(n.left, BIN[type(n.op)](), n.right))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                put(n, n.left)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, ast.Constant(not n.value))
            elif isinstance(n.value, int):
                put(n, ast.Constant(n.value + 1))
                if n.value > 0:
                    put(n, ast.Constant(n.value - 1))
            elif isinstance(n.value, float):
                put(n, ast.Constant(n.value * 1.5 + (0.1 if n.value == 0 else 0)))
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, ast.Constant(False))
            if isinstance(n, ast.If):
                put(n.test, ast.Constant(True))
        elif isinstance(n, ast.IfExp):
            put(n, n.body)
            put(n, n.orelse)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'sort', 'ravel', 'flatten') and not n.args and isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                put(n, f.value)
            if isinstance(f, ast.Name) and f.id in ('deepcopy', 'sorted', 'list', 'abs', 'set', 'tuple', 'sqrt', 'float') and n.args:
                put(n, n.args[0])
            if isinstance(f, ast.Attribute) and f.attr in ('deepcopy', 'abs', 'sqrt', 'exp', 'log', 'array', 'sort', 'unique') and n.args:
                put(n, n.args[0])
            if (getattr(f, 'attr', None) or getattr(f, 'id', None)) not in ('is_connected', 'is_fully_undirected', 'remove_edge', 'isinstance', 'combinations', 'getattr', 'hasattr', 'max', 'min') and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                put(n, ast.Call(f, [n.args[1], n.args[0]] + n.args[2:], n.keywords))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg == 'verbose':
                    continue
                put(n, ast.Call(f, n.args, n.keywords[:k] + n.keywords[k + 1:]))
        elif isinstance(n, ast.Slice):
            for side in ('lower', 'upper'):
                if getattr(n, side) is not None:
                    m = ast.Slice(n.lower, n.upper, n.step)
                    setattr(m, side, None)
                    a, b = span(n)
                    put(n, ast.unparse(m))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, n.value)
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant)):
            put(n, 'pass')
        elif isinstance(n, ast.Continue):
            put(n, 'break')
            put(n, 'pass')
        elif isinstance(n, ast.Break):
            put(n, 'pass')
    seen, res = set(), []
    for m in sorted(out, key=lambda m: m[0]):
        if m[3] not in seen:
            seen.add(m[3])
            res.append(m)
    return res


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    props, file = a[0].split(','), a[1]
    src = open(os.path.join(os.environ.get('PLANT_SRC', '/repo'), file)).read()
    ms = muts(src)
    if len(a) > 2:
        lo, hi = map(int, a[2].split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    ev = [int(x[8:]) for x in sys.argv if x.startswith('--every=')]
    if ev:
        ms = ms[::ev[0]]
    jobs = int(os.environ.get('PLANT_JOBS', '3'))
    tl = threading.local()
    made = []

    def one(m):
        if not hasattr(tl, 'd'):
            tl.d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
            made.append(tl.d)
            shutil.copytree(os.environ.get('PLANT_SRC', '/repo'), tl.d + '/repo', symlinks=True)
        with open(f'{tl.d}/repo/{file}', 'wb') as f:
            f.write(m[3])
        res = []
        for p in props:
            r = subprocess.run(f'VERIF_REPO={tl.d}/repo timeout 600 bash run.sh {p} --tier quick', cwd=ROOT, shell=True, capture_output=True, text=True,
                               env=dict(os.environ, TMPDIR=tl.d))
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return None
            if r.returncode != 0:
                res.append(f'{p} rc={r.returncode}')
        return res
    n = 0
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            for m, r in zip(ms, ex.map(one, ms)):
                if r is None:
                    n += 1
                else:
                    print(f'{file}:{m[0]}: {m[1]}  ->  {m[2]}  {r or ""}', flush=True)
    finally:
        for d in made:
            shutil.rmtree(d)
    print(f'{file} {",".join(props)}: {n} of {len(ms)} noticed', flush=True)


main()
