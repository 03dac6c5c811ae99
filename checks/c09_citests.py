"""C09: conditional independence answers: exact values, independent of history and form."""
from itertools import combinations, permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close
from checks.c03_dsep import FORMS, as_form

PROPERTY = 'C09'
TITLE = 'Independence tests answer by the variables alone: not by history, order or container'
ASSUMPTIONS = ['no duplicate variables in a query; data with non-degenerate correlation matrices; partial correlations '
               'compared within 1e-7']

# 'repeated' lists a variable twice, which a partial correlation cannot take
QFORMS = [f for f in FORMS if f != 'repeated']


def dataset(kind, nvar, rows):
    import numpy as np
    out = np.zeros((rows, nvar))
    for i in range(rows):
        for j in range(nvar):
            out[i, j] = ((i * (2 * j + 3) + (i * i * (j + 1)) * (kind + 1) + kind * 7) % (11 + 2 * j)) + 0.25 * ((i >> j) & 1)
    return out


def partial(data, x, y, z):
    """partial correlation from regression residuals, and its Fisher-z p-value."""
    import numpy as np
    from math import atanh, erfc, sqrt
    n = data.shape[0]
    X = np.column_stack([np.ones(n)] + [data[:, k] for k in z])
    rx = data[:, x] - X @ np.linalg.lstsq(X, data[:, x], rcond=None)[0]
    ry = data[:, y] - X @ np.linalg.lstsq(X, data[:, y], rcond=None)[0]
    r = float(rx @ ry / sqrt((rx @ rx) * (ry @ ry)))
    a = min(abs(r), 0.9999999)
    t = sqrt(n - len(z) - 3) * atanh(a)
    return erfc(t / sqrt(2)), r


def all_queries(n):
    out = []
    for x, y in permutations(range(n), 2):
        for z in ref.subsets([v for v in range(n) if v not in (x, y)]):
            out.append((x, y, z))
    return out


def maker(cls, nvar, names, data, par):
    from cdmir.utils.independence import Dsep, FisherZ
    if cls == 'fisherz':
        return lambda: FisherZ(data, names)
    g = impl.build_dag(par, names)
    return lambda: Dsep(data, names, true_graph=g)


def ask(t, how, x, y, z, names, form):
    if how == 'test':
        return t.test(names[x], names[y], as_form([names[v] for v in z], form))
    return t.itest(x, y, as_form(list(z), form))


def check_values(case, rec):
    """Fisher-z: every query on one object against the regression definition."""
    import numpy as np
    import pandas as pd
    from cdmir.utils.independence import FisherZ
    from cdmir.utils.independence.functional import fisherz
    kind, nvar, rows, style, frame = case
    data = dataset(kind, nvar, rows)
    names = impl.names_for(nvar, style)
    if frame == 0:
        t = FisherZ(data, names)
    elif frame == 1:
        t = FisherZ(pd.DataFrame(data, columns=names))
    elif frame == 2:
        t = FisherZ(pd.DataFrame(data, columns=['c%d' % i for i in range(nvar)]), names)
    else:            # the names are the positions when none are given
        names = list(range(nvar))
        t = FisherZ(data) if frame == 3 else FisherZ(pd.DataFrame(data))
    keep = data.copy()
    for k, (x, y, z) in enumerate(all_queries(nvar)):
        zz = list(z)
        r = (k // 3) % (len(zz) or 1)
        zz = zz[r:] + zz[:r]
        form = QFORMS[k % len(QFORMS)]
        how = 'test' if k % 2 else 'itest'
        p, s = ask(t, how, x, y, zz, names, form)
        wp, ws = partial(data, x, y, z)
        rec.step()
        if not (close(p, wp, 1e-6, 1e-7) and close(s, ws, 1e-7, 1e-7)):
            raise Violation(f'Fisher-z on data set {kind} ({rows}x{nvar}): {how}({x},{y}|{zz} as {form}) = ({p}, {s}), '
                            f'the partial correlation gives ({wp}, {ws})')
        if not z:
            p2, s2 = (t.test(names[x], names[y]) if how == 'test' else t.itest(x, y))
            if not (close(p2, wp, 1e-6, 1e-7) and close(s2, ws, 1e-7, 1e-7)):
                raise Violation(f'Fisher-z without a set ({p2}, {s2}) differs from the empty set ({wp}, {ws})')
            p3, s3 = fisherz(data[:, x], data[:, y])
        elif len(z) == 1 and k % 2:
            p3, s3 = fisherz(data[:, x], data[:, y], data[:, z[0]])
        else:
            p3, s3 = fisherz(data[:, x], data[:, y], data[:, zz])
        if not (close(p3, wp, 1e-6, 1e-7) and close(s3, ws, 1e-7, 1e-7)):
            raise Violation(f'the Fisher-z function on data set {kind}: ({x},{y}|{zz}) = ({p3}, {s3}), expected ({wp}, {ws})')
    if not (data == keep).all():
        raise Violation('testing changed the data')
    rec.state()
    rec.trace()
    rec.sample(dict(kind=kind, shape=[rows, nvar], queries=k + 1))


POINTS = [p for p in product((0, 1, 2), (0, 1, 2), (0, 1))]


def check_tiny(case, rec):
    """every small data set made of distinct grid points."""
    import numpy as np
    from cdmir.utils.independence import FisherZ
    for rows in case:
        data = np.array([POINTS[i] for i in rows], dtype=float)
        if np.any(data.std(axis=0) < 1e-9):
            continue
        if abs(np.linalg.det(np.corrcoef(data, rowvar=False))) < 1e-3:
            continue
        t = FisherZ(data)
        for x, y, z in all_queries(3):
            p, s = t.itest(x, y, z)
            wp, ws = partial(data, x, y, z)
            rec.step()
            if not (close(p, wp, 1e-6, 1e-7) and close(s, ws, 1e-7, 1e-7)):
                raise Violation(f'Fisher-z on {data.astype(int).tolist()}: ({x},{y}|{z}) = ({p}, {s}), expected ({wp}, {ws})')
        rec.state()
    rec.trace()


def same(a, b):
    return close(a[0], b[0], 1e-9, 1e-12) and close(a[1], b[1], 1e-9, 1e-12)


def check_history(case, rec):
    """one object, every history of two (three) queries with this first query."""
    cls, kind, style, first, third = case
    nvar = 4
    names = impl.names_for(nvar, style)
    data = dataset(kind, nvar, 14)
    par = ref.unlabelled_dags(4)[kind % len(ref.unlabelled_dags(4))]
    make = maker(cls, nvar, names, data, par)
    qs = all_queries(nvar)
    fresh = {}
    for k, (x, y, z) in enumerate(qs):
        fresh[k] = make().itest(x, y, list(z))
        back = fresh.get(qs.index((y, x, z)))
        if back is not None and not same(fresh[k], back):
            raise Violation(f'{cls}: swapping the variables changes the answer: ({x},{y}|{z}) {fresh[k]} vs {back}')
    a = qs[first]
    for k, q in enumerate(qs):
        h = k * 31 + first * 17
        t = make()
        rows = [first, k] + ([(h + j) % len(qs) for j in range(third)])
        for step, i in enumerate(rows):
            x, y, z = qs[i]
            zz = list(z)
            r = (h >> step) % (len(zz) or 1)
            zz = zz[r:] + zz[:r]
            form = QFORMS[(h + step) % len(QFORMS)]
            how = ('test', 'itest')[(h + step) % 2]
            got = ask(t, how, x, y, zz, names, form)
            rec.step()
            if not same(got, fresh[i]):
                raise Violation(f'{cls}: after {[qs[j] for j in rows[:step]]} the query {how}({x},{y}|{zz} as {form}) answers '
                                f'{got}; a new test object answers {fresh[i]}')
        rec.state()
    rec.trace()
    rec.sample(dict(test=cls, first=qs[first], histories=len(qs)))


def check_many(case, rec):
    """a user-defined test over many variables: every answer must be its own."""
    import numpy as np
    from cdmir.utils.independence import ConditionalIndependentTest
    nvar, style, order = case
    names = (list(range(nvar)) if style == 0 else [nvar - 1 - i for i in range(nvar)] if style == 1 else
             ['%d, %d' % (i, i + 1) for i in range(nvar)] if style == 2 else ['v%d' % (i * 7 % 97) for i in range(nvar)])

    class Mine(ConditionalIndependentTest):
        calls = 0

        def cal_stats(self, x_id, y_id, z_ids=None):
            type(self).calls += 1
            a, b = min(x_id, y_id), max(x_id, y_id)
            z = 0
            for v in sorted(z_ids or ()):
                z = z * 20 + v + 1
            return float((a * 20 + b) * 20 ** 7 + z), 0.0

    t = Mine(np.zeros((2, nvar)), names)
    qs = []
    for x, y in combinations(range(nvar), 2):
        rest = [v for v in range(nvar) if v not in (x, y)]
        for r in (0, 1, 2, 3) if nvar > 7 else range(nvar - 1):
            qs += [(x, y, z) for z in combinations(rest, r)]
    if order == 1:
        qs = qs[::-1]
    elif order == 2:
        qs = [(y, x, z[::-1]) for x, y, z in qs]
    for rnd in range(2):
        for k, (x, y, z) in enumerate(qs):
            a, b = min(x, y), max(x, y)
            code = 0
            for v in sorted(z):
                code = code * 20 + v + 1
            want = (float((a * 20 + b) * 20 ** 7 + code), 0.0)
            form = QFORMS[(k + rnd) % len(QFORMS)]
            got = ask(t, ('test', 'itest')[(k + rnd) % 2], x, y, z, names, form)
            rec.step()
            if tuple(got) != want:
                raise Violation(f'a user-defined test on {nvar} variables: the query ({x},{y}|{z}) was answered {got}, '
                                f'which is not the statistic {want} of that query')
    rec.state(len(qs))
    rec.trace()
    rec.sample(dict(variables=nvar, queries=len(qs), computed=Mine.calls))


def check_dsep(case, rec):
    """the graph-based test equals d-separation, by name and by index."""
    par, style, frame = case
    import numpy as np
    import pandas as pd
    from cdmir.utils.independence import Dsep
    par = tuple(par)
    n = len(par)
    names = impl.names_for(n, style)
    g = impl.build_dag(par, names)
    perm = list(range(n))
    if frame % 2:
        perm = perm[::-1]                    # column order differs from graph order
    cols = [names[i] for i in perm]
    data = np.zeros((3, n))
    t = Dsep(pd.DataFrame(data, columns=cols), true_graph=g) if frame >= 2 else Dsep(data, cols, true_graph=g)
    for k, (x, y, z) in enumerate(all_queries(n)):
        want = 1.0 if ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z)) else 0.0
        form = QFORMS[k % len(QFORMS)]
        a = t.test(names[x], names[y], as_form([names[v] for v in z], form))
        pos = {v: i for i, v in enumerate(perm)}
        b = t.itest(pos[x], pos[y], as_form([pos[v] for v in z], form))
        rec.step(2)
        if a[0] != want or b[0] != want:
            raise Violation(f'{impl.show(n, ref.parents_to_code(par), names)}: the graph test of ({names[x]!r},{names[y]!r}|'
                            f'{[names[v] for v in z]}) is {a[0]} by name, {b[0]} by index; expected {want}')
        if not z and t.test(names[x], names[y])[0] != want:
            raise Violation('without a set the answer differs from the empty set')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.utils.independence  # noqa
    import cdmir.utils.independence.functional  # noqa
    thorough = tier == 'thorough'
    vals = []
    for nvar in (2, 3, 4, 5):
        for kind in range(24 if thorough else 8):
            for rows in (nvar + 5, 23):
                k = kind + seed
                vals.append([k, nvar, rows, (kind + nvar) % 6, (kind + rows) % 5])
    if True:
        for kind in range(6 if thorough else 1):
            vals.append([kind + seed, 6, 30, kind % 6, kind % 3])
    tiny = [list(c) for c in combinations(range(18), 5)]
    if thorough:
        tiny += [list(c) for c in combinations(range(18), 6)]
    chunks = [tiny[i:i + 60] for i in range(0, len(tiny), 60)]
    nq = len(all_queries(4))
    hist = [['fisherz', seed % 6, 1, f, 4] for f in range(nq)]
    hist += [['dsep', (7 + seed * 5 + f) % 31, f % 6, f, 4] for f in range(nq)]
    if thorough:
        hist += [['fisherz', k + seed, k % 6, f, 12] for f in range(nq) for k in range(6)]
        hist += [['dsep', k, k % 6, f, 12] for f in range(nq) for k in range(31)]
    many = [[nv, s, o] for nv in (4, 5, 6, 7, 13) for s in range(4) for o in range(3)]
    dsep = [[p, (k + seed) % 6, (k + f) % 4] for n in (2, 3, 4) for k, p in enumerate(ref.dags(n)) for f in range(2)]
    return [Space('Fisher-z values', vals, check_values, note='every query on deterministic data sets of 2..5 variables, every form'),
            Space('tiny data sets', chunks, check_tiny, note='every non-degenerate data set of 5 distinct points of a 3x3x2 grid, all queries'),
            Space('histories', hist, check_history, note='every ordered pair of queries on 4 variables on one object, then more'),
            Space('many variables', many, check_many, note='every query on up to 7 variables, and with |Z| <= 3 on 13, on one object, twice'),
            Space('graph test', dsep, check_dsep, note='every DAG <= 4 nodes, every query, columns in another order than the nodes')]
