"""C11: local scores: exact values, score equivalence, no dependence on history or container."""
from itertools import combinations, combinations_with_replacement, permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close
from checks.c03_dsep import FORMS, as_form

PROPERTY = 'C11'
TITLE = 'A local score is a function of the variable and its parent set only, and of the right value'
ASSUMPTIONS = ['parents are distinct and do not include the variable; at least two folds; continuous data without constant columns',
               'the marginal-likelihood scores maximise over the noise level only, at the fixed kernel widths of the code (relative accuracy 1e-5)']
QFORMS = [f for f in FORMS if f not in ('repeated', 'set', 'frozenset')] + ['set', 'frozenset', 'numpy', 'numpy-items']


def form_of(items, f):
    import numpy as np
    if f == 'numpy':
        return np.array(items, dtype=int)
    if f == 'numpy-items':
        return [np.int64(x) for x in items]
    return as_form(items, f)


def continuous(kind, rows, cols):
    import numpy as np
    out = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            out[i, j] = ((i * (2 * j + 3 + kind) + (i * i + kind) * (j + 1)) % (17 + 2 * j)) / 4.0 + 0.01 * ((i * (j + 2)) % 7) \
                + 0.003 * i
    return out


def discrete(kind, rows, cols):
    import numpy as np
    out = np.zeros((rows, cols), dtype=int)
    for i in range(rows):
        for j in range(cols):
            out[i, j] = (i * (j + 2 + kind) + (i // (j + 2)) * (kind + 1) + (i * i) % (j + 3)) % (2 + (j + kind) % 2)
    out[0, :] = 0
    out[1, :] = 1
    return out


# --------------------------------------------------------------- references
def ref_bic(data, i, pa, lam=1):
    import numpy as np
    n = len(data)
    y = data[:, i] - data[:, i].mean()
    if not pa:
        return 0.0
    X = data[:, pa] - data[:, pa].mean(axis=0)
    r = y - X @ np.linalg.lstsq(X, y, rcond=None)[0]
    return float(-(n * np.log((r @ r) / (y @ y)) + np.log(n) * len(pa) * lam))


def ref_bdeu(data, i, pa, ess=1, sp=1):
    from collections import Counter
    from math import lgamma, log
    n = len(data)
    card = [len(set(c)) for c in data.T.tolist()]
    q = 1
    for p in pa:
        q *= card[p]
    vm = n - 1
    s = len(pa) * log(sp / vm) + (vm - len(pa)) * log(1 - sp / vm)
    rows = data.tolist()
    nij = Counter(tuple(r[p] for p in pa) for r in rows)
    nijk = Counter((tuple(r[p] for p in pa), r[i]) for r in rows)
    for c in nij.values():
        s += lgamma(ess / q) - lgamma(c + ess / q)
    for c in nijk.values():
        s += lgamma(c + ess / (card[i] * q)) - lgamma(ess / (card[i] * q))
    return s


def med_width(A):
    import numpy as np
    d = ((A[:, None, :] - A[None, :, :]) ** 2).sum(axis=2)
    up = d[np.triu_indices(len(A), 1)]
    up = up[up > 1e-12]
    return np.sqrt(0.5 * np.median(up)), d


def centred(K):
    import numpy as np
    n = len(K)
    H = np.eye(n) - 1.0 / n
    return H @ K @ H


def ref_cv(data, cols_i, cols_pa, folds=10, lam=0.01, mult=2.0, per_dim=False):
    import numpy as np
    T = len(data)
    g = 0.01

    def gram(cols):
        A = data[:, cols]
        w, d = med_width(A)
        w = w * mult
        theta = 1.0 / (w ** 2 * (A.shape[1] if per_dim else 1))
        return np.exp(-d * theta / 2)

    Kx = centred(gram(cols_i))
    if cols_pa:
        Kp = np.ones((T, T))
        for c in cols_pa:
            Kp = Kp * gram(c)
        Kp = centred(Kp)
    n0 = T // folds
    total = 0.0
    for f in range(folds):
        te = np.arange(f * n0, T if f == folds - 1 else (f + 1) * n0)
        tr = np.setdiff1d(np.arange(T), te)
        nv, n1 = len(te), len(tr)
        Kte, Ktr, Kc = Kx[np.ix_(te, te)], Kx[np.ix_(tr, tr)], Kx[np.ix_(tr, te)]
        if cols_pa:
            P = np.linalg.inv(Kp[np.ix_(tr, tr)] + n1 * lam * np.eye(n1))
            W = P @ Kp[np.ix_(tr, te)]                        # regression weights
            res = Kte - 2 * Kc.T @ W + W.T @ Ktr @ W           # Gram matrix of the test residuals
            cross = Kc - Ktr @ W
            c = n1 * lam ** 2 / g
            B = np.eye(n1) + c * P @ Ktr @ P
            A = (res - c * cross.T @ P @ np.linalg.inv(B) @ P @ cross) / g
        else:
            B = np.eye(n1) + Ktr / (g * n1)
            A = (Kte - Kc.T @ np.linalg.inv(B) @ Kc / (g * n1)) / g
        total += (nv * nv * np.log(2 * np.pi) + nv * np.linalg.slogdet(B)[1] / 2 + np.trace(A)) / 2
    return float(-total / folds)


def ref_marginal(data, cols_i, cols_pa):
    """returns f(noise sd) -> log marginal likelihood of the fixed-width regression."""
    import numpy as np
    T = len(data)
    w, d = med_width(data[:, cols_i])
    K = centred(np.exp(-d / (2 * (2.5 * w) ** 2)))
    ev, V = np.linalg.eigh((K + K.T) / 2)
    order = np.argsort(-ev)[:min(400, T // 4)]
    ev, V = ev[order], V[:, order]
    keep = ev > ev.max() * 1e-5
    ev, V = ev[keep], V[:, keep]
    y = 2 * np.sqrt(T) * V * np.sqrt(ev) / np.sqrt(ev[0])
    Kp = np.zeros((T, T))
    for c in cols_pa:
        w, _ = med_width(data[:, c])
        d = ((data[:, c][:, None, :] - data[:, c][None, :, :]) ** 2).sum(axis=2)
        Kp = Kp + d / (2.5 * w) ** 2
    Kp = np.exp(-Kp / 2)
    m = y.shape[1]

    def ll(sd):
        C = Kp + sd ** 2 * np.eye(T)
        s, ld = np.linalg.slogdet(C)
        return float(-(0.5 * np.trace(y.T @ np.linalg.solve(C, y)) + m * ld / 2 + 0.5 * m * T * np.log(2 * np.pi)))

    return ll


def peak(f):
    """largest value of a likelihood over the noise level (scan, then golden section)."""
    from math import exp
    ts = [-7 + 0.25 * k for k in range(45)]
    vs = [f(exp(t)) for t in ts]
    k = vs.index(max(vs))
    lo, hi = ts[max(k - 1, 0)], ts[min(k + 1, len(ts) - 1)]
    r = 0.6180339887498949
    a, b = hi - r * (hi - lo), lo + r * (hi - lo)
    fa, fb = f(exp(a)), f(exp(b))
    for _ in range(30):
        if fa < fb:
            lo, a, fa = a, b, fb
            b = lo + r * (hi - lo)
            fb = f(exp(b))
        else:
            hi, b, fb = b, a, fa
            a = hi - r * (hi - lo)
            fa = f(exp(a))
    return max(fa, fb)


# -------------------------------------------------------------------- checks
LABELS = {0: [0, 1], 1: [2], 2: [3, 4], 3: [5]}


def build(name, data, frame):
    import pandas as pd
    from cdmir.utils import local_score as L
    arg = pd.DataFrame(data, columns=['c%d' % k for k in range(data.shape[1])]) if frame else data
    if name == 'bic':
        return L.BICScore(arg)
    if name == 'bic2':
        return L.BICScore(arg, lambda_value=2)
    if name == 'bdeu':
        return L.BDeuScore(arg)
    if name == 'bdeu5':
        return L.BDeuScore(arg, sample_prior=5, structure_prior=2)
    if name == 'cv':
        return L.GeneralCVScore(arg, k_fold=3)
    if name == 'cv10':
        return L.GeneralCVScore(arg, lambda_value=0.05)
    if name == 'mcv':
        return L.MultiCVScore(arg, k_fold=3)
    if name == 'mcvd':
        return L.MultiCVScore(arg, k_fold=4, d_label=LABELS)
    if name == 'marg':
        return L.GeneralMarginalScore(arg)
    if name == 'mmarg':
        return L.MultiMarginalScore(arg)
    return L.MultiMarginalScore(arg, d_label=LABELS)


def data_for(name, kind, rows):
    if name.startswith('bdeu'):
        return discrete(kind, rows, 4)
    return continuous(kind, rows, 6 if name in ('mcvd', 'mmargd') else 4)


def reference(name, data, i, pa):
    c = lambda v: LABELS[v] if name in ('mcvd', 'mmargd') else [v]
    if name == 'bic':
        return ref_bic(data, i, pa)
    if name == 'bic2':
        return ref_bic(data, i, pa, 2)
    if name == 'bdeu':
        return ref_bdeu(data, i, pa)
    if name == 'bdeu5':
        return ref_bdeu(data, i, pa, 5, 2)
    if name == 'cv':
        return ref_cv(data, c(i), [c(p) for p in pa], 3)
    if name == 'cv10':
        return ref_cv(data, c(i), [c(p) for p in pa], 10, 0.05)
    if name in ('mcv', 'mcvd'):
        return ref_cv(data, c(i), [c(p) for p in pa], 3 if name == 'mcv' else 4, 0.01, 3.0, True)
    return ref_marginal(data, c(i), [c(p) for p in pa])


def check_values(case, rec):
    import numpy as np
    name, kind, rows, frame = case
    data = data_for(name, kind, rows)
    s = build(name, data.copy(), frame)
    k = kind
    for i in range(4):
        for pa in ref.subsets([v for v in range(4) if v != i]):
            for order in permutations(pa):
                k += 1
                f = QFORMS[k % len(QFORMS)]
                got = float(s(i, form_of(list(order), f)))
                rec.step()
                want = reference(name, data, i, list(pa))
                if callable(want):
                    best = peak(want)
                    if abs(got - best) > 1e-5 * abs(best) + 1e-3:
                        raise Violation(f'{name} on data {kind} ({rows} rows): score({i}|{order} as {f}) = {got}, the largest log likelihood '
                                        f'over the noise level is {best}')
                elif not close(got, want, 1e-6, 1e-6):
                    raise Violation(f'{name} on data {kind} ({rows} rows): score({i}|{order} as {f}) = {got}, expected {want}')
    rec.state()
    rec.trace()
    rec.sample(dict(score=name, data=kind, rows=rows))


CELLS = [p for p in product((0, 1), (0, 1), (0, 1, 2))]
LEVELS = [(0, 1, 2), (5, -2, 7), (1, 2, 3), (-1, 0, 10)]


def check_tiny(case, rec):
    """every small data set: all records over a few cells (multisets for counts, sets for moments)."""
    import numpy as np
    name, style, chunk = case
    for rows in chunk:
        data = np.array([CELLS[k] for k in rows])
        if name == 'bdeu':
            data = np.array(LEVELS[style])[data] if style % 2 else np.array(LEVELS[style])[data].astype(float)
        else:
            data = data.astype(float) * (1 + style) + 10 * style
            if np.any(data.std(axis=0) < 1e-9) or abs(np.linalg.det(np.corrcoef(data, rowvar=False))) < 1e-3:
                continue
        s = build(name, data.copy(), len(rows) % 2)
        for i in range(3):
            for pa in ref.subsets([v for v in range(3) if v != i]):
                got = float(s(i, list(pa)))
                rec.step()
                want = reference(name, data, i, list(pa))
                if not close(got, want, 1e-6, 1e-6):
                    raise Violation(f'{name} on {data.tolist()}: score({i}|{pa}) = {got}, expected {want}')
        rec.state()
    rec.trace()


def check_sparse(case, rec):
    """more parent configurations than records, many levels."""
    import numpy as np
    name, kind, rows, cols = case
    data = np.array([[(i * (j + 2 + kind) + i * i * (j + 1) + (i // 2) * kind) % (2 + (j + kind) % 4) for j in range(cols)]
                     for i in range(rows)])
    s = build(name, data.copy(), kind % 2)
    for i in range(cols):
        for pa in ref.subsets([v for v in range(cols) if v != i]):
            got = float(s(i, list(pa)))
            rec.step()
            want = reference(name, data, i, list(pa))
            if not close(got, want, 1e-6, 1e-6):
                raise Violation(f'{name} on {data.tolist()}: score({i}|{pa}) = {got}, expected {want}')
    rec.state()
    rec.trace()


def check_history(case, rec):
    """every ordered pair of calls on one object, and both again afterwards."""
    name, kind, first, seed = case
    data = data_for(name, kind, 16 if not name.startswith('bdeu') else 24)
    nv = 3
    qs = [(i, o) for i in range(nv) for pa in ref.subsets([v for v in range(nv) if v != i]) for o in permutations(pa)]
    fresh = {}
    for i, o in qs:
        fresh[(i, o)] = float(build(name, data.copy(), 0)(i, list(o)))
        base = fresh[(i, tuple(sorted(o)))] if tuple(sorted(o)) != o else fresh[(i, o)]
        if not close(fresh[(i, o)], base, 1e-7, 1e-7):
            raise Violation(f'{name} on data {kind}: the order of the parents matters: {i}|{o} {fresh[(i, o)]} vs {base}')
    a = qs[first]
    for k, b in enumerate(qs):
        keep = data.copy()
        s = build(name, keep, 0)
        hist = []
        for step, (i, o) in enumerate((a, b, a, b)):
            # consecutive one-shot iterators often share an address: use them most
            f = ['generator', QFORMS[(k + first + seed + step) % len(QFORMS)], 'iterator', 'generator'][(step + k // 2) % 4]
            got = float(s(i, form_of(list(o), f)))
            rec.step()
            hist.append((i, o, f))
            if not close(got, fresh[(i, o)], 1e-7, 1e-7):
                raise Violation(f'{name}: after {hist[:-1]} the score of {i} given {o} (as {f}) is {got}; '
                                f'a new object gives {fresh[(i, o)]}')
        if not (keep == data).all():
            raise Violation('scoring changed the data')
        rec.state()
    rec.trace()


def total(s, par):
    return sum(float(s(v, ref.bits(par[v]))) for v in range(len(par)))


def check_equivalent(case, rec):
    """score equivalence: Markov equivalent DAGs score the same; and a DAG's score via the graph helper."""
    from cdmir.discovery.score_based.greedy_equivalence_search import Score_G
    name, kind, n, style = case
    rows = 30
    data = (discrete if name.startswith('bdeu') else continuous)(kind, rows, n)
    s = build(name, data, 0)
    for members in ref.mec_table(n).values():
        base = total(s, members[0])
        for k, par in enumerate(members):
            t = total(s, par)
            rec.step()
            if not close(t, base, 1e-7, 1e-6):
                raise Violation(f'{name} on data {kind}: equivalent DAGs {impl.show(n, ref.parents_to_code(members[0]))} and '
                                f'{impl.show(n, ref.parents_to_code(par))} score {base} and {t}')
            names = impl.names_for(n, style + k)
            g = impl.build_dag(par, names)
            got = float(Score_G(g, s))
            if not close(got, t, 1e-9, 1e-7):
                raise Violation(f'{name}: the score of the graph {impl.show(n, ref.parents_to_code(par), names)} is {got}, '
                                f'the sum of its local scores is {t}')
        rec.state()
    rec.trace()
    rec.sample(dict(score=name, classes=len(ref.mec_table(n))))


def spaces(tier, seed):
    import cdmir.utils.local_score  # noqa
    import cdmir.discovery.score_based.greedy_equivalence_search  # noqa
    thorough = tier == 'thorough'
    names = ['bic', 'bic2', 'bdeu', 'bdeu5', 'cv', 'cv10', 'mcv', 'mcvd', 'marg', 'mmarg', 'mmargd']
    vals = []
    for k, nm in enumerate(names):
        for kind in range((12 if thorough else 3)):
            for rows in ((24, 31) if nm != 'cv10' else (31, 40)) + ((9, 14) if 'marg' in nm else ()):
                vals.append([nm, kind + seed, rows, (kind + rows + k) % 2])
    hist = []
    for nm in names:
        for first in range(15):
            for kind in range(3 if thorough else 1):
                hist.append([nm, kind + seed, first, seed])
    eq = []
    for nm in ('bic', 'bic2', 'bdeu', 'bdeu5'):
        for n in (2, 3, 4):
            for kind in range(6 if thorough else 2):
                eq.append([nm, kind + seed, n, kind])
    multi = [list(c) for r in ((3, 4) if thorough else (4,)) for c in combinations_with_replacement(range(len(CELLS)), r)]
    sets = [list(c) for r in ((5, 6, 7) if thorough else (5, 6)) for c in combinations(range(len(CELLS)), r)]
    tiny = [['bdeu', (k + seed) % 4, multi[lo:lo + 30]] for k, lo in enumerate(range(0, len(multi), 30))]
    tiny += [['bic', (k + seed) % 4, sets[lo:lo + 60]] for k, lo in enumerate(range(0, len(sets), 60))]
    sparse = [[nm, kind + seed, rows, 4 + (kind % 2)] for nm in ('bdeu', 'bdeu5') for kind in range(12 if thorough else 4)
              for rows in (4, 6, 9, 13)]
    return [Space('tiny data sets', tiny, check_tiny, chunk=1, limit=300,
                  note='BDeu on every multiset of 4 records over 2x2x3 cells; BIC on every set of 5 or 6 records; every query'),
            Space('sparse data', sparse, check_sparse, chunk=1, limit=300,
                  note='4 or 5 variables with up to 5 levels, fewer records than parent configurations; every query'),
            Space('score values', vals, check_values, chunk=1, limit=200,
                  note='every variable x every ordered parent set of 4 variables x containers, against the formulas'),
            Space('score histories', hist, check_history, chunk=1, limit=200,
                  note='every ordered pair of calls on 3 variables, one-shot iterators included'),
            Space('score equivalence', eq, check_equivalent, chunk=1, limit=200,
                  note='every pair of Markov equivalent DAGs on <= 4 nodes')]
