"""C20: ICA-LiNGAM on data whose noise is exactly independent."""
from itertools import permutations, product

from mc import ref
from mc.core import Space, Violation, close
from checks.c16_random import acyclic

PROPERTY = 'C20'
TITLE = 'ICA-LiNGAM recovers every linear non-Gaussian model in any variable order'
ASSUMPTIONS = ['noise is a full factorial design over symmetric sub-Gaussian levels, so it is exactly independent in the sample',
               'independent component analysis depends on its random start: recovery is required from one of six starts, every other '
               'requirement from each of them']
LEVELS = {'grid5': [-1, -.5, 0, .5, 1], 'four': [-1, 1, .3, -.3], 'two': [-1, 1], 'grid7': [-3, -2, -1, 0, 1, 2, 3]}
WEIGHTS = (.8, -.6, .9, -1.2, .7, 1.1, -.5)


def module():
    import importlib
    return importlib.import_module('cdmir.discovery.funtional_based.lingam_based.ica_lingam')


def model(n, g, level, shift):
    """weights B (B[v, u] for u -> v) and the data."""
    import numpy as np
    N = np.array(list(product(LEVELS[level], repeat=n)), dtype=float) * np.array([1, .7, 1.6, 1.2, .9])[:n]
    B = np.zeros((n, n))
    for q, (u, v) in enumerate(e[:2] for e in ref.edges_of(g)):
        B[v, u] = WEIGHTS[(q + shift) % 7]
    X = np.linalg.solve(np.eye(n) - B, N.T).T + shift % 3 * np.arange(n)
    return B, X


def fit(X, alpha, seed):
    import numpy as np
    m = module().ICA_LINGAM(wald_alpha=alpha)
    np.random.seed(seed)
    m.fit(X)
    return m


def check_result(m, X, alpha, txt):
    """what holds for every result: a DAG with the regression coefficients of its own parents."""
    import numpy as np
    C, G = m.get_coef(), m.get_causal_graph()
    n = X.shape[1]
    if C.shape != (n, n) or G.shape != (n, n) or not ((C != 0) == (G == 1)).all() or not np.isin(G, (0, 1)).all():
        raise Violation(f'{txt}: coefficients {C.tolist()} and graph {np.asarray(G).tolist()} do not belong together')
    if not acyclic(G.T.tolist()):
        raise Violation(f'{txt}: graph {G.tolist()} is cyclic')
    Z = X - X.mean(axis=0)
    for v in range(n):
        pa = np.flatnonzero(G[v])
        if len(pa):
            b = np.linalg.lstsq(Z[:, pa], Z[:, v], rcond=None)[0]
            if not close(C[v, pa], b, 1e-6, 1e-8):
                raise Violation(f'{txt}: coefficients of variable {v} on {pa.tolist()} are {C[v, pa].tolist()}, regression gives {b.tolist()}')
    return C, G


def check_recovery(case, rec):
    import numpy as np
    n, group, level = case
    for code, shift in group:
        g = tuple(code)
        B, X = model(n, g, level, shift)
        keep = X.copy()
        txt = f'ICA-LiNGAM on noise {level} with weights {B.tolist()}'
        ok = False
        for seed in range(6):
            C, G = check_result(fit(X, 1.0, seed), X, 1.0, txt + f', start {seed}, wald_alpha 1')
            if not (X == keep).all():
                raise Violation(f'{txt}: the data were changed')
            rec.step()
            if close(C, B, 1e-6, 1e-6):
                ok = True
                break
        if not ok:
            raise Violation(f'{txt}: coefficients {np.round(C, 4).tolist()} from the last of six starts (wald_alpha 1)')
        rec.state()
    rec.trace()


def check_alpha(case, rec):
    """graphs grow with wald_alpha; forms of data; refits."""
    import numpy as np
    import pandas as pd
    n, group, level = case
    M = module()
    for code, shift in group:
        g = tuple(code)
        B, X = model(n, g, level, shift)
        txt = f'ICA-LiNGAM on noise {level} with weights {B.tolist()}'
        last = None
        big = None
        for alpha in (1.0, 0.9, 0.5, 0.2, 0.05, 0.01, 1e-4):
            m = fit(X, alpha, shift)
            C, G = check_result(m, X, alpha, txt + f', wald_alpha {alpha}')
            # an edge is kept only if its Wald p-value does not exceed wald_alpha: nested graphs
            if last is not None and (G > last).any():
                raise Violation(f'{txt}: wald_alpha {alpha} keeps edges {G.tolist()} that a larger one drops {last.tolist()}')
            if big is None:
                big = G
            last = G
            rec.step()
            if alpha in (0.5, 0.05):
                df = pd.DataFrame(X, columns=[f'v{(3 * i) % 7}' for i in range(n)], index=np.arange(len(X))[::-1])
                m2 = fit(df, alpha, shift)
                if not (m2.get_coef() == C).all() or not (m2.get_causal_graph() == G).all():
                    raise Violation(f'{txt}: a DataFrame gives {m2.get_coef().tolist()}, the array {C.tolist()}')
                # an object fitted before gives the same result
                np.random.seed(3)
                other = model(n, ref.dags(n)[(shift * 7 + 1) % len(ref.dags(n))], level, shift + 1)[1]
                m2.fit(other)
                np.random.seed(shift)
                m2.fit(X)
                if not (m2.get_coef() == C).all() or not (m2.get_causal_graph() == G).all():
                    raise Violation(f'{txt}: a second fit gives {m2.get_coef().tolist()}, a new object {C.tolist()}')
                rec.step(3)
        default = M.ICA_LINGAM()
        np.random.seed(shift)
        default.fit(X)
        if not (default.get_coef() == fit(X, 0.05, shift).get_coef()).all():
            raise Violation(f'{txt}: the default is not wald_alpha 0.05')
        # with the edge p-values of the test itself: pruning is exactly p > alpha
        rec.state()
    rec.trace()


def check_prune(case, rec):
    """wald_prune(X, W, B, alpha) sets exactly the entries with p > alpha to zero, for every alpha at and between the p-values."""
    import numpy as np
    n, code, level = case
    M = module()
    g = tuple(code)
    B, X = model(n, g, level, 1)
    W, _ = unmixing(B, X)
    P = M.calcwald(X.T, W)
    full = np.arange(1., n * n + 1).reshape(n, n)
    al = sorted(set(P.ravel().tolist()))
    for a in [0.0] + al + [(x + y) / 2 for x, y in zip(al, al[1:])] + [1.0]:
        R = M.wald_prune(X.T, W, full.copy(), a)
        want = np.where(P > a, 0, full)
        if not (R == want).all():
            raise Violation(f'wald_prune at {a} with p-values {P.tolist()}: {R.tolist()}')
        rec.step()
    rec.state()
    rec.trace()


def unmixing(B, X):
    """rows scaled to unit variance, as independent component analysis delivers them."""
    import numpy as np
    W = np.eye(len(B)) - B
    sd = (X @ W.T).std(axis=0, ddof=1)
    return W / sd[:, None], sd


def wald_reference(X, W, wrong=False):
    """p-values of the Wald test of Shimizu et al.: asymptotic covariance of the symmetric FastICA estimate with tanh.
    wrong=True: what the released code computes (scalar products for outer products, variances of the transpose, no centring)."""
    import numpy as np
    from scipy.stats import chi2
    T, n = X.shape
    C = np.cov(X.T)
    if not wrong:
        X = X - X.mean(axis=0)
    ev, U = np.linalg.eigh(C)
    V = U @ np.diag(ev ** -.5) @ U.T
    Z = X @ V.T
    Wt = np.linalg.inv(V.T) @ W.T            # y = Wt' z
    Y = Z @ Wt
    g = np.tanh(Y)
    f = np.zeros((T, n, n))                  # f[t, i, k]: component k of the equations of row i
    for i in range(n):
        for k in range(n):
            f[:, i, k] = (Y * Y).sum(axis=1) - (i == k) if wrong else Y[:, k] * Y[:, i] - (i == k) + Y[:, k] * g[:, i] - g[:, k] * Y[:, i]
    f = f.reshape(T, n * n)
    cov = f.T @ f / T
    Q = np.zeros((n, n, n, n))               # Q[i, k, j, l] = d f[i, k] / d Wt[l, j]
    d = 1 - g ** 2
    for i in range(n):
        for k in range(n):
            if i == k:
                Q[i, k, i] = 2 * Wt[:, i]
            else:
                Q[i, k, i] += (1 - (Y[:, k] * g[:, k]).mean() + d[:, i].mean()) * Wt[:, k]
                Q[i, k, k] += (1 - d[:, k].mean() + (Y[:, i] * g[:, i]).mean()) * Wt[:, i]
    Qi = np.linalg.pinv(Q.reshape(n * n, n * n))
    A = Qi @ cov @ Qi.T / T
    G = np.kron(np.eye(n), V.T)
    av = np.diag(G @ A @ G.T).reshape(n, n)  # [row of W, column of W]
    if wrong:
        av = av.T
    return 1 - chi2.cdf(W ** 2 / av, 1)


def check_wald(case, rec):
    import numpy as np
    n, code, level, shift = case
    g = tuple(code)
    B, _ = model(n, g, 'two', shift)
    t = np.arange(1, level + 1)[:, None]     # noise that is only nearly independent: no degenerate variances
    N = (t * np.sqrt(np.array([2, 3, 5, 7, 11, 13])[:n]) + shift / 7) % 1 + 0.2 * ((t * np.arange(3, 3 + n)) % 5)
    X = np.linalg.solve(np.eye(n) - B, N.T).T
    W, _ = unmixing(B, X)
    P = module().calcwald(X.T, W)
    rec.step()
    if close(P, wald_reference(X, W), 1e-5, 1e-7):
        pass
    elif close(P, wald_reference(X, W, wrong=True), 1e-5, 1e-7):
        rec.known(f'calcwald: {P.tolist()}, the Wald test gives {wald_reference(X, W).tolist()}', 'wald-covariance')
    else:
        raise Violation(f'calcwald for weights {B.tolist()}, {level} points: {P.tolist()}, the Wald test gives {wald_reference(X, W).tolist()}')
    rec.state()
    rec.trace()


def check_perms(case, rec):
    import numpy as np
    n = case
    P = module().find_all_P(n)
    want = {tuple(map(tuple, np.eye(n, dtype=int)[list(p)].tolist())) for p in permutations(range(n))}
    got = [tuple(map(tuple, p.tolist())) for p in P]
    if len(got) != len(want) or set(got) != want:
        raise Violation(f'find_all_P({n}) gives {len(got)} matrices, {len(set(got) & want)} of the {len(want)} permutation matrices')
    rec.step()
    rec.state()
    rec.trace()


def check_w_wave(case, rec):
    import numpy as np
    n, group = case
    pat = np.array([[1, .7, -.5, .2], [1.3, -.4, .9, -1.1], [-.8, .6, .3, 1.2], [.4, -1.4, .8, -.2]])[:n, :n]
    f = module().find_W_wave
    for cells in group:
        W = np.array(cells, dtype=float).reshape(n, n) * pat
        if abs(np.linalg.det(W)) < 1e-3:
            continue
        keep = W.copy()
        with np.errstate(all='ignore'):
            R = np.asarray(f(W))
            score = {p: (1 / np.abs(np.diag(W[list(p)]))).sum() for p in permutations(range(n))}
            if not (W == keep).all():
                raise Violation('find_W_wave changes its argument')
            mine = [p for p in score if R.shape == W.shape and (R == W[list(p)]).all()]
            best = min(score.values())
            if not mine or not min(score[p] for p in mine) <= best * (1 + 1e-9):
                raise Violation(f'find_W_wave of {W.tolist()} gives {R.tolist()}: rows must be permuted so that the sum of 1/|diagonal| is {best}')
        rec.state()
        rec.step()
    rec.trace()


class Stub:
    """the environment's answer in place of independent component analysis."""
    W = None
    used = 0

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y=None):
        import numpy as np
        Stub.used += 1
        self.components_ = Stub.W.copy()
        self.mixing_ = np.linalg.inv(Stub.W)
        self.mean_ = np.asarray(X, dtype=float).mean(axis=0)
        self.n_iter_ = 1
        return self

    def transform(self, X):
        return (X - self.mean_) @ self.components_.T

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def with_stub(X, W, alpha):
    import sklearn.decomposition as d
    M = module()
    if not hasattr(M, 'FastICA'):
        return None
    old = M.FastICA, d.FastICA
    M.FastICA = d.FastICA = Stub
    Stub.W, Stub.used = W, 0
    try:
        m = M.ICA_LINGAM(wald_alpha=alpha)
        m.fit(X)
    finally:
        M.FastICA, d.FastICA = old
    return m if Stub.used else None


def check_pipeline(case, rec):
    """everything after the component analysis, for every answer it can give."""
    import numpy as np
    n, group, exact, k = case
    pat = np.array([[1, .7, -.5, .2], [1.3, -.4, .9, -1.1], [-.8, .6, .3, 1.2], [.4, -1.4, .8, -.2]])[:n, :n]
    t = np.arange(1, 48)[:, None]
    N = (t * np.sqrt(np.array([2, 3, 5, 7, 11, 13])[:n]) + k / 7) % 1 + 0.2 * ((t * np.arange(3, 3 + n)) % 5) - 0.5
    for cells in group:
        if exact:                            # unmixing matrix of a model, components in any order and sign
            B = np.zeros((n, n))
            for q, (u, v) in enumerate(e[:2] for e in ref.edges_of(tuple(cells))):
                B[v, u] = WEIGHTS[(q + k) % 7]
            W0 = (np.eye(n) - B) * np.array([1.2, .8, 1.5, .6, .9, 1.1])[:n, None]
            X = N @ np.linalg.inv(W0).T + k
            answers = [W0[list(p)] * np.array(s)[:, None] for p in permutations(range(n)) for s in product((-1, 1), repeat=n)]
            if n > 3:
                answers = answers[k % 5::{4: 29, 5: 997, 6: 11503}[n]]
        else:                                # any invertible answer
            W0 = np.array(cells, dtype=float).reshape(n, n) * pat
            if abs(np.linalg.det(W0)) < 1e-2:
                continue
            X = N + 0.6 * N[:, ::-1] + 0.3 * k
            answers = [W0]
        for W in answers:
            with np.errstate(all='ignore'):
                score = {p: (1 / np.abs(np.diag(W[list(p)]))).sum() for p in permutations(range(n))}
            best = sorted(score.values())
            if len(best) > 1 and not best[1] > best[0] * (1 + 1e-6):
                continue
            Ww = W[list(min(score, key=score.get))]
            Bh = np.eye(n) - Ww / np.diag(Ww)[:, None]
            up = {p: sum(Bh[p[i], p[j]] ** 2 for i in range(n) for j in range(i, n)) for p in permutations(range(n))}
            low = min(up.values())
            orders = [p for p in up if up[p] <= low + 1e-9]
            P = module().calcwald(X.T, Ww)
            for alpha in (1.0, 0.5, 0.05):
                m = with_stub(X, W, alpha)
                if m is None:
                    return
                txt = f'ICA-LiNGAM when the components are {W.tolist()}, wald_alpha {alpha}'
                C, G = check_result(m, X, alpha, txt)
                rec.step()
                bad = None
                for p in orders:
                    pos = {v: i for i, v in enumerate(p)}
                    cand = np.array([[pos[u] < pos[v] and abs(Bh[v, u]) > 1e-9 for u in range(n)] for v in range(n)])
                    free = np.array([[pos[u] < pos[v] and abs(Bh[v, u]) <= 1e-9 for u in range(n)] for v in range(n)]) | (np.abs(P - alpha) < 1e-7)
                    bad = ((G == 1) != (cand & ~(P > alpha))) & ~free
                    if not bad.any():
                        break
                else:
                    raise Violation(f'{txt}: graph {G.tolist()}; row permutation gives {Bh.tolist()}, orders {orders}, p-values {P.tolist()}')
        rec.state()
    rec.trace()


def check_before_fit(case, rec):
    M = module()
    m = M.ICA_LINGAM()
    for f in (m.get_coef, m.get_causal_graph):
        try:
            r = f()
        except Exception:
            rec.step()
            continue
        raise Violation(f'{f.__name__} before fit returns {r!r}')
    rec.state()
    rec.trace()


def groups(items, k):
    return [items[i:i + k] for i in range(0, len(items), k)]


def spaces(tier, seed):
    deep = tier != 'quick'
    big = True
    out = [Space('permutation matrices', [1, 2, 3, 4, 5, 6], check_perms, chunk=1)]
    two = list(product((-1, 0, 1), repeat=4))
    three = [c for k, c in enumerate(product((-1, 0, 1), repeat=9)) if big or k % 5 == seed % 5]
    four = [c for k, c in enumerate(product((0, 1), repeat=16)) if k % (11 if big else 101) == 0]
    out.append(Space('row permutation', [(n, g) for n, l in ((2, two), (3, three), (4, four)) for g in groups(l, 80)], check_w_wave, chunk=2,
                     note='every zero and sign pattern of invertible matrices of order 2 and 3, order 4 strided'))
    rc = []
    for n in (2, 3):
        for lv in LEVELS:
            rc += [(n, grp, lv) for grp in groups([(g, s) for g in ref.dags(n) for s in range(7 if big else 3)], 5)]
    rc += [(4, grp, 'four') for grp in groups([(g, k % 7) for k, g in enumerate(ref.dags(4))], 4)]
    if deep:
        rc += [(4, grp, 'grid5') for s in range(7) for grp in groups([(g, s) for g in ref.dags(4)], 4)]
        rc += [(5, grp, 'four') for grp in groups([(g, k % 7) for k, g in enumerate(ref.dags(5)) if k % 37 == seed % 37], 2)]
    out.append(Space('recovery', rc, check_recovery, chunk=1, note='every DAG on at most 3 nodes (4 strided), noise levels and weights by rule'))
    al = []
    for n in (2, 3):
        al += [(n, grp, lv) for lv in ('grid5', 'four') for grp in groups([(g, s) for g in ref.dags(n) for s in range(3 if big else 1)], 3)]
    if big:
        al += [(4, grp, 'four') for grp in groups([(g, k % 5) for k, g in enumerate(ref.dags(4)) if k % 9 == 0], 3)]
    pl = [(n, grp, True, k) for n in (2, 3) for k in range(4) for grp in groups(ref.dags(n), 3)]
    pl += [(4, grp, True, k % 5) for k, grp in enumerate(groups(ref.dags(4), 4))]
    pl += [(n, [ref.relabel(p, ref.shuffled(n, k + seed))], True, k % 5) for n in (5, 6) for k, (_, p) in enumerate(ref.families(n)) if n == 5 or deep or (k + seed) % 3 == 0]
    pl += [(n, grp, False, k) for k in range(2) for n, l in ((2, two), (3, three[::1 if deep else 5])) for grp in groups(l, 40)]
    out.append(Space('every answer of the component analysis', pl, check_pipeline, chunk=1,
                     note='components in every order and sign for every DAG on at most 3 nodes; every invertible pattern'))
    out.append(Space('significance level, form of data, refits', al, check_alpha, chunk=1))
    out.append(Space('pruning', [(n, g, lv) for n in (2, 3) for g in ref.dags(n) for lv in ('grid5', 'four')], check_prune))
    out.append(Space('Wald test', [(n, g, T, s) for n in (2, 3) for g in ref.dags(n) for T in (23, 60) for s in (1, 2, 3)]
                     + [(4, g, 80, k % 5) for k, g in enumerate(ref.dags(4)) if k % 30 == 0], check_wald))
    out.append(Space('results before fit', [0], check_before_fit))
    return out
