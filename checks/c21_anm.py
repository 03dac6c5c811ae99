"""C21: additive noise model: dependence score of the regression residual."""
from itertools import combinations_with_replacement, permutations, product

from mc.core import Space, Violation, close

PROPERTY = 'C21'
TITLE = 'Additive noise scores are the dependence of regression residual and cause'
ASSUMPTIONS = ['the regression is the default Gaussian process regression of scikit-learn',
               'the regression is numerically delicate: exact values are required when it is replaced by the group mean (the environment), and a coarse agreement with the real one']


def module():
    import importlib
    return importlib.import_module('cdmir.discovery.funtional_based.anm.ANM')


# ------------------------------------------------------------- reference
def hsic(x, y, sx=-1, sy=-1):
    import numpy as np

    def gram(v, s):
        d = (v[:, None] - v[None, :]) ** 2
        if s == -1:
            u = d[np.triu_indices(len(v), 1)]
            u = u[u > 0]
            s = np.sqrt(0.5 * np.median(u))
        return np.exp(-d / (2 * s * s))
    m = len(x)
    K, L = gram(x, sx), gram(y, sy)
    Kc = K - K.mean(0) - K.mean(1)[:, None] + K.mean()
    Lc = L - L.mean(0) - L.mean(1)[:, None] + L.mean()
    r = (Kc * Lc).sum() / m
    return r


def residual(x, y, flat):
    from sklearn.gaussian_process import GaussianProcessRegressor
    import numpy as np
    y2 = y if flat else y[:, None]
    return np.ravel(GaussianProcessRegressor().fit(x[:, None], y2).predict(x[:, None])) - y


def std(v):
    return (v - v.mean()) / v.std()


def score(x, y):
    """values of the score under changes that do not matter; None if it is not well defined in floating point: the residual is
    only rounding noise, or equal points differ by rounding and change the median distance."""
    import numpy as np
    out = []
    x, y = std(x), std(y)
    m = len(x)
    for flat, order, e, f in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (1, 2, 0, 0), (0, 0, 1e-13, 0), (0, 0, 0, 1e-13), (0, 0, -1e-14, 1e-14)):
        o = [np.arange(m), np.arange(m)[::-1], np.roll(np.arange(m), 1)][order]
        r = residual(x[o] * (1 + e), y[o] * (1 + f), flat)
        if r.std() < 1e-2:
            return None
        r = std(r)
        d = np.sort(((r[:, None] - r[None, :]) ** 2)[np.triu_indices(m, 1)])
        lim = 1e-4
        tiny, rest = (d <= lim).sum(), d[d > lim]
        a, b = np.median(rest), np.median(d)
        c = np.median(np.concatenate([np.zeros(tiny // 2), rest]))
        if a != b or a != c:
            return None
        out.append(hsic(r, x[o], np.sqrt(0.5 * a)))
    return out if max(out) - min(out) < 3e-3 else None


def among(got, want, tol=0.1):
    return min(want) - tol <= got <= max(want) + tol


def run(x, y):
    f, b = module().ANM().cause_or_effect(x, y)
    return float(f), float(b)


def check_data(case, rec):
    import numpy as np
    for pts in case:
        D = np.array(pts, dtype=float)
        x, y = D[:, 0], D[:, 1]
        if x.std() == 0 or y.std() == 0:
            continue
        kx, ky = x.copy(), y.copy()
        f, b = run(x, y)
        txt = f'x={x.tolist()}, y={y.tolist()}'
        if not (x == kx).all() or not (y == ky).all():
            raise Violation(f'{txt}: the data were changed')
        if (b, f) != run(y, x):
            raise Violation(f'{txt}: scores {f, b}, with the arguments exchanged {run(y, x)}')
        want = score(x, y), score(y, x)
        for got, w, name in ((f, want[0], 'forward'), (b, want[1], 'backward')):
            if w is not None and not among(got, w):
                raise Violation(f'{txt}: {name} score {got}, the dependence of residual and cause is {w}')
            if not got >= -1e-9:
                raise Violation(f'{txt}: {name} score {got}')
        rec.step(2)
        rec.state()
    rec.trace()


def check_repeats(case, rec):
    """repeated causes, distinct effects: the regression averages, and the residual is well defined."""
    import numpy as np
    for xs, ys in case:
        x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)
        if x.std() == 0:
            continue
        w = score(x, y)
        if w is None:
            continue
        txt = f'x={list(xs)}, y={list(ys)}'
        got = run(x, y)[0], run(y, x)[1]
        for k, g in enumerate(got):
            if not among(g, w):
                raise Violation(f'{txt}: score {g} ({("", "arguments exchanged")[k]}), '
                                f'the dependence of residual and cause is {w[0]}')
            rec.step()
        s = module().ANM().anm_score(std(x)[:, None], std(y)[:, None])
        if not among(s, w):
            raise Violation(f'{txt}: anm_score {s}, the dependence of residual and cause is {w[0]}')
        rec.state()
    rec.trace()


class Stub:
    """the environment's answer in place of Gaussian process regression: the mean effect of equal causes."""
    flat = True
    used = 0

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y):
        import numpy as np
        Stub.used += 1
        self.X, self.y = np.ravel(X), np.ravel(y)
        return self

    def predict(self, X, **k):
        import numpy as np
        r = np.array([self.y[np.abs(self.X - v) < 1e-9].mean() for v in np.ravel(X)])
        return r if Stub.flat else r[:, None]


def stubbed(x, y, flat):
    """scores with that regression, or None if the code does not ask for it."""
    import sklearn.gaussian_process as g
    M = module()
    if not hasattr(M, 'GaussianProcessRegressor'):
        return None
    old = M.GaussianProcessRegressor, g.GaussianProcessRegressor
    M.GaussianProcessRegressor = g.GaussianProcessRegressor = Stub
    Stub.flat, Stub.used = flat, 0
    try:
        r = run(x, y)
    finally:
        M.GaussianProcessRegressor, g.GaussianProcessRegressor = old
    return r if Stub.used == 2 else None


def exact(x, y):
    """admissible scores for that regression: equal residuals may differ by rounding, and the median distance then counts some of
    those pairs; None if the residual is only rounding noise or the width could be."""
    import numpy as np
    x, y = std(x), std(y)
    r = np.array([y[np.abs(x - v) < 1e-9].mean() for v in x]) - y
    if r.std() < 1e-6:
        return None
    r = std(r)
    d = ((r[:, None] - r[None, :]) ** 2)[np.triu_indices(len(r), 1)]
    tiny, rest = (d <= 1e-9).sum(), d[d > 1e-9]
    if tiny >= len(rest):
        return None
    e = ((x[:, None] - x[None, :]) ** 2)[np.triu_indices(len(x), 1)]
    e = np.sqrt(0.5 * np.median(e[e > 1e-9]))
    return [hsic(r, x, s, e) for s in sorted({float(np.sqrt(0.5 * np.median(np.concatenate([np.zeros(k), rest])))) for k in range(tiny + 1)})]


def check_exact(case, rec):
    """with an exact regression: scores, forms of data, invariances."""
    import numpy as np
    import pandas as pd
    for pts in case:
        D = np.array(pts, dtype=float)
        x, y = D[:, 0], D[:, 1]
        if x.std() == 0 or y.std() == 0:
            continue
        want = exact(x, y), exact(y, x)
        forms = dict(array=(x, y), list=(x.tolist(), y.tolist()), column=(x[:, None], y[:, None]), series=(pd.Series(x), pd.Series(y)),
                     scaled=(3 * x - 7, 0.25 * y + 2), mirrored=(-x, y), both=(-x, -y), reordered=(x[::-1], y[::-1]))
        for n, (p, q) in forms.items():
            for flat in (True, False) if n == 'array' else (True,):
                for swap in (False, True):
                    g = stubbed(q, p, flat) if swap else stubbed(p, q, flat)
                    if g is None:
                        return
                    for k in (0, 1):
                        w = want[1 - k if swap else k]
                        if w is not None and not any(abs(g[k] - v) <= 1e-6 for v in w):
                            raise Violation(f'x={x.tolist()}, y={y.tolist()} ({n}, {"exchanged" if swap else "in order"}): {"backward" if k else "forward"} '
                                            f'score {g[k]}, the dependence of residual and cause is {w}')
                    rec.step()
        rec.state()
    rec.trace()


def check_direction(case, rec):
    """y = f(x) + noise with exactly independent noise: the forward score is zero."""
    import numpy as np
    levels, noise, group = case
    for vals in group:
        x = np.array([i for i in range(levels) for _ in noise], dtype=float)
        y = np.array([vals[i] + e for i in range(levels) for e in noise], dtype=float)
        w = exact(x, y)
        if w is None:
            continue
        if max(w) > 1e-9:
            raise AssertionError('reference')
        g, h = stubbed(x, y, True), stubbed(y, x, True)
        if g is None:
            return
        txt = f'y=f(x)+e with f={vals}, noise {noise}'
        if not abs(g[0]) < 1e-8 or not abs(h[1]) < 1e-8:
            raise Violation(f'{txt}: score in the causal direction {g[0]} (arguments exchanged: {h[1]})')
        b = exact(y, x)
        if b is not None and min(b) > 1e-6 and not (g[0] < g[1] and h[1] < h[0]):
            raise Violation(f'{txt}: scores {g}, although the backward residual is dependent ({b})')
        rec.step(2)
        rec.state()
    rec.trace()


def check_hsic(case, rec):
    import numpy as np
    M = module()
    for pts in case:
        D = np.array(pts, dtype=float) * [1, 0.7] + [0, 0.3]
        x, y = D[:, :1], D[:, 1:]
        if x.std() == 0 or y.std() == 0:
            continue
        txt = f'x={x.ravel().tolist()}, y={y.ravel().tolist()}'
        for sg in ([-1, -1], [0.5, 2.0], [1.3, -1]):
            w = hsic(x.ravel(), y.ravel(), *sg)
            for p, q, s in ((x, y, sg), (y, x, sg[::-1]), (x.ravel(), y.ravel(), sg), (x[::-1], y[::-1], sg)):
                got = M.FastHsicTestGamma(p, q, sig=list(s))
                if not close(got, w, 1e-8, 1e-10):
                    raise Violation(f'{txt}: FastHsicTestGamma with widths {s} gives {got}, expected {w}')
                rec.step()
        if not close(M.FastHsicTestGamma(x, y), hsic(x.ravel(), y.ravel()), 1e-8, 1e-10):
            raise Violation(f'{txt}: FastHsicTestGamma with default arguments')
        got = M.normalized_hsic(x, y)
        w = hsic(std(x.ravel()), std(y.ravel()))
        if not close(got, w, 1e-8, 1e-10):
            raise Violation(f'{txt}: normalized_hsic gives {got}, expected {w}')
        for deg in (-1, 0.6, 2.0):
            d = (x - x.T) ** 2
            u = d[np.triu_indices(len(x), 1)]
            s = np.sqrt(0.5 * np.median(u[u > 0])) if deg == -1 else deg
            for v in (x, x.ravel()):
                if not close(M.rbf_dot(v, deg), np.exp(-d / 2 / s ** 2), 1e-8, 1e-12):
                    raise Violation(f'{txt}: rbf_dot of x with width {deg}')
        for deg in (0.6, 2.0):
            w = np.exp(-(x - y.T) ** 2 / 2 / deg ** 2)
            if not close(M.rbf_dot2(x, y, deg), w, 1e-8, 1e-12) or not close(M.rbf_dot2(x.ravel(), y.ravel(), deg), w, 1e-8, 1e-12):
                raise Violation(f'{txt}: rbf_dot2 with width {deg}')
            w = np.exp(-((D[:, None] - D[None, :3]) ** 2).sum(-1) / 2 / deg ** 2)
            if not close(M.rbf_dot2(D, D[:3], deg), w, 1e-8, 1e-12):
                raise Violation(f'{txt}: rbf_dot2 of two-dimensional points with width {deg}')
            d = ((D[:, None] - D[None, :]) ** 2).sum(-1)
            if not close(M.rbf_dot(D, deg), np.exp(-d / 2 / deg ** 2), 1e-8, 1e-12):
                raise Violation(f'{txt}: rbf_dot of two-dimensional points with width {deg}')
        rec.step(8)
        rec.state()
    rec.trace()


def check_subsample(case, rec):
    """more points than maxpnt: equally spaced ones are used, the first and the last among them."""
    import numpy as np
    m, k = case
    t = np.arange(m)
    x = ((t * 0.6180339887) % 1)[:, None]
    y = ((t * 0.4142135623) % 1)[:, None] + 0.3 * x
    step = (m - 1) / (k - 1)
    idx = (np.arange(k) * step).astype(int)       # step is exact in binary for every case
    got = module().FastHsicTestGamma(x, y, maxpnt=k)
    w = hsic(x[idx].ravel(), y[idx].ravel())
    if not close(got, w, 1e-8, 1e-10):
        raise Violation(f'{m} points, at most {k}: {got}, equally spaced points give {w}')
    rec.step()
    rec.state()
    rec.trace()


def check_shapes(case, rec):
    """no warning-free wrong answers for constants: the score of a constant is never reported as dependence."""
    import warnings
    import numpy as np
    m = case
    x = np.arange(m, dtype=float)
    c = np.ones(m)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = module().FastHsicTestGamma(x[:, None], c[:, None])
    if got != 0:
        raise Violation(f'dependence on a constant is {got}')
    rec.step()
    rec.state()
    rec.trace()


def groups(items, k):
    return [items[i:i + k] for i in range(0, len(items), k)]


def spaces(tier, seed):
    big = tier != 'quick'
    grid = list(product((0, 1, 2.5), (0, 1, 3)))
    five = list(combinations_with_replacement(grid, 5))
    six = [c for k, c in enumerate(combinations_with_replacement(grid, 6)) if big or k % 6 == seed % 6]
    four = list(combinations_with_replacement(list(product((0, 1, 2), repeat=2)), 4))
    sev = [c for k, c in enumerate(combinations_with_replacement(list(product((0, 1, 2, 4), (0, 1, 3))), 7)) if k % (40 if big else 400) == 0]
    out = [Space('scores of small data', groups(four, 8) + groups(five[::1 if big else 3], 8) + groups(six[::1 if big else 3], 8), check_data, chunk=1,
                 note='every multiset of 4 points of a 3x3 grid, larger ones strided; with the real regression, wide tolerance')]
    rp = []
    Y = (0.0, 1.1, 1.9, 3.2, 4.9, 7.0, 8.3, 9.1)
    for m in (4, 5, 6, 7):
        xs = [c for c in combinations_with_replacement((0, 1, 2.5), m) if 1 < len(set(c))]
        perms = list(permutations(Y[:m]))
        for k, x in enumerate(xs):
            st = {4: 1, 5: 4, 6: 24, 7: 197}[m] if not big else {4: 1, 5: 1, 6: 3, 7: 23}[m]
            rp += [(x, p) for p in perms[(k + seed) % st::st]]
    rp += [(tuple(((7 * i * i + k) % 5) * 1.0 for i in range(m)), tuple(((i * 0.618034 * (k + 1)) % 1) * 4 + 0.3 * ((7 * i * i + k) % 5) for i in range(m)))
           for m in (10, 20, 40) for k in range(40 if big else 8)]
    out.append(Space('repeated causes', groups(rp, 25), check_repeats, chunk=1,
                     note='every multiset of 4 to 7 causes over three values; effects permuted: all orders of 4, others strided'))
    out.append(Space('scores for an exact regression', groups(four, 8) + groups(five[::1 if big else 2], 8) + groups(six[::1 if big else 3], 8) + groups(sev, 8),
                     check_exact, chunk=1, note='the same data, in every form'))
    dr = []
    for levels in (2, 3, 4) + ((5,) if big else ()):
        for noise in ((-1, 0, 1), (-0.5, 0.5, 2), (0, .1, .3, 1), (0, 1, 3, 3.5, 4)):
            fs = [v for v in product((0, 1, 2.5, -1.75), repeat=levels) if len(set(v)) > 1]
            dr += [(levels, noise, g) for g in groups(fs[:: 1 if levels < 5 else 7], 12)]
    out.append(Space('causal direction', dr, check_direction, chunk=1, note='every function from 2, 3 and 4 values to 4 values, four noise designs'))
    out.append(Space('dependence measure', groups(four + five, 30), check_hsic, chunk=1))
    out.append(Space('subsampling', [(m, k) for k in (2, 3, 5, 9, 17, 33) for m in ((k - 1) * 2 + 1, (k - 1) * 3 // 2 + 1, (k - 1) * 4 + 1, (k - 1) * 5 // 4 + 1,
                                                                                   (k - 1) * 64 + 1) if m > k and ((m - 1) * 64) % (k - 1) == 0]
                     + [(m, k) for k in (3, 5, 9) for m in range(k + 1, 60)], check_subsample))
    out.append(Space('constants', list(range(2, 9)), check_shapes))
    return out
