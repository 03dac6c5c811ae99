"""C15: simulated time series follow exactly the given lagged graph at every step."""
from itertools import product

from mc import ref
from mc.core import Space, Violation, close

PROPERTY = 'C15'
TITLE = 'Simulated time series obey the given lagged graph at every step'
ASSUMPTIONS = ['row 0 of the lag dimension is the largest lag (the oldest value), as in the shipped simulator',
               'the order in which random numbers are drawn does not depend on the noise scale or on the graph']
NOISES = ['gauss', 'exp', 'gumbel', 'uniform', 'laplace']
LEN = 7


def lagged(bits, lags, n):
    import numpy as np
    return np.array(bits, dtype=float).reshape(lags, n, n)


def weights(A, kind):
    import numpy as np
    k = np.arange(A.size).reshape(A.shape)
    return A * (0.4 + ((k * 13 + kind * 5) % 11) / 9.0) * np.where((k * (k + kind) // 2) % 2, -1, 1)


def reach(A):
    """summary reachability between variables (reflexive)."""
    n = A.shape[1]
    r = [[i == j or bool((A[:, i, j] != 0).any()) for j in range(n)] for i in range(n)]
    for k, i, j in product(range(n), repeat=3):
        r[i][j] = r[i][j] or (r[i][k] and r[k][j])
    return r


def series(kind, A, length, noise, scale, seed, opt=None):
    from cdmir.datasets.simlulators import TimeLagSimulator as S
    L = A.shape[0]
    if kind == 'linear':
        return S.simulate_linear_anm(A, L, length, noise, scale, seed)
    if kind == 'anm':
        return S.simulate_nonlinear_anm(A, L, length, noise, scale, seed, func_type=opt)
    f1, f2, hidden, *slope = opt
    more = dict(neg_slope=slope[0]) if slope else {}
    return S.simulate_pnl(A, L, length, noise, scale, seed, func1_type=f1, func2_type=f2, hidden=hidden, **more)


def check_linear(case, rec):
    import numpy as np
    from cdmir.datasets.simlulators import TimeLagSimulator as S
    lags, n, group, kind = case
    for bits in group:
        A = lagged(bits, lags, n)
        W = weights(A, kind)
        for q in range(2):
            noise = NOISES[(kind + q + sum(bits)) % 5]
            seed = (kind + q) % 3
            scale = [0.5 + v for v in range(n)]
            txt = f'linear series from {W.tolist()} with {noise} noise'
            keep = W.copy()
            X = series('linear', W, LEN, noise, scale, seed)
            rec.step()
            if X.shape != (LEN + lags, n) or not (W == keep).all():
                raise Violation(f'{txt}: shape {X.shape}, weights unchanged {(W == keep).all()}')
            np.random.seed(3)
            if not (series('linear', W, LEN, noise, scale, seed) == X).all():
                raise Violation(f'{txt}: the same seed gives different series')
            if not (S.simulate_linear_anm(W, length=LEN, noise_type=noise, noise_scale=scale, seed=seed) == X).all():
                raise Violation(f'{txt}: leaving out the maximum lag changes the series')
            N = X.copy()
            for t in range(lags, LEN + lags):
                for l in range(lags):
                    N[t] = N[t] - X[t - lags + l] @ W[l]
            if noise == 'exp' and (N < -1e-9).any():
                raise Violation(f'{txt}: the residual of an exponential model is negative: {N.tolist()}')
            if noise == 'uniform' and (np.abs(N) > np.array(scale) + 1e-9).any():
                raise Violation(f'{txt}: the residual leaves the noise range: {N.tolist()}')
            flat = np.round(N / np.array(scale), 9).ravel()
            if len(set(flat.tolist())) < len(flat):
                raise Violation(f'{txt}: the noise at different times or variables coincides: {N.tolist()}')
            for k in range(n):
                Xk = series('linear', W, LEN, noise, [1.0 if v == k else 0.0 for v in range(n)], seed)
                rec.step()
                for t in range(LEN + lags):
                    want = sum((Xk[t - lags + l] @ W[l] for l in range(lags)), np.zeros(n)) if t >= lags else np.zeros(n)
                    for v in range(n):
                        if v != k and not close(Xk[t, v], want[v], 1e-9, 1e-9):
                            raise Violation(f'{txt}: without own noise, variable {v} at time {t} is {Xk[t, v]}, the '
                                            f'lagged equation gives {want[v]}')
            a = series('linear', W, LEN, noise, 1.0, seed)
            if not (a == series('linear', W, LEN, noise, None, seed)).all() or \
                    not (a == series('linear', W, LEN, noise, [1.0] * n, seed)).all():
                raise Violation(f'{txt}: scale 1.0, no scale and a list of ones differ')
            rec.step(4)
        # saturated logistic steps
        B = 200.0 * np.sign(W)
        X = series('linear', B, 12, 'logistic', None, kind % 4)
        rec.step()
        for t in range(lags, 12 + lags):
            drive = sum((X[t - lags + l] @ B[l] for l in range(lags)), np.zeros(n))
            for v in range(n):
                if X[t, v] not in (0.0, 1.0) or (drive[v] > 50 and X[t, v] != 1) or (drive[v] < -50 and X[t, v] != 0):
                    raise Violation(f'logistic series from {B.tolist()}: at time {t} variable {v} is {X[t, v]} with drive {drive[v]}')
        rec.state()
    rec.trace()
    rec.sample(dict(lags=lags, nodes=n, graphs=len(group)))


PNL = [('tanh', 'leaky_relu', None), ('leaky_relu', 'tanh', None), ('linear', 'linear', 4),
       (['linear', 'tanh'], ['linear', 'leaky_relu'], 3), (['tanh', 'linear'], ['linear', 'tanh'], 4), ('tanh', 'cos', None)]


def check_nonlinear(case, rec):
    import numpy as np
    which, lags, n, group, kind = case
    for bits in group:
        A = lagged(bits, lags, n)
        r = reach(A)
        for q, opt in enumerate(('mlp', 'mim') if which == 'anm' else PNL):
            noise = NOISES[(kind + q + sum(bits)) % 5]
            seed = (kind + q) % 3
            txt = f'{which} {opt} series from {A.tolist()} with {noise} noise'
            keep = A.copy()
            base = [0.25 * (1 + v) for v in range(n)]
            X = series(which, A, LEN, noise, base, seed, opt)
            rec.step()
            if X.shape != (LEN + lags, n) or not np.isfinite(X).all() or not (A == keep).all():
                raise Violation(f'{txt}: shape {X.shape}, finite {np.isfinite(X).all()}, graph unchanged {(A == keep).all()}')
            np.random.seed(3)
            if not (series(which, A, LEN, noise, base, seed, opt) == X).all():
                raise Violation(f'{txt}: the same seed gives different series')
            for k in range(n):
                Y = series(which, A, LEN, noise, [s * (1.5 if v == k else 1) for v, s in enumerate(base)], seed, opt)
                rec.step()
                for v in range(n):
                    if not r[k][v] and not close(X[:, v], Y[:, v], 1e-12, 1e-12):
                        raise Violation(f'{txt}: the noise of variable {k} reaches {v}, which does not descend from it')
                if close(X[:, k], Y[:, k]):
                    raise Violation(f'{txt}: the noise scale of variable {k} has no effect on it')
                # the largest lag first: a change in the first rows arrives when its lag says so
            # without noise the process is deterministic: equal pasts have equal futures
            Z = series(which, A, 10, noise, [0.0] * n, seed, opt)
            rec.step()
            if (Z[:lags] != 0).any():
                raise Violation(f'{txt}: without noise the initial values are {Z[:lags].tolist()}')
            for v in range(n):
                seen = {}
                for t in range(lags, 10 + lags):
                    past = tuple(round(float(Z[t - lags + l, u]), 9) for l in range(lags) for u in range(n) if A[l, u, v])
                    if past in seen and not close(seen[past], Z[t, v], 1e-6, 1e-6):
                        raise Violation(f'{txt}: without noise, variable {v} takes the values {seen[past]} and {Z[t, v]} '
                                        f'for the same parents {past}')
                    seen.setdefault(past, Z[t, v])
            # the effect of the first row arrives exactly along the lagged edges
            for k in range(n):
                if which != 'anm':
                    break
                # with one noise source whose own equation has no parents: child v at time t is a function of the
                # lagged source values only, and an edge with lag d is visible
                for v in range(n):
                    if v == k or any(A[:, u, v].any() for u in range(n) if u != k) or A[:, :, k].any():
                        continue
                    S = series(which, A, LEN, noise, [1.0 if u == k else 0.0 for u in range(n)], seed, opt)
                    T = series(which, A, LEN, noise, [2.0 if u == k else 0.0 for u in range(n)], seed, opt)
                    rec.step(2)
                    if A[:, k, v].any() == close(S[lags:, v], T[lags:, v], 1e-9, 1e-9):
                        raise Violation(f'{txt}: the lagged edge {k} -> {v} is ' + ('not ' if A[:, k, v].any() else '') + 'visible')
            rec.state()
        if which == 'pnl':
            fn = dict(tanh=np.tanh, leaky_relu=None, cos=np.cos)
            for f1, f2 in product(fn, repeat=2):
                slope = () if (kind + bits[0]) % 2 else (0.5,)
                fn['leaky_relu'] = lambda x: np.where(x > 0, x, (slope[0] if slope else 0.2) * x)
                k = kind % n
                scale = [0.0] * n
                scale[k] = 1.5
                Z = series('pnl', A, LEN, 'gauss', scale, 5, (f1, f2, None) + slope)
                rec.step()
                for t in range(lags, LEN + lags):
                    for v in range(n):
                        if v == k:
                            continue
                        inner = fn[f1](np.array([[Z[t - lags + l, u] * A[l, u, v] for u in range(n)] for l in range(lags)])).sum(axis=0)
                        if not close(Z[t, v], fn[f2](inner).sum(), 1e-9, 1e-9):
                            raise Violation(f'post-nonlinear series ({f1}, {f2}) from {A.tolist()}: variable {v} at time {t} is '
                                            f'{Z[t, v]}, its lagged equation gives {fn[f2](inner).sum()}')
    rec.trace()


def check_mim(case, rec):
    """the 'mim' and 'mlp' step as a function of the lagged parents only: swapping equal-weight histories."""
    import numpy as np
    lags, n, group, kind = case
    for bits in group:
        A = lagged(bits, lags, n)
        for opt in ('mlp', 'mim'):
            Z = series('anm', A, 9, 'gauss', [0.0] * n, kind % 4, opt)
            X = series('anm', A, 9, 'uniform', [0.5] * n, kind % 4, opt)
            rec.step(2)
            bound = 3 + 0.5 if opt == 'mim' else 200 + 0.5
            if (np.abs(X) > bound + 1e-9).any() or (np.abs(Z) > bound).any():
                raise Violation(f'{opt} series from {A.tolist()} leave the range of the mechanism: {X.tolist()}')
            if opt == 'mim':
                for v in range(n):
                    if not A[:, :, v].any() and not close(Z[lags:, v], np.ones(9), 1e-12, 1e-12):
                        raise Violation(f'mim series without noise: parentless variable {v} is {Z[lags:, v].tolist()}')
        rec.state()
    rec.trace()


def check_arguments(case, rec):
    import numpy as np
    from cdmir.datasets.simlulators import TimeLagSimulator as S
    A = np.zeros((2, 3, 3))
    A[0, 0, 1] = 0.5
    for f in (S.simulate_linear_anm, S.simulate_nonlinear_anm, S.simulate_pnl):
        for m in (1, 3, 0):
            rec.step()
            try:
                f(A, m, 3)
            except ValueError:
                continue
            raise Violation(f'{f.__name__} accepted a maximum lag of {m} for two lag matrices')
        for length in (0, 1, 2, 17):
            for m in (None, 2):
                X = f(A, m, length, seed=4)
                rec.step()
                if X.shape != (length + 2, 3):
                    raise Violation(f'{f.__name__} with length {length} returns shape {X.shape}')
        X = f(A, None, seed=4)
        if X.shape != (5002, 3):
            raise Violation(f'{f.__name__} with the default length returns shape {X.shape}')
        # a longer series extends a shorter one
        if f is S.simulate_linear_anm or f is S.simulate_pnl or f is S.simulate_nonlinear_anm:
            a, b = f(A, 2, 6, seed=4), f(A, 2, 15, seed=4)
            if not (b[:8] == a).all():
                raise Violation(f'{f.__name__}: a longer series does not extend the shorter one')
        rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.datasets.simlulators  # noqa
    thorough = tier == 'thorough'

    def groups(lags, n, stride=1, size=8):
        allb = list(product((0, 1), repeat=lags * n * n))[(seed % stride)::stride]
        return [allb[i:i + size] for i in range(0, len(allb), size)]

    shapes = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (1, 3, 4 if not thorough else 1),
              (3, 2, 64 if not thorough else 8)]
    lin, non, mim = [], [], []
    for lags, n, st in shapes:
        for k, g in enumerate(groups(lags, n, st)):
            lin.append([lags, n, g, k + seed])
            mim.append([lags, n, g, k + seed])
            for w in ('anm', 'pnl'):
                non.append([w, lags, n, g, k + seed])
    blin, bnon, bmim = [], [], []
    for lags, n in ((1, 6), (2, 5), (3, 4), (5, 4), (2, 8)) + (((4, 6), (1, 12), (7, 5)) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            par = ref.relabel(par, ref.shuffled(n, k + seed))
            bits = [0] * (lags * n * n)
            for q, (u, v) in enumerate(ref.edges_of(par)):
                for l in {q % lags, (q * 3 + k) % lags} if k % 2 else {(q + k) % lags}:
                    bits[l * n * n + u * n + v] = 1
            if k % 3 == 0:
                for v in range(0, n, 2):                # some remember themselves
                    bits[(v % lags) * n * n + v * n + v] = 1
            if k % 4 == 1:
                bits[((k + 1) % lags) * n * n + (n - 1) * n] = 1
            blin.append([lags, n, [tuple(bits)], k + seed])
            if n < 8:
                bmim.append([lags, n, [tuple(bits)], k + seed])
                for q, w in enumerate(('anm', 'pnl')):
                    if thorough or (k + q + n) % 2 == 0:
                        bnon.append([w, lags, n, [tuple(bits)], k + seed])
    return [Space('linear series, 4 to 8 variables', blin, check_linear, limit=300, chunk=1, note='18 families of graphs over up to 5 lags'),
            Space('nonlinear series, 4 to 6 variables', bnon, check_nonlinear, limit=300, chunk=1, note='the same families'),
            Space('mechanism ranges, 4 to 6 variables', bmim, check_mim, limit=300, chunk=1, note='the same families'),
            Space('linear series', lin, check_linear, limit=300,
                  note='every lagged graph with lags x nodes in {1..3 x 1, 1..2 x 2}; 1 x 3 and 3 x 2 strided'),
            Space('nonlinear series', non, check_nonlinear, limit=300, note='the same graphs x mechanisms'),
            Space('mechanism ranges', mim, check_mim, limit=300, note='the same graphs'),
            Space('arguments', [0], check_arguments, note='lags, lengths')]
