"""C14: simulated i.i.d. data follow exactly the given causal graph, for every realisation of the noise."""
from itertools import product

from mc import impl, ref
from mc.core import Space, Violation, close
from checks.c13_metrics import matrix

PROPERTY = 'C14'
TITLE = 'Simulated data obey the given causal graph for every realisation of the noise'
ASSUMPTIONS = ['weights in a moderate range; the noise scales are floats',
               'the order in which random numbers are drawn does not depend on the noise scale']
SEEDS = [0, 7]


def weights(par, kind):
    import numpy as np
    n = len(par)
    W = np.zeros((n, n))
    k = kind
    for u, v in ref.edges_of(par):
        k += 1
        W[u, v] = (0.5 + ((k * 29) % 31) / 20.0) * (-1) ** (k * (k + kind) // 2)
    return W


def pathmat(par):
    n = len(par)
    d = ref.descendants(par)
    return [[bool(d[u] >> v & 1) for v in range(n)] for u in range(n)]


def sim(which, W, n, noise, scale, seed):
    if which == 'iid':
        from cdmir.datasets.simlulators import IIDSimulator
        return IIDSimulator.simulate_linear_anm(W, n, noise, scale, seed=seed)
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    U.set_random_seed(seed)
    return U.simulate_linear_sem(W, np.inf if n is None else n, noise, scale)


NOISES = ['gauss', 'exp', 'gumbel', 'uniform', 'laplace']


def check_linear(case, rec):
    import numpy as np
    import pandas as pd
    which, par, kind = case
    par = tuple(par)
    n = len(par)
    W = weights(par, kind)
    T = np.linalg.inv(np.eye(n) - W)
    rows = 6
    txt = f'{which} linear data from {W.tolist()}'
    noises = [x for x in NOISES if which == 'iid' or x != 'laplace']
    for noise in noises:
        for seed in SEEDS:
            scale = [0.5 + v for v in range(n)]
            keep = W.copy()
            X = sim(which, W, rows, noise, scale, seed)
            rec.step()
            if X.shape != (rows, n) or not np.isfinite(X).all():
                raise Violation(f'{txt}: shape {X.shape}, finite {np.isfinite(X).all()}')
            if not (W == keep).all():
                raise Violation(f'{txt}: the weights were changed')
            # the noise read back through the structural equations
            N = X - X @ W
            if noise == 'exp' and (N < -1e-9).any():
                raise Violation(f'{txt}: exponential noise of {N.min()}')
            bound = 1.0 if which == 'iid' else 3 ** 0.5
            if noise == 'uniform' and (np.abs(N) > bound * np.array(scale) + 1e-9).any():
                raise Violation(f'{txt}: uniform noise outside its range: {N.tolist()}')
            # noise is fresh for every row and every variable
            flat = np.round(N / np.array(scale), 9).ravel()
            if len(set(flat.tolist())) < len(flat):
                raise Violation(f'{txt}: the noise of different samples or variables coincides: {N.tolist()}')
            # only the noise scale decides its size
            X2 = sim(which, W, rows, noise, [2 * s for s in scale], seed)
            if not close(X2, 2 * X, 1e-9, 1e-9):
                raise Violation(f'{txt}: doubling every noise scale does not double the data')
            # a single noise source reaches exactly its descendants, with the total effects
            for k in range(n):
                Xk = sim(which, W, rows, noise, [1.0 if v == k else 0.0 for v in range(n)], seed)
                rec.step()
                if not close(Xk, Xk[:, [k]] * T[k], 1e-9, 1e-9) or (Xk[:, k] == 0).all():
                    raise Violation(f'{txt} ({noise}): with noise on variable {k} only, the data are {Xk.tolist()}, expected '
                                    f'multiples of {T[k].tolist()}')
            # the scalar and the default scale
            a, b = sim(which, W, rows, noise, 1.0, seed), sim(which, W, rows, noise, None, seed)
            c = sim(which, W, rows, noise, [1.0] * n, seed)
            if not (a == b).all() or not (a == c).all():
                raise Violation(f'{txt}: scale 1.0, no scale and a list of ones differ')
            rec.step(4)
            # seeds
            np.random.seed(99)
            np.random.rand(5)
            if not (sim(which, W, rows, noise, scale, seed) == X).all():
                raise Violation(f'{txt}: the same seed gives different data')
        rec.state()
    if which == 'iid':
        X = sim(which, W, rows, 'gauss', None, 3)
        Xf = sim(which, pd.DataFrame(W), rows, 'gauss', None, 3)
        if not (X == np.asarray(Xf)).all():
            raise Violation(f'{txt}: a DataFrame of weights gives other data')
    X = sim(which, W, None, 'gauss', [0.5 + v for v in range(n)], 1)
    cov = T.T @ np.diag([(0.5 + v) ** 2 for v in range(n)]) @ T
    if not close(X.T @ X / n, cov, 1e-9, 1e-9):
        raise Violation(f'{txt}: the population matrix has covariance {(X.T @ X / n).tolist()}, expected {cov.tolist()}')
    for noise in noises[1:]:
        try:
            sim(which, W, None, noise, None, 1)
        except ValueError:
            continue
        raise Violation(f'{txt}: population data for {noise} noise')
    # discrete variables: saturated weights make the equations visible
    for seed in SEEDS:
        big = 200.0 * np.sign(W)
        X = sim(which, big, 40, 'logistic', None, seed)
        drive = X @ big
        rec.step()
        if not np.isin(X, (0.0, 1.0)).all() or (X[drive > 0] != 1).any() or (X[drive < 0] != 0).any():
            raise Violation(f'{txt}: logistic values do not follow their parents: {X.tolist()}')
        for v in range(n):
            free = drive[:, v] == 0
            if free.sum() >= 38 and len(set(X[free, v].tolist())) < 2:
                raise Violation(f'{txt}: logistic variable {v} never varies')
        neg = -200.0 * (W != 0)
        X = sim(which, neg, 40, 'poisson', None, seed)
        drive = X @ neg
        if (X < 0).any() or (X != np.round(X)).any() or (X[drive < 0] != 0).any():
            raise Violation(f'{txt}: poisson values do not follow their parents: {X.tolist()}')
        for v in range(n):
            free = drive[:, v] == 0
            if free.sum() >= 38 and len(set(X[free, v].tolist())) < 2:
                raise Violation(f'{txt}: poisson variable {v} never varies')
        rec.step()
        counts_follow(lambda B, noise: sim(which, B, 300, noise, None, seed), W, txt, rec)
    rec.trace()
    rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par)), simulator=which))


def counts_follow(draw, W, txt, rec):
    """discrete values have the mean and spread their parents set (bounds no sample of that law leaves, up to 1e-9)."""
    import numpy as np
    roots = (W == 0).all(axis=0)
    for up in (0.4, 1.5):
        # only root parents excite; others damp, so that counts stay finite
        B = np.where(roots[:, None], up, -0.3) * (W != 0)
        for noise in ('poisson', 'logistic'):
            X = draw(B, noise)
            rec.step()
            drive = X @ B
            mean = np.exp(drive) if noise == 'poisson' else 1 / (1 + np.exp(-drive))
            var = mean if noise == 'poisson' else mean * (1 - mean)
            dev = X - mean
            if (X < 0).any() or (X != np.round(X)).any() or (np.abs(dev) > 9 * np.sqrt(var) + 25).any():
                r, v = np.unravel_index(np.argmax(np.abs(dev) - 9 * np.sqrt(var)), X.shape)
                raise Violation(f'{txt}: weights {B.tolist()}, {noise}: value {X[r, v]} of variable {v} where its parents set the mean {mean[r, v]}')
            for v in range(X.shape[1]):
                for m in (drive[:, v] > 0, drive[:, v] < 0, drive[:, v] == 0):
                    if m.any() and abs(dev[m, v].sum()) > 7 * np.sqrt(var[m, v].sum()) + 10:
                        raise Violation(f'{txt}: weights {B.tolist()}, {noise}: variable {v} sums to {X[m, v].sum()} over {m.sum()} rows, its parents set {mean[m, v].sum()}')


def check_cycles(case, rec):
    """every weight matrix with a cycle is rejected, everything else accepted (self loops and two-cycles included)."""
    import numpy as np
    from cdmir.datasets.simlulators import IIDSimulator
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    n, first = case
    for rest in product((0, 1), repeat=n * n - 1):
        bits = (first,) + rest
        W = np.array(bits, dtype=float).reshape(n, n) * 0.7
        par = tuple(sum(1 << u for u in range(n) if W[u, v]) for v in range(n))
        ok = ref.acyclic(par)
        for nm, f in (('linear', lambda: IIDSimulator.simulate_linear_anm(W, 2, seed=1)),
                      ('population', lambda: IIDSimulator.simulate_linear_anm(W, None, seed=1)),
                      ('nonlinear', lambda: IIDSimulator.simulate_nonlinear_anm(W, 2, seed=1)),
                      ('post-nonlinear', lambda: IIDSimulator.simulate_pnl(W, 2, seed=1)),
                      ('linear sem', lambda: U.simulate_linear_sem(W, 2, 'gauss')),
                      ('linear sem, varying scale', lambda: U.simulate_linear_sem_variable_scale(W, 2, 'gauss'))):
            rec.step()
            try:
                f()
                got = True
            except ValueError:
                got = False
            if got != ok:
                raise Violation(f'{nm} simulation of {W.tolist()} was ' + ('accepted' if got else 'rejected'))
        if bool(U.is_dag(W)) != ok:
            raise Violation(f'is_dag({W.tolist()}) is {U.is_dag(W)}')
        rec.state()
    rec.trace()


# ------------------------------------------------------------------ nonlinear
def nl(which, A, n, noise, scale, seed, opt):
    if which == 'anm':
        from cdmir.datasets.simlulators import IIDSimulator
        return IIDSimulator.simulate_nonlinear_anm(A, n, noise, scale, seed, func_type=opt)
    if which == 'pnl':
        from cdmir.datasets.simlulators import IIDSimulator
        f1, f2, hidden, *slope = opt
        more = dict(neg_slope=slope[0]) if slope else {}
        return IIDSimulator.simulate_pnl(A, n, noise, scale, seed, func1_type=f1, func2_type=f2, hidden=hidden, **more)
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    U.set_random_seed(seed)
    return U.simulate_nonlinear_sem(A, n, opt, noise, scale)


PNL = [('tanh', 'leaky_relu', None), ('leaky_relu', 'tanh', None), ('tanh', 'linear', None), ('linear', 'cos', None),
       ('cos', 'tanh', None), ('linear', 'linear', 5), (['linear', 'tanh'], ['linear', 'leaky_relu'], 3),
       (['tanh', 'linear'], ['leaky_relu', 'linear'], 4), (['linear', 'tanh', 'linear'], ['linear', 'cos'], 2),
       (['leaky_relu', 'tanh'], ['cos', 'tanh'], None), ([], 'tanh', None)]


GP = ('gp', 'gp-add')


def options(which):
    if which == 'anm':
        return ['mlp', 'mim']
    if which == 'pnl':
        return PNL
    return ['mlp', 'mim', 'pow2', 'pow3', 'gp', 'gp-add']


def check_nonlinear(case, rec):
    import numpy as np
    which, par, kind = case
    par = tuple(par)
    n = len(par)
    A = matrix(n, ref.parents_to_code(par))
    if kind % 2 and which == 'anm':
        A = weights(par, kind)           # any non-zero entry is an edge
    reach = pathmat(par)
    rows = 5
    noises = NOISES if which != 'sem' else ['gauss', 'exp', 'gumbel', 'uniform']
    depth = [0] * n
    for _ in range(n):
        depth = [max([depth[u] + 1 for u in ref.bits(p)], default=0) for p in par]
    for q, opt in enumerate(options(which)):
        if opt in ('pow2', 'pow3') and max(depth) > 4:
            continue                     # repeated powers leave the range of floating point
        noise = noises[(kind + q) % len(noises)]
        seed = SEEDS[(kind + q) % len(SEEDS)]
        txt = f'{which} {opt} data from {A.tolist()} with {noise} noise'
        keep = A.copy()
        base = [0.25 * (1 + v) for v in range(n)]
        X = nl(which, A, rows, noise, base, seed, opt)
        rec.step()
        if X.shape != (rows, n) or not np.isfinite(X).all():
            raise Violation(f'{txt}: shape {X.shape}, finite {np.isfinite(X).all()}')
        if not (A == keep).all():
            raise Violation(f'{txt}: the graph was changed')
        np.random.seed(5)
        if not (nl(which, A, rows, noise, base, seed, opt) == X).all():
            raise Violation(f'{txt}: the same seed gives different data')
        for v in range(n):
            if len(set(np.round(X[:, v], 12).tolist())) < rows:
                raise Violation(f'{txt}: different samples of variable {v} coincide: {X[:, v].tolist()}')
        # changing the noise of one variable changes that variable and only its descendants
        for k in range(n):
            Y = nl(which, A, rows, noise, [s * (1.5 if v == k else 1) for v, s in enumerate(base)], seed, opt)
            rec.step()
            for v in range(n):
                if not reach[k][v] and not (X[:, v] == Y[:, v]).all():
                    raise Violation(f'{txt}: the noise of variable {k} reaches {v}, which does not descend from it')
            if np.abs(X[:, k]).max() < 1e6 and (X[:, k] == Y[:, k]).any():
                raise Violation(f'{txt}: the noise scale of variable {k} has no effect on it')
            if not par[k] and not close(Y[:, k], 1.5 * X[:, k], 1e-9, 1e-9):
                raise Violation(f'{txt}: source {k} is not its noise')
        # without noise, each sample of a variable is a function of its parents: all samples agree
        Z = nl(which, A, rows, noise, [0.0] * n, seed, opt)
        rec.step()
        for v in range(n):
            fuzz = 1e-4 if opt in GP else 1e-12      # a drawn function is computed to limited precision
            if not close(Z[:, v], np.full(rows, Z[0, v]), fuzz, fuzz):
                raise Violation(f'{txt}: without noise the samples of variable {v} differ: {Z[:, v].tolist()}')
            if not par[v] and Z[0, v] != 0:
                raise Violation(f'{txt}: without noise source {v} is {Z[0, v]}')
        for k in range(n):
            if par[k]:
                continue
            Z = nl(which, A, rows, noise, [3.0 if v == k else 0.0 for v in range(n)], seed, opt)
            rec.step()
            for v in range(n):
                varies = np.ptp(Z[:, v]) > (1e-4 if opt in GP else 1e-12)
                if varies and not reach[k][v]:
                    raise Violation(f'{txt}: with noise on {k} only, variable {v} varies')
                if not varies and par[v] == 1 << k:
                    raise Violation(f'{txt}: with noise on {k} only, its child {v} does not vary')
                if not par[v] or v == k:
                    continue
                nump = len(ref.bits(par[v]))
                if opt == 'mim' and (np.abs(Z[:, v]) > 3 + 1e-9).any():
                    raise Violation(f'{txt}: variable {v} exceeds the range of its mechanism: {Z[:, v].tolist()}')
                if which == 'pnl':
                    last = opt[1] if isinstance(opt[1], str) else opt[1][-1]
                    width = nump if opt[2] is None else None
                    if width and last in ('tanh', 'cos') and (np.abs(Z[:, v]) > width + 1e-9).any():
                        raise Violation(f'{txt}: variable {v} exceeds the range of {last}: {Z[:, v].tolist()}')
        # the additive model: variable = f(parents) + noise, so scaling its noise moves it linearly
        if which in ('anm', 'sem'):
            for k in range(n):
                ys = [nl(which, A, rows, noise, [s * (m if v == k else 1) for v, s in enumerate(base)], seed, opt)[:, k]
                      for m in (0.0, 1.0, 2.0)]
                rec.step(3)
                if np.abs(ys[0]).max() < 1e6 and not close(ys[2] - ys[1], ys[1] - ys[0], 1e-7, 1e-7):
                    raise Violation(f'{txt}: the noise of variable {k} is not additive')
        rec.state()
    if which == 'pnl':
        # exact forms without randomness: a chain of element-wise functions
        fn = dict(tanh=np.tanh, leaky_relu=None, cos=np.cos)
        for f1, f2, slope in product(fn, fn, ((), (0.5,), (1.5,), (0.2,))):
            fn['leaky_relu'] = lambda x: np.where(x > 0, x, (slope[0] if slope else 0.2) * x)
            Z = nl(which, A, rows, 'gauss', [2.0 if not par[v] else 0.0 for v in range(n)], 11, (f1, f2, None) + slope)
            rec.step()
            for v in range(n):
                ps = ref.bits(par[v])
                if ps and not close(Z[:, v], fn[f2](fn[f1](Z[:, ps])).sum(axis=1), 1e-9, 1e-9):
                    raise Violation(f'post-nonlinear data from {A.tolist()}: variable {v} is {Z[:, v].tolist()}, expected '
                                    f'the sum of {f2}({f1}(parents)) (slope {slope}) = {fn[f2](fn[f1](Z[:, ps])).sum(axis=1).tolist()}')
        # the noise enters before the second function: with one parent it can be read back
        fn['leaky_relu'] = lambda x: np.where(x > 0, x, 0.2 * x)
        inv = dict(tanh=np.arctanh, leaky_relu=lambda y: np.where(y > 0, y, y / 0.2))
        for v in range(n):
            ps = ref.bits(par[v])
            if len(ps) != 1:
                continue
            for f1, f2 in product(fn, inv):
                e = []
                for own in (0.1, 0.3):
                    Z = nl(which, A, rows, 'uniform', [own if u == v else 0.4 for u in range(n)], 12, (f1, f2, None))
                    rec.step()
                    e.append(inv[f2](Z[:, v]) - fn[f1](Z[:, ps[0]]))
                if not close(e[1], 3 * e[0], 1e-7, 1e-7) or (np.abs(e[0]) > 0.1 + 1e-9).any():
                    raise Violation(f'post-nonlinear data ({f1}, {f2}) from {A.tolist()}: the noise of {v} read back is '
                                    f'{e[0].tolist()} at scale 0.1 and {e[1].tolist()} at scale 0.3')
        rec.state()
    rec.trace()
    rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par)), simulator=which))


def check_variable_scale(case, rec):
    """noise scales drawn from a range: one fixed factor per variable, inside the range, times unit noise."""
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    par, kind = case
    par = tuple(par)
    n = len(par)
    W = weights(par, kind)
    T = np.linalg.inv(np.eye(n) - W)
    rows = 5

    def draw(low, high, noise, seed, W=W, rows=rows):
        U.set_random_seed(seed)
        keep = W.copy()
        X = U.simulate_linear_sem_variable_scale(W, rows, noise, low, high)
        rec.step()
        if not (W == keep).all():
            raise Violation(f'variable-scale data from {W.tolist()}: the weights were changed')
        return X

    for noise in ('gauss', 'exp', 'gumbel', 'uniform'):
        for seed in SEEDS:
            txt = f'variable-scale data from {W.tolist()} with {noise} noise'
            X1 = draw(1.0, 1.0, noise, seed)
            if X1.shape != (rows, n) or not np.isfinite(X1).all():
                raise Violation(f'{txt}: shape {X1.shape}')
            N1 = X1 - X1 @ W
            if len(set(np.round(N1, 9).ravel().tolist())) < n * rows:
                raise Violation(f'{txt}: the noise of different samples or variables coincides: {N1.tolist()}')
            if noise == 'uniform' and (np.abs(N1) > 3 ** 0.5 + 1e-9).any():
                raise Violation(f'{txt}: unit uniform noise outside its range: {N1.tolist()}')
            if noise == 'exp' and (N1 < -1e-9).any():
                raise Violation(f'{txt}: exponential noise of {N1.min()}')
            if not close(draw(2.0, 2.0, noise, seed), 2 * X1, 1e-9, 1e-9):
                raise Violation(f'{txt}: scale 2 for every variable does not double the data of scale 1')
            factors = []
            for low, high in ((1.0, 10.0), (0.5, 1.0), (None, None)):
                if low is None:
                    U.set_random_seed(seed)
                    X = U.simulate_linear_sem_variable_scale(W, rows, noise)
                    low, high = 1.0, 10.0
                else:
                    X = draw(low, high, noise, seed)
                N = X - X @ W
                f = N / N1
                if not close(f, np.tile(f[0], (rows, 1)), 1e-6, 1e-6) or (f < low - 1e-6).any() or (f > high + 1e-6).any():
                    raise Violation(f'{txt}, range [{low}, {high}]: the factors of the noise are {f.tolist()}')
                if n > 1 and len(set(np.round(f[0], 9).tolist())) < n:
                    raise Violation(f'{txt}, range [{low}, {high}]: the variables share their factor {f[0].tolist()}')
                factors.append(f[0])
            if not close(factors[0], factors[2], 1e-6, 1e-6):
                raise Violation(f'{txt}: the default range is not [1, 10]: factors {factors}')
        rec.state()
    seen = set()
    for seed in SEEDS:
        P = draw(1.0, 10.0, 'gauss', seed, rows=np.inf)
        D = np.linalg.inv(T).T @ (P.T @ P / n) @ np.linalg.inv(T)     # covariance of the noise
        s = np.sqrt(np.diag(D))
        if not close(D, np.diag(s ** 2), 1e-7, 1e-7) or (s < 1 - 1e-9).any() or (s > 10 + 1e-9).any():
            raise Violation(f'variable-scale population data from {W.tolist()}: noise covariance {D.tolist()}')
        seen.add(tuple(np.round(s, 9)))
    if len(seen) < len(SEEDS):
        raise Violation(f'variable-scale data from {W.tolist()}: the scales do not depend on the seed: {seen}')
    for noise, m in (('exp', np.inf), ('uniform', np.inf), ('logistic', np.inf), ('cauchy', 3)):
        try:
            draw(1.0, 10.0, noise, 1, rows=m)
        except ValueError:
            continue
        raise Violation(f'variable-scale data: {noise} noise accepted for {m} samples')
    for seed in SEEDS:
        for noise, B in (('logistic', 200.0 * np.sign(W)), ('poisson', -200.0 * (W != 0))):
            X = draw(1.0, 10.0, noise, seed, W=B, rows=40)
            drive = X @ B
            bad = (X < 0).any() or (X != np.round(X)).any() or (X[drive < 0] != 0).any()
            if noise == 'logistic':
                bad = bad or (X > 1).any() or (X[drive > 0] != 1).any()
            if bad:
                raise Violation(f'variable-scale {noise} data from {B.tolist()} do not follow their parents: {X.tolist()}')
            for v in range(n):
                free = drive[:, v] == 0
                if free.sum() >= 38 and len(set(X[free, v].tolist())) < 2:
                    raise Violation(f'variable-scale {noise} data: variable {v} never varies')
        counts_follow(lambda B, noise: draw(1.0, 10.0, noise, seed, W=B, rows=300), W, 'variable-scale', rec)
    rec.trace()
    rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par))))


PAIR_NOISE = ['gauss', 'uniform', 'gumbel', 'exp', 'logistic', 'poisson']


def check_pairs(case, rec):
    """cause and effect: the effect is mechanism(cause) + noise, whatever the distribution, sizes and direction."""
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    noise, direct, vc, ve = case
    rows = 30

    def draw(w, linear=True, vc=vc, ve=ve, direct=direct, seed=3, rows=rows):
        U.set_random_seed(seed)
        X = U.simulate_pariwise(w, rows, linear=linear, distribution=noise, direct=direct, var_cause=vc, var_effect=ve)
        rec.step()
        if X.shape != (rows, 2):
            raise Violation(f'pair data: shape {X.shape}')
        return X[:, ::-1] if direct == 1 else X      # cause first

    for seed in SEEDS + [3]:
        base = draw(0.0, seed=seed)
        txt = f'{noise} pair data, direction {direct}, sizes ({vc}, {ve}), seed {seed}'
        if noise in PAIR_NOISE[:4]:
            if len(set(np.round(base, 9).ravel().tolist())) < 2 * rows:
                raise Violation(f'{txt}: noise values coincide: {base.tolist()}')
        else:
            if (base != np.round(base)).any() or (base < 0).any() or (noise == 'logistic' and (base > 1).any()):
                raise Violation(f'{txt}: not counts: {base.tolist()}')
            if min(len(set(base[:, c].tolist())) for c in (0, 1)) < 2 or (base[:, 0] == base[:, 1]).all():
                raise Violation(f'{txt}: degenerate {base.tolist()}')
        for w in (-2.0, 0.5, 3.0):
            X = draw(w, seed=seed)
            if not (X[:, 0] == base[:, 0]).all() or not close(X[:, 1], base[:, 1] + w * base[:, 0], 1e-9, 1e-9):
                raise Violation(f'{txt}, weight {w}: {X.tolist()} is not cause and weight x cause + noise of {base.tolist()}')
        c = base[:, 0]
        for w in (0.0, 2.0):
            X = draw(w, False, seed=seed)
            if not (X[:, 0] == c).all() or not close(X[:, 1], base[:, 1] + np.tanh(c) + np.cos(c) + np.sin(c), 1e-9, 1e-9):
                raise Violation(f'{txt}: the nonlinear effect is {X[:, 1].tolist()}')
        if noise in PAIR_NOISE[:4]:
            for a, b in ((4 * vc, ve), (vc, 9 * ve), (4 * vc, 9 * ve)):
                X = draw(0.0, vc=a, ve=b, seed=seed)
                want = base * np.array([(a / vc) ** 0.5, (b / ve) ** 0.5])
                if not close(X, want, 1e-9, 1e-9):
                    raise Violation(f'{txt}: variances ({a}, {b}) give {X.tolist()}, expected {want.tolist()}')
            if noise == 'uniform' and (np.abs(base) > np.sqrt(3 * np.array([vc, ve])) + 1e-9).any():
                raise Violation(f'{txt}: uniform values exceed their range')
        if not (draw(1.0, direct=1 - direct, seed=seed) == draw(1.0, seed=seed)).all():
            raise Violation(f'{txt}: the two directions differ by more than the order of the columns')
        rec.state()
    if noise in ('gauss', 'uniform', 'exp'):
        big = draw(0.0, rows=4000)
        got = big.var(axis=0)
        if not close(got, [vc, ve], 0.25, 0):
            raise Violation(f'{noise} pair data: variances {got.tolist()} over 4000 samples, expected {[vc, ve]}')
    try:
        U.simulate_pariwise(1.0, 3, distribution='cauchy')
        raise Violation('pair data: an unknown distribution is accepted')
    except ValueError:
        pass
    rec.trace()


def check_scales(case, rec):
    """noise scales of the wrong length or type are rejected; leaky rectifier on every container."""
    import numpy as np
    from cdmir.datasets import utils
    from cdmir.datasets.simlulators import IIDSimulator, TimeLagSimulator
    A = np.array([[0, 1.], [0, 0]])
    L = np.zeros((2, 2, 2))
    for good, scale in ((True, 0.5), (True, [0.5, 1]), (True, np.array([0.5, 2.0])), (True, None), (False, [1.0]),
                        (False, [1.0, 1.0, 1.0]), (False, ['1', '1']), (False, []), (True, (0.5, 0.25))):
        for nm, f in (('linear', lambda: IIDSimulator.simulate_linear_anm(A, 3, 'gauss', scale, seed=1)),
                      ('nonlinear', lambda: IIDSimulator.simulate_nonlinear_anm(A, 3, 'gauss', scale, seed=1)),
                      ('post-nonlinear', lambda: IIDSimulator.simulate_pnl(A, 3, 'gauss', scale, seed=1)),
                      ('lag linear', lambda: TimeLagSimulator.simulate_linear_anm(L, 2, 3, 'gauss', scale, seed=1)),
                      ('lag nonlinear', lambda: TimeLagSimulator.simulate_nonlinear_anm(L, 2, 3, 'gauss', scale, seed=1)),
                      ('lag post-nonlinear', lambda: TimeLagSimulator.simulate_pnl(L, 2, 3, 'gauss', scale, seed=1))):
            rec.step()
            try:
                f()
                ok = True
            except (ValueError, AssertionError):
                ok = False
            if ok != good:
                raise Violation(f'{nm} simulation with noise scale {scale!r} was ' + ('accepted' if ok else 'rejected'))
    for vals in product((-2, -1, 0, 1, 3), repeat=3):
        for dt in (int, float):
            for slope in (0.2, 0.5):
                x = np.array(vals, dtype=dt)
                got = utils.leaky_relu(x, slope)
                rec.step()
                if not close(got, [v if v > 0 else slope * v for v in vals], 1e-12, 1e-12):
                    raise Violation(f'leaky_relu({x!r}, {slope}) = {got!r}')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.datasets.simlulators  # noqa
    import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils  # noqa
    thorough = tier == 'thorough'
    lin, non = [], []
    for n in (1, 2, 3, 4):
        for k, par in enumerate(ref.dags(n)):
            for which in ('iid', 'sem'):
                if n == 4 and not thorough and which == 'sem' and (k + seed) % 2:
                    continue
                lin.append([which, list(par), k + seed])
            for q, which in enumerate(('anm', 'pnl', 'sem')):
                if n == 4 and not thorough and (k + seed + q) % 2:
                    continue
                non.append([which, list(par), k + seed])
    if thorough:
        for k, par in enumerate(ref.unlabelled_dags(5)):
            lin += [['iid', list(par), k], ['sem', list(par), k + 1]]
            non += [[w, list(par), k] for w in ('anm', 'pnl', 'sem')]
    bl, bn = [], []
    for n in (6, 9, 12) + ((7, 8, 16) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            par = ref.relabel(par, ref.shuffled(n, k + seed))
            for q, which in enumerate(('iid', 'sem')):
                if thorough or (k + q) % 2 == 0 or n == 6:
                    bl.append([which, list(par), k + seed])
            for q, which in enumerate(('anm', 'pnl', 'sem')):
                if n < 9 and (thorough or (k + q) % 3 == 0):
                    bn.append([which, list(par), k + seed])
    cyc = [[n, f] for n in (1, 2, 3) for f in (0, 1)]
    var = [[list(par), k + seed] for n in (1, 2, 3, 4) for k, par in enumerate(ref.dags(n))
           if n < 4 or thorough or (k + seed) % 4 == 0]
    pairs = [[d, r, a, b] for d in PAIR_NOISE for r in (0, 1) for a in (1.0, 0.25, 4.0) for b in (1.0, 2.25)]
    return [Space('scales drawn from a range', var, check_variable_scale, limit=200,
                  note='every DAG on <= 3 nodes (4 nodes strided) x noise types x ranges of the noise scale'),
            Space('cause and effect', pairs, check_pairs, limit=200,
                  note='noise types x directions x variances x weights x mechanisms'),
            Space('linear models', lin, check_linear, limit=200,
                  note='every DAG on <= 3 nodes (4 nodes strided over the two simulators) x noise types x noise sources'),
            Space('cycles', cyc, check_cycles, chunk=1, limit=200, note='every 0/1 matrix on <= 3 nodes, diagonal included'),
            Space('linear models, 6 to 12 nodes', bl, check_linear, limit=200, chunk=1, note='18 families of DAGs'),
            Space('nonlinear models, 6 nodes', bn, check_nonlinear, limit=400, chunk=1, note='18 families of DAGs over the three simulators'),
            Space('nonlinear models', non, check_nonlinear, limit=200,
                  note='every DAG on <= 3 nodes (4 nodes strided) x mechanisms x noise sources'),
            Space('arguments', [0], check_scales, note='noise scale forms; leaky rectifier on every small vector')]
