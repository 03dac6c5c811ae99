"""C24: dependence measures and test objects of the hierarchical search: statistics, null distributions, mutual information."""
from itertools import combinations, combinations_with_replacement, permutations, product

from mc.core import Space, Violation, close

PROPERTY = 'C24'
TITLE = 'Dependence measures and their tests follow their definitions'
ASSUMPTIONS = ['kernels are supplied by the caller as objects with a method kernel(X, Y=None), as the test objects require',
               'random choices (shuffles, normal draws) are a controlled environment; every outcome within the bounds is explored',
               'streaming blocks and HSIC2/fastHSIC (absent package) are outside']
PKG = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'


def mod(name):
    import importlib
    return importlib.import_module(PKG + name)


def init():
    for m in ('mutual', 'independence', 'HSIC', 'indTest.HSICTestObject', 'indTest.HSICPermutationTestObject', 'indTest.HSICSpectralTestObject',
              'indTest.HSICBlockTestObject', 'indTest.FisherTest', 'indTest.independence', 'indTest.HSIC'):
        mod(m)


class RBF:
    """a caller's kernel; the matrix handed out is kept, so changes to it are seen."""

    def __init__(self, width=1.0):
        self.width, self.out, self.seen = width, [], []

    def set_width(self, w):
        self.width = w

    def get_sigma_median_heuristic(self, X):
        import numpy as np
        self.seen.append(np.array(X))
        return 1.0 + float(np.abs(X).mean())

    def kernel(self, X, Y=None):
        K = ref_kernel(X, self.width)
        self.out.append((K, K.copy()))
        return K


def ref_kernel(X, w=1.0):
    import numpy as np
    X = np.asarray(X, dtype=float)
    return np.exp(-((X[:, None, :] - X[None, :, :]) ** 2).sum(-1) / 2 / w ** 2)


def ref_u(K, L):
    """unbiased statistic: average over ordered tuples of distinct indices."""
    n = len(K)
    a = b = c = 0.0
    for i, j in permutations(range(n), 2):
        a += K[i][j] * L[i][j]
        for q in range(n):
            if q not in (i, j):
                c += K[i][j] * L[i][q]
                for r in range(n):
                    if r not in (i, j, q):
                        b += K[i][j] * L[q][r]
    return a / (n * (n - 1)) + b / (n * (n - 1) * (n - 2) * (n - 3)) - 2 * c / (n * (n - 1) * (n - 2))


def fast_u(K, L):
    import numpy as np
    K, L = np.array(K, dtype=float), np.array(L, dtype=float)
    n = len(K)
    np.fill_diagonal(K, 0)
    np.fill_diagonal(L, 0)
    return ((K * L).sum() + K.sum() * L.sum() / (n - 1) / (n - 2) - 2 * (K.sum(0) * L.sum(0)).sum() / (n - 2)) / n / (n - 3)


def centred(K):
    K = K - K.mean(0)
    return K - K.mean(1)[:, None]


def ref_v(K, L):
    return float((centred(K) * centred(L)).sum())


# ------------------------------------------------------------- statistics
def symmetric(n, vals):
    import numpy as np
    K = np.zeros((n, n))
    for (i, j), v in zip([(i, j) for i in range(n) for j in range(i, n)], vals):
        K[i, j] = K[j, i] = v
    return K


def check_statistics(case, rec):
    import numpy as np
    n, a, b = case
    H = mod('indTest.HSICTestObject').HSICTestObject
    K, L = symmetric(n, a), symmetric(n, b)
    u, v = ref_u(K, L), ref_v(K, L)
    if abs(u - fast_u(K, L)) > 1e-9:
        raise Violation('the two references disagree')
    what = f'kernel matrices {K.tolist()} and {L.tolist()}'
    for f, want, name in ((H.HSIC_U_statistic, u, 'HSIC_U_statistic'), (H.HSIC_V_statistic, v, 'HSIC_V_statistic')):
        for P, Q, tag in ((K, L, ''), (L, K, ' exchanged')):
            A, B = P.copy(), Q.copy()
            got = f(A, B)
            rec.step()
            if not close(float(got), want, 1e-9, 1e-10):
                raise Violation(f'{name} of {what}{tag} is {got}, by definition {want}')
            if (A != P).any() or (B != Q).any():
                raise Violation(f'{name} changed the matrices it was given ({what}{tag})')
    for unbiased, f in ((False, ref_v), (True, fast_u)):
        d = f(K, K) * f(L, L)
        if d > 1e-9:
            got = H.dCor_HSIC_statistic(K.copy(), L.copy(), unbiased)
            rec.step()
            if not close(float(got), f(K, L) / d ** .5, 1e-8, 1e-9):
                raise Violation(f'dCor_HSIC_statistic(unbiased={unbiased}) of {what} is {got}, by definition {f(K, L) / d ** .5}')
    phi, psi = K[:, :2], L[:, :3]
    got = H.HSIC_V_statistic_rff(phi.copy(), psi.copy())
    want = ref_v(phi @ phi.T, psi @ psi.T) / n ** 2
    if not close(float(got), want, 1e-9, 1e-10):
        raise Violation(f'HSIC_V_statistic_rff of features {phi.tolist()}, {psi.tolist()} is {got}, by definition {want}')
    d = ref_v(phi @ phi.T, phi @ phi.T) * ref_v(psi @ psi.T, psi @ psi.T)
    if d > 1e-9:
        got = H.dCor_HSIC_statistic_rff(phi.copy(), psi.copy())
        if not close(float(got), want * n ** 2 / d ** .5, 1e-8, 1e-9):
            raise Violation(f'dCor_HSIC_statistic_rff of features {phi.tolist()}, {psi.tolist()} is {got}')
    rec.state()


def statistics_cases(tier):
    out = []
    k = 0
    for n, pool in ((4, 64), (5, 29), (6, 11)):
        m = n * (n + 1) // 2
        mats = []
        for bits in range(pool):
            # every pattern of off-diagonal ones is reached by stepping through the 2^(n(n-1)/2) patterns
            pat = bits * ((2 ** (n * (n - 1) // 2) - 1) // (pool - 1))
            off = [(pat >> t) & 1 for t in range(n * (n - 1) // 2)]
            vals, t = [], 0
            for i in range(n):
                for j in range(i, n):
                    if i == j:
                        vals.append([1, 2, 1, 0, 3, 1][(i + bits) % 6])
                    else:
                        vals.append(off[t] * [1, 1, -2, .5][(bits // 3 + t) % 4])
                        t += 1
            mats.append(vals)
        for a, b in combinations_with_replacement(range(pool), 2):
            k += 1
            if tier == 'thorough' or k % 2 == 0:
                out.append([n, mats[a], mats[b]])
    return out


# ------------------------------------------------------------- permutation test
class Patch:
    """numpy.random functions replaced for one test, both in numpy and where the module imported them."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __enter__(self):
        import numpy as np
        self.calls = 0

        def fake(*a, **k):
            self.calls += 1
            return self.fn(*a, **k)
        self.saved = []
        for m in (np.random, mod('indTest.HSICTestObject'), mod('indTest.HSICPermutationTestObject'), mod('indTest.HSICSpectralTestObject'),
                  mod('indTest.HSICBlockTestObject')):
            if hasattr(m, self.name):
                self.saved.append((m, getattr(m, self.name)))
                setattr(m, self.name, fake)
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            setattr(m, self.name, f)


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def data_of(xs):
    import numpy as np
    return np.array([[float(v)] if not isinstance(v, (list, tuple)) else [float(w) for w in v] for v in xs])


def untouched(k, what):
    for K, keep in k.out:
        if (K != keep).any():
            raise Violation(f'{what}: a matrix returned by the kernel was changed')


def check_permutation(case, rec):
    import numpy as np
    xs, ys, shuffles, unbiased, give = case
    X, Y = data_of(xs), data_of(ys)
    n = len(X)
    f = fast_u if unbiased else ref_v
    T = mod('indTest.HSICPermutationTestObject').HSICPermutationTestObject
    K, L = ref_kernel(X), ref_kernel(Y, 2.0)
    stat = f(K, L)
    perms = list(permutations(range(n)))
    null = {p: f(K, L[np.ix_(p, p)]) for p in perms}
    what = f'permutation test of {xs} against {ys}, {shuffles} shuffles, unbiased={unbiased}'
    plans = product(perms, repeat=shuffles)
    if shuffles > 1:
        plans = (tuple(perms[(i * 7 + j * (5 + i)) % len(perms)] for j in range(shuffles)) for i in range(len(perms)))
    for plan in plans:
        todo = list(plan)

        def permute(k):
            a = todo.pop(0)
            return np.array(a) if np.ndim(k) == 0 else np.asarray(k)[list(a)]
        kx, ky = RBF(), RBF(2.0)
        gen = lambda m: (X.copy(), Y.copy())
        obj = T(n, data_generator=gen if give else None, kernelX=kx, kernelY=ky, num_shuffles=shuffles, unbiased=unbiased)
        with Patch('permutation', permute) as P:
            p = quiet(obj.compute_pvalue) if give else quiet(lambda: obj.compute_pvalue(X.copy(), Y.copy()))
        rec.step()
        if P.calls == shuffles:
            vals = [null[q] for q in plan]
            lo = (1 + sum(v > stat + 1e-9 for v in vals)) / (1 + shuffles)
            hi = (1 + sum(v >= stat - 1e-9 for v in vals)) / (1 + shuffles)
        else:
            lo, hi = 1 / (1 + shuffles), 1.0
        if not lo - 1e-12 <= p <= hi + 1e-12:
            raise Violation(f'{what}: with the shuffles {plan} the p-value is {p}; the statistic is {stat}, the shuffled ones {[null[q] for q in plan]}')
        untouched(kx, what)
        untouched(ky, what)
        if P.calls == shuffles and bool(_decide(obj, X, Y, plan, .5)) != (p < .5):
            raise Violation(f'{what}: perform_test(0.5) does not reject exactly when p = {p} < 0.5')
    rec.state()
    rec.trace()


def _decide(obj, X, Y, plan, alpha):
    import numpy as np
    todo = list(plan)

    def permute(k):
        a = todo.pop(0)
        return np.array(a) if np.ndim(k) == 0 else np.asarray(k)[list(a)]
    obj.data_generator = lambda m: (X.copy(), Y.copy())
    with Patch('permutation', permute):
        return quiet(lambda: obj.perform_test(alpha))


def small_data(tier):
    out = []
    vals = [0, 1, 3]
    k = 0
    for pts in combinations_with_replacement(list(product(vals, repeat=2)), 4):
        k += 1
        xs, ys = [a for a, _ in pts], [b for _, b in pts]
        if len(set(xs)) > 1 and len(set(ys)) > 1 and (tier == 'thorough' or k % 9 == 0):
            out.append((xs, ys))
    return out


def permutation_cases(tier):
    out = []
    for i, (xs, ys) in enumerate(small_data(tier)):
        for u in (True, False):
            out.append([xs, ys, 1 + i % 4, u, (i + u) % 2])
    out += [[[0, 1, 3, 7, 4], [2, 0, 1, 5, 5], 1, u, g] for u in (True, False) for g in (0, 1)]
    return out


# ------------------------------------------------------------- spectral test
def check_spectral(case, rec):
    """every null sample is one product of eigenvalues (one-hot draws), or all of them (constant draws)."""
    import numpy as np
    xs, ys, unbiased, give = case
    X, Y = data_of(xs), data_of(ys)
    n = len(X)
    T = mod('indTest.HSICSpectralTestObject').HSICSpectralTestObject
    K, L = ref_kernel(X), ref_kernel(Y, 2.0)
    lam, mu = np.linalg.eigvalsh(centred(K)), np.linalg.eigvalsh(centred(L))
    # n times the (normalised) statistic is distributed like sum of lam mu z^2 / n^2 (minus one for each z^2 when unbiased)
    level = (n * fast_u(K, L) if unbiased else ref_v(K, L) / n) * n ** 2
    what = f'spectral test of {xs} against {ys}, unbiased={unbiased}'

    def pvalue(draw, sims):
        kx, ky = RBF(), RBF(2.0)
        obj = T(n, data_generator=(lambda m: (X.copy(), Y.copy())) if give else None, kernelX=kx, kernelY=ky, num_nullsims=sims, unbiased=unbiased)
        state = {'k': 0, 'ok': True}

        def randn(*shape):
            state['k'] += 1
            if shape != (n, n):
                state['ok'] = False
            return draw(shape, state['k'] - 1)
        with Patch('randn', randn):
            p = quiet(obj.compute_pvalue) if give else quiet(lambda: obj.compute_pvalue(X.copy(), Y.copy()))
        rec.step()
        untouched(kx, what)
        untouched(ky, what)
        return p, state['ok'] and state['k'] == sims, state['k']

    def null(Z):
        return float(lam @ (Z ** 2 - (1 if unbiased else 0)) @ mu)

    for c in (0.0, 0.3, 0.7, 1.0, 1.5, 3.0, 8.0):
        v = null(np.full((n, n), c))
        p, _, used = pvalue(lambda shape, k: np.full(shape, c), 3)
        if used and abs(v - level) > 1e-7 * max(1, abs(level)):
            want = 1.0 if v > level else 0.25
            if not close(p, want, 1e-12, 1e-12):
                raise Violation(f'{what}: with all normal draws {c} the null samples are {v}, the statistic is {level} on that scale, so p = {want}, not {p}')
    for size in (1.0, 2.0, 5.0):
        def hot(shape, k):
            Z = np.zeros(shape)
            if len(shape) == 2:
                Z[k // n % shape[0], k % shape[1]] = size
            return Z
        vals = [null(hot((n, n), k)) for k in range(n * n)]
        p, ok, _ = pvalue(hot, n * n)
        if ok:
            lo = (1 + sum(v > level + 1e-7 * max(1, abs(level)) for v in vals)) / (1 + n * n)
            hi = (1 + sum(v > level - 1e-7 * max(1, abs(level)) for v in vals)) / (1 + n * n)
            if not lo - 1e-12 <= p <= hi + 1e-12:
                raise Violation(f'{what}: over all one-hot draws of size {size} the null samples are {sorted(vals)}, the statistic is {level}; p is {p}')
    rec.state()
    rec.trace()


def spectral_cases(tier):
    out = []
    for i, (xs, ys) in enumerate(small_data(tier)):
        for u in (True, False):
            out.append([xs, ys, u, (i + u) % 2])
    more = [([0, 1, 3, 7, 4, 4, 9], [2, 0, 1, 5, 5, 6, 8]), ([0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5]), ([[0, 1], [1, 1], [5, 2], [3, 0], [4, 4]], [1, 2, 3, 1, 7])]
    out += [[xs, ys, u, g] for xs, ys in more for u in (True, False) for g in (0, 1)]
    return out


# ------------------------------------------------------------- block test
def check_block(case, rec):
    import numpy as np
    from statistics import NormalDist
    n, size, kind, method, medians, give = case
    X = data_of([((7 * i * i + 3 * i + kind) % 11) / 3 for i in range(n)])
    Y = data_of([((5 * i * i + i * kind) % 13) / 4 + (kind % 3) * X[i][0] / 3 for i in range(n)])
    wx, wy = (1.0 + float(np.abs(X).mean()), 1.0 + float(np.abs(Y).mean())) if medians else (1.0, 2.0)
    blocks = [slice(b * size, (b + 1) * size) for b in range(n // size)]
    mats = [(ref_kernel(X[b], wx), ref_kernel(Y[b], wy)) for b in blocks]
    stats = np.array([fast_u(K, L) for K, L in mats])
    what = f'block test ({method}) of {n} rows of design {kind} in blocks of {size}'
    T = mod('indTest.HSICBlockTestObject').HSICBlockTestObject
    shifts = range(4) if method == 'permutation' else [0]
    for shift in shifts:
        perms = [[(3 * i + shift + b) % size if size % 3 else (i + shift + b) % size for i in range(size)] for b in range(len(blocks))]
        todo = list(perms)

        def permute(k):
            a = todo.pop(0)
            return np.array(a) if np.ndim(k) == 0 else np.asarray(k)[list(a)]
        kx, ky = RBF(), RBF(2.0)
        obj = T(n, data_generator=(lambda m: (X.copy(), Y.copy())) if give else None, kernelX=kx, kernelY=ky, kernelX_use_median=medians,
                kernelY_use_median=medians, blocksize=size, nullvarmethod=method)
        with Patch('permutation', permute) as P:
            p = quiet(obj.compute_pvalue) if give else quiet(lambda: obj.compute_pvalue(X.copy(), Y.copy()))
        rec.step()
        # size * (block statistic) has, under independence, the variance estimated in one of three ways
        if method == 'permutation':
            if P.calls != len(blocks):
                continue
            null = [fast_u(K, L[np.ix_(q, q)]) for (K, L), q in zip(mats, perms)]
            var = size ** 2 * np.var(null)
        elif method == 'direct':
            var = 2 * np.mean([fast_u(K, K) for K, _ in mats]) * np.mean([fast_u(L, L) for _, L in mats])
        else:
            var = size ** 2 * np.var(stats)
        if var < 1e-10:
            continue
        z = np.sqrt(len(blocks)) * size * stats.mean() / np.sqrt(var)
        want = NormalDist().cdf(-z)
        if not close(float(p), want, 1e-6, 1e-9):
            raise Violation(f'{what}: the p-value is {p}; block statistics {stats.tolist()} and null variance {var} give z = {z}, p = {want}')
        untouched(kx, what)
        untouched(ky, what)
        if medians and not (kx.seen and ky.seen and all((s == X).all() for s in kx.seen) and all((s == Y).all() for s in ky.seen)):
            raise Violation(f'{what}: kernel widths were not set from the data')
        try:
            T(n, data_generator=lambda m: (X.copy(), Y.copy()), kernelX=kx, kernelY=ky, blocksize=size, nullvarmethod='other').compute_pvalue()
        except NotImplementedError:
            pass
        else:
            raise Violation('an unknown null variance method was accepted')
    rec.state()
    rec.trace()


def block_cases(tier):
    out = []
    for size, counts in ((4, (2, 3, 5)), (5, (2, 4)), (7, (2, 3)), (10, (2, 3))):
        for c in counts:
            for kind in range(9 if tier == 'thorough' else 3):
                for m in ('permutation', 'direct', 'across'):
                    out.append([size * c, size, kind, m, kind % 2, (kind + c) % 2])
    return out


# ------------------------------------------------------------- random features and induced sets
class Features:
    """a caller's kernel with deterministic 'random' features; also a cross kernel for induced sets."""

    def __init__(self, width=1.0):
        self.width, self.asked = width, []

    def set_width(self, w):
        self.width = w

    def get_sigma_median_heuristic(self, X):
        import numpy as np
        return 1.0 + float(np.abs(X).mean())

    def rff_generate(self, num, dim=1):
        self.asked.append((num, dim))
        self.num, self.dim = num, dim

    def rff_expand(self, X):
        return features(X, self.num, self.width)

    def kernel(self, X, Y=None):
        return cross(X, X if Y is None else Y, self.width)


def features(X, num, w):
    import numpy as np
    X = np.asarray(X, dtype=float)
    half = num // 2
    W = np.array([[((3 * a + 5 * b) % 7 - 2.5) / 2 for b in range(half)] for a in range(X.shape[1])])
    return np.hstack([np.cos(X @ W / w), np.sin(X @ W / w)]) * (2 / num) ** .5


def cross(X, Y, w):
    import numpy as np
    X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    return np.exp(-((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1) / 2 / w ** 2)


def root(K):
    import numpy as np
    return np.linalg.inv(K + 1e-6 * np.eye(len(K)))


def check_features(case, rec):
    """the kernel matrices are those of the features; permutation and spectral tests then follow the definitions."""
    import numpy as np
    xs, ys, mode, unbiased, medians, give, test = case
    X, Y = data_of(xs), data_of(ys)
    n = len(X)
    wx, wy = (1.0 + float(np.abs(X).mean()), 1.0 + float(np.abs(Y).mean())) if medians else (1.0, 2.0)
    nx, ny = (4, 6) if mode == 'rff' else (3, 3)
    what = f'{test} test ({mode}, {nx} and {ny} features) of {xs} against {ys}, unbiased={unbiased}, medians={medians}'
    choices = [None] if mode == 'rff' else [(0, 1, 2), (n - 1, 0, n // 2), (1, 1, n - 2)]
    for idx in choices:
        if mode == 'rff':
            fx, fy = features(X, nx, wx), features(Y, ny, wy)
            K, L = fx @ fx.T, fy @ fy.T
        else:
            Z, V = X[list(idx)], Y[list(idx)]
            a, b = cross(X, Z, wx), cross(Y, V, wy)
            K, L = a @ root(cross(Z, Z, wx)) @ a.T, b @ root(cross(V, V, wy)) @ b.T
            if np.linalg.cond(cross(Z, Z, wx)) > 1e8 or np.linalg.cond(cross(V, V, wy)) > 1e8:
                if len(set(idx)) == 3:
                    continue
        # repeated or close inducing points leave a near-singular matrix: the code's root is then accurate to about 1e-8
        tol = 1e-6
        gen = {'k': 0}

        def generator(m):
            if m == n and give and gen['k'] == 0:
                gen['k'] += 1
                return X.copy(), Y.copy()
            return X[list(idx)].copy(), Y[list(idx)].copy()
        args = dict(data_generator=generator if give else None, kernelX=Features(), kernelY=Features(2.0), kernelX_use_median=medians,
                    kernelY_use_median=medians, unbiased=unbiased)
        args.update(dict(rff=True, num_rfx=nx, num_rfy=ny) if mode == 'rff' else dict(induce_set=True, num_inducex=nx, num_inducey=ny))

        def run(obj):
            gen['k'] = 0
            with Patch('randint', lambda *a, **k: np.array(idx)):
                return quiet(obj.compute_pvalue) if give else quiet(lambda: obj.compute_pvalue(X.copy(), Y.copy()))
        if test == 'permutation':
            f = fast_u if unbiased else (lambda K, L: ref_v(K, L) / n ** 2)
            stat = f(K, L)
            T = mod('indTest.HSICPermutationTestObject').HSICPermutationTestObject
            perms = list(permutations(range(n))) if n < 5 else [tuple((i * m + s) % n for i in range(n)) for m in (1, n - 1) for s in range(n)]
            for q in perms:
                with Patch('permutation', lambda k: np.array(q) if np.ndim(k) == 0 else np.asarray(k)[list(q)]) as P:
                    p = run(T(n, num_shuffles=1, **args))
                rec.step()
                other = f(K, L[np.ix_(q, q)])
                if P.calls == 1 and abs(other - stat) > tol and p != (1.0 if other > stat else .5):
                    raise Violation(f'{what}, induced rows {idx}: with the shuffle {q} the p-value is {p}; the statistic is {stat}, the shuffled one {other}')
        elif test == 'spectral':
            T = mod('indTest.HSICSpectralTestObject').HSICSpectralTestObject
            total = np.trace(centred(K)) * np.trace(centred(L))
            for c in (0.0, 0.3, 0.7, 1.0, 1.2, 1.5, 2.0, 3.0, 8.0):
                with Patch('randn', lambda *shape: np.full(shape, c)) as P:
                    p = run(T(n, num_nullsims=3, **args))
                rec.step()
                # the covariance of the features may be normalised by n or by n - 1
                null = [total * (c * c - (1 if unbiased else 0)) / d ** 2 for d in (n, n - 1)]
                level = n * fast_u(K, L) if unbiased else ref_v(K, L) / n
                if P.calls and (min(null) > level + tol * max(1, abs(level)) or max(null) < level - tol * max(1, abs(level))):
                    want = 1.0 if null[0] > level else .25
                    if not close(p, want, 1e-12, 1e-12):
                        raise Violation(f'{what}, induced rows {idx}: with all normal draws {c} the null samples are {null[0]}, the statistic is {level} '
                                        f'on that scale, so p = {want}, not {p}')
        else:
            if mode != 'rff':
                return
            from statistics import NormalDist
            T = mod('indTest.HSICBlockTestObject').HSICBlockTestObject
            size = n // 2
            del args['unbiased']
            for method in ('across', 'permutation'):
                for s in range(size):
                    q = [(i + s) % size if i else s for i in range(size)]
                    with Patch('permutation', lambda k: np.array(q) if np.ndim(k) == 0 else np.asarray(k)[q]) as P:
                        p = run(T(n, blocksize=size, nullvarmethod=method, **args))
                    rec.step()
                    mats = [(K[:size, :size], L[:size, :size]), (K[size:, size:], L[size:, size:])]
                    stats = np.array([fast_u(A, B) for A, B in mats])
                    null = stats if method == 'across' else np.array([fast_u(A, B[np.ix_(q, q)]) for A, B in mats])
                    if method == 'permutation' and P.calls != 2 or np.var(null) < 1e-12:
                        continue
                    want = NormalDist().cdf(-(2 ** .5) * stats.mean() / np.var(null) ** .5)
                    if not close(float(p), want, 1e-6, 1e-9):
                        raise Violation(f'{what}, {method} variance, shuffle {q}: the p-value is {p}; block statistics {stats.tolist()}, null {null.tolist()} give {want}')
        for k, num, D in ((args['kernelX'], nx, X), (args['kernelY'], ny, Y)):
            if mode == 'rff' and any(a != (num, D.shape[1]) for a in k.asked):
                raise Violation(f'{what}: features asked for as {k.asked}, not {num} of dimension {D.shape[1]}')
    rec.state()
    rec.trace()


def feature_cases(tier):
    out = []
    data = small_data(tier)
    for i, (xs, ys) in enumerate(data[::3 if tier == 'thorough' else 8]):
        for u in (True, False):
            for m in ('rff', 'induced'):
                for t in ('permutation', 'spectral'):
                    out.append([xs, ys, m, u, (i + u) % 2, (i // 2) % 2, t])
    more = [([0, 1, 3, 7, 4, 4, 9, 2], [2, 0, 1, 5, 5, 6, 8, 1]), ([0, 1, 2, 3, 4, 5, 6, 9], [0, 1, 2, 3, 4, 5, 7, 6]),
            ([[0, 1], [1, 1], [5, 2], [3, 0], [4, 4], [2, 2], [0, 3], [1, 0], [2, 5], [6, 1]], [1, 2, 3, 1, 7, 5, 2, 0, 4, 3])]
    for xs, ys in more:
        for m in ('rff', 'induced'):
            for t in ('permutation', 'spectral', 'block'):
                for u in (True, False):
                    for g in (0, 1):
                        out.append([xs, ys, m, u, g if t != 'block' else 0, g, t])
    return out


# ------------------------------------------------------------- averages over columns, fixed data
def check_object(case, rec):
    import numpy as np
    xs, ys, unbiased, medians = case
    X, Y = np.array(xs, dtype=float), np.array(ys, dtype=float)
    n = len(X)
    T = mod('indTest.HSICPermutationTestObject').HSICPermutationTestObject
    what = f'columns {xs} against {ys}, unbiased={unbiased}'
    calls = []

    def gen(m):
        calls.append(m)
        return X.copy(), Y.copy()
    f = fast_u if unbiased else ref_v
    cols = [X[:, [d]] for d in range(X.shape[1])]
    med = lambda A: 1.0 + float(np.abs(A).mean())
    Ks = [ref_kernel(c, med(c) if medians else 1.0) for c in cols]
    L = ref_kernel(Y, med(Y) if medians else 2.0)
    want = np.mean([f(K, L) for K in Ks])
    for form in ('given', 'stored'):
        kx, ky = RBF(), RBF(2.0)
        obj = T(n, data_generator=gen, kernelX=kx, kernelY=ky, kernelX_use_median=medians, kernelY_use_median=medians, unbiased=unbiased, num_shuffles=2)
        if form == 'stored':
            got = obj.generate_data()
            rec.expect((got[0] == X).all() and (got[1] == Y).all() and calls[-1] == n, what + ': generate_data does not ask for the samples')
            args = {}
        else:
            args = dict(data_x=X.copy(), data_y=Y.copy())
        got = obj.SubHSIC_statistic(unbiased=unbiased, **args)
        rec.step()
        if not close(float(got), want, 1e-9, 1e-10):
            raise Violation(f'{what}: SubHSIC_statistic ({form}) is {got}, the mean over columns is {want}')
        ds = [f(K, K) * f(L, L) for K in Ks]
        if min(ds) > 1e-9:
            w = np.mean([f(K, L) / d ** .5 for K, d in zip(Ks, ds)])
            got = obj.SubdCor_HSIC_statistic(unbiased=unbiased, **args)
            if not close(float(got), w, 1e-8, 1e-9):
                raise Violation(f'{what}: SubdCor_HSIC_statistic ({form}) is {got}, the mean over columns is {w}')
        untouched(kx, what)
        untouched(ky, what)
    rec.state()


def object_cases(tier):
    rows = [[0, 1, 2], [1, 0, 0], [3, 1, 1], [2, 2, 5], [4, 0, 3], [1, 1, 1], [5, 3, 0]]
    ys = [[1, 0], [0, 2], [2, 1], [3, 3], [0, 0], [5, 1], [1, 4]]
    out = []
    for n in (4, 5, 6, 7):
        for pick in (range(0, n), range(7 - n, 7)):
            for d in (1, 2, 3):
                for e in (1, 2):
                    for u in (True, False):
                        for m in (0, 1):
                            out.append([[rows[i][:d] for i in pick], [ys[i][:e] for i in pick], u, m])
    return out


def check_frozen(case, rec):
    """data drawn once are used by every later evaluation."""
    import numpy as np
    kind, method = case
    n, size = 12, 4
    draws = []

    def gen(m):
        k = len(draws)
        draws.append(m)
        return data_of([((7 * i * i + 3 * i + kind + k) % 11) / 3 for i in range(m)]), data_of([((5 * i * i + i * kind + k * i) % 13) / 4 for i in range(m)])
    T = mod('indTest.HSICBlockTestObject').HSICBlockTestObject
    obj = T(n, data_generator=gen, kernelX=RBF(), kernelY=RBF(2.0), blocksize=size, nullvarmethod=method, freeze_data=True)
    a = [quiet(obj.compute_pvalue) for _ in range(3)]
    rec.step(3)
    if draws != [n]:
        raise Violation(f'frozen data were drawn {len(draws)} times')
    draws.clear()
    ref = T(n, data_generator=gen, kernelX=RBF(), kernelY=RBF(2.0), blocksize=size, nullvarmethod=method)
    b = [quiet(ref.compute_pvalue) for _ in range(3)]
    if a[0] != b[0] or len(set(a)) != 1:
        raise Violation(f'frozen data give the p-values {a}; on the same data the test gives {b[0]}')
    if draws != [n] * 3:
        raise Violation(f'data that are not frozen were drawn {len(draws)} times for 3 tests')
    rec.state()


# ------------------------------------------------------------- mutual information
def ref_entropy(X, k):
    import math
    import numpy as np
    from scipy.special import psi
    n, d = X.shape
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    r = np.sort(D, axis=1)[:, k]
    return d * np.mean(np.log(r + np.finfo(float).eps)) + math.log(math.pi ** (d / 2) / math.gamma(d / 2 + 1)) + psi(n) - psi(k)


def check_mutual(case, rec):
    import numpy as np
    pts, k, scale = case
    MI = mod('mutual')
    A = np.array(pts, dtype=float) * scale
    n, m = A.shape
    what = f'points {pts} times {scale}, k={k}'
    got = MI.nearest_distances(A, k)
    D = np.sort(np.sqrt(((A[:, None, :] - A[None, :, :]) ** 2).sum(-1)), axis=1)[:, k]
    rec.step()
    if not np.allclose(got, D, rtol=1e-9, atol=1e-12):
        raise Violation(f'{what}: nearest_distances is {got.tolist()}, the distances to neighbour {k} are {D.tolist()}')
    tie = (D < 1e-6).any() or any((np.sort(np.abs(A[:, [c]] - A[:, c]), axis=1)[:, k] < 1e-6).any() for c in range(m))
    tol = 1e-3 if tie else 1e-8         # log of a distance that is zero up to rounding
    for cols in [list(c) for r in range(1, m + 1) for c in combinations(range(m), r)]:
        B = A[:, cols]
        keep = B.copy()
        got, want = MI.entropy(B, k), ref_entropy(B, k)
        rec.step()
        if not tie and not close(float(got), want, tol, tol):
            raise Violation(f'{what}: the entropy of columns {cols} is {got}, by definition {want}')
        if (B != keep).any():
            raise Violation(f'{what}: the data were changed')
    splits = [[[c] for c in range(m)]] + ([[[0], list(range(1, m))], [list(range(m - 1)), [m - 1]]] if m > 2 else [])
    for sp in splits:
        for order in permutations(sp):
            got = MI.mutual_information(tuple(A[:, c] for c in order), k)
            want = sum(ref_entropy(A[:, c], k) for c in order) - ref_entropy(A[:, [x for c in order for x in c]], k)
            rec.step()
            if not tie and not close(float(got), want, 1e-8, 1e-8):
                raise Violation(f'{what}: the mutual information of the columns {order} is {got}, by definition {want}')
    if m > 1:
        try:
            MI.mutual_information((A,), k)
        except AttributeError:
            pass
        else:
            raise Violation('mutual information of a single variable was computed')
    rec.state()


def mutual_cases(tier):
    grid = list(product([0, 1, 3], [0, 2, 5]))
    out = []
    i = 0
    for n in (4, 5, 6):
        for c in combinations(grid, n):
            for k in (1, 2, 3):
                i += 1
                if tier == 'thorough' or i % 3 == 0:
                    out.append([[list(p) for p in c], k, [1.0, 0.01, 700.0][i % 3]])
    for n in (6, 9, 14):
        for j in range(12):
            P = [[(7 * t * t + 3 * t * j) % 31, (5 * t * t + t + j) % 29, (3 * t ** 3 + j * t) % 37, (11 * t) % 23][:2 + j % 3] for t in range(n)]
            out += [[P, k, s] for k in (1, 2, 4) for s in (1.0, 0.1)]
    # distinct in every column
    for j in range(20):
        n = 7
        P = [[(t * (1 + j % 6)) % 7 + t / 16, (t * (2 + j % 5) + j) % 7 - t / 8] for t in range(n)]
        out += [[P, k, 1.0] for k in (1, 2, 3)]
    return out


def check_gaussian_entropy(case, rec):
    import math
    import numpy as np
    vals, n = case
    MI = mod('mutual')
    C = symmetric(n, vals) + 4 * np.eye(n)
    if abs(np.linalg.det(C)) < 1e-9:
        return
    want = .5 * n * (1 + math.log(2 * math.pi)) + .5 * math.log(abs(np.linalg.det(C)))
    got = MI.entropy_gaussian(C.copy())
    rec.step()
    if not close(float(got), want, 1e-9, 1e-9):
        raise Violation(f'entropy_gaussian({C.tolist()}) is {got}, by definition {want}')
    if n == 1:
        got = MI.entropy_gaussian(float(C[0, 0]))
        if not close(float(got), want, 1e-9, 1e-9):
            raise Violation(f'entropy_gaussian({C[0, 0]}) is {got}, by definition {want}')
    rec.state()


def check_independence(case, rec):
    """the dependence measure of the causal order: k = 10 neighbours, 15 above 3000 samples."""
    import numpy as np
    n, j, swap = case
    t = np.arange(n)
    x = np.sin(t * (1.3 + j)) * 3 + t * 1e-4
    y = np.cos(t * t * (.7 + j / 3)) + (j % 3) * x / 2 + t * 1e-5
    if swap:
        x, y = y, x
    k = 15 if n > 3000 else 10
    D = np.abs(x[:, None] - x)
    E = np.abs(y[:, None] - y)
    want = 0.0
    import math
    from scipy.special import psi
    for M, d in ((D, 1), (E, 1), (np.sqrt(D ** 2 + E ** 2), 2)):
        r = np.partition(M, k, axis=1)[:, k]
        h = d * np.mean(np.log(r)) + math.log(math.pi ** (d / 2) / math.gamma(d / 2 + 1)) + psi(n) - psi(k)
        want += h if d == 1 else -h
    for name in ('independence', 'indTest.independence'):
        a, b = x.copy(), y.copy()
        got = mod(name).independent(a, b)
        rec.step()
        if not close(float(got), abs(want), 1e-7, 1e-9):
            raise Violation(f'{name}.independent on {n} samples of design {j} is {got}, the mutual information with {k} neighbours is {abs(want)}')
        if (a != x).any() or (b != y).any():
            raise Violation(f'{name}.independent changed its data')
    rec.state()


# ------------------------------------------------------------- discrete and histogram information
def check_discrete(case, rec):
    import math
    from collections import Counter
    import numpy as np
    xs, ys = case
    n = len(xs)

    def H(v):
        return -sum(c / n * math.log(c / n) for c in Counter(v).values())
    hx, hy, hxy = H(xs), H(ys), H(list(zip(xs, ys)))
    want = 1.0 if len(set(xs)) == len(set(ys)) == 1 else (hx + hy - hxy) / ((hx + hy) / 2)
    for name in ('independence', 'indTest.independence'):
        got = quiet(lambda: mod(name).independent11(np.array(xs), np.array(ys)))
        rec.step()
        if not close(float(got), want, 1e-9, 1e-9):
            raise Violation(f'{name}.independent11({xs}, {ys}) is {got}, the normalised mutual information is {want}')
    rec.state()


def check_histogram(case, rec):
    import numpy as np
    from scipy import ndimage
    xs, ys, sigma, norm = case
    MI = mod('mutual')
    x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)

    def bins(v):
        lo, hi = v.min(), v.max()
        return np.minimum(((v - lo) / (hi - lo) * 256).astype(int), 255)
    J = np.zeros((256, 256))
    for a, b in zip(bins(x), bins(y)):
        J[a, b] += 1
    J = ndimage.gaussian_filter(J, sigma=sigma, mode='constant') + np.finfo(float).eps
    J /= J.sum()
    px, py = J.sum(1), J.sum(0)
    ent = lambda p: float((p * np.log(p)).sum())
    want = (ent(px) + ent(py)) / ent(J) - 1 if norm else ent(J) - ent(px) - ent(py)
    for a, b, tag in ((x, y, ''), (y, x, ' exchanged')):
        got = MI.mutual_information_2d(a.copy(), b.copy(), sigma=sigma, normalized=norm)
        rec.step()
        if not close(float(got), want, 1e-8, 1e-9):
            raise Violation(f'mutual_information_2d({xs}, {ys}, {sigma}, {norm}){tag} is {got}, the histogram gives {want}')
    rec.state()


def histogram_cases(tier):
    out = []
    k = 0
    for c in combinations(list(product([0, 1, 2.5], [0, 3, 4])), 4):
        xs, ys = [a for a, _ in c], [b for _, b in c]
        if len(set(xs)) > 1 and len(set(ys)) > 1:
            k += 1
            if tier == 'thorough' or k % 2 == 0:
                out.append([xs, ys, [1, 0.5, 3][k % 3], k % 4 < 2])
    return out


def discrete_cases(tier):
    return [[list(x), list(y)] for n in (3, 4, 5 if tier == 'thorough' else 4) for x in product(range(3), repeat=n) for y in product(range(2), repeat=n)][::1 if tier == 'thorough' else 2]


# ------------------------------------------------------------- combination of p-values
def check_fisher(case, rec):
    import math
    ps, alpha = case
    F = mod('indTest.FisherTest').FisherTest
    x = -2 * sum(math.log(p if p > 0 else 1e-5) for p in ps)
    # survival function of chi-square with 2L degrees of freedom
    want = math.exp(-x / 2) * sum((x / 2) ** i / math.factorial(i) for i in range(len(ps)))
    for q in permutations(ps):
        keep = list(q)
        got = F(keep, alpha)
        rec.step()
        if not close(float(got[1]), want, 1e-7, 1e-11):
            raise Violation(f'FisherTest({q}) has p-value {got[1]}, by Fisher\'s method {want}')
        if abs(want - alpha) > 1e-9 and bool(got[0]) != (want > alpha):
            raise Violation(f'FisherTest({q}, {alpha}) decides {got[0]} with p-value {want}')
        if keep != list(q):
            raise Violation('FisherTest changed its list')
        if alpha == .01 and tuple(F(list(q))) != tuple(got):
            raise Violation('the default level of FisherTest is not 0.01')
    rec.state()


def fisher_cases(tier):
    vals = [0, 1e-7, 0.003, 0.04, 0.3, 0.9, 1]
    return [[list(c), a] for k in (1, 2, 3, 4) for c in combinations_with_replacement(vals, k) for a in (0.01, 0.2)]


# ------------------------------------------------------------- building blocks of the one-component discovery
def olc():
    import importlib
    return importlib.import_module('cdmir.discovery.funtional_based.one_component.olc')


def check_cumulant(case, rec):
    """the estimate is unbiased: its mean over all samples of n rows from a population is the fourth joint cumulant of the population."""
    import math
    import numpy as np
    pop, n = case
    pop = np.array(pop, dtype=float)
    f = olc().xcum4
    total = 0.0
    for rows in product(range(len(pop)), repeat=n):
        S = pop[list(rows)]
        keep = S.copy()
        total += float(f(S))
        rec.step()
        rec.expect((S == keep).all(), 'the cumulant changed its sample')
    got = total / len(pop) ** n
    c = pop - pop.mean(0)
    m = lambda *ix: np.prod(c[:, ix], axis=1).mean()
    want = m(0, 1, 2, 3) - m(0, 1) * m(2, 3) - m(0, 2) * m(1, 3) - m(0, 3) * m(1, 2)
    if not close(got, want, 1e-9, 1e-9):
        raise Violation(f'fourth cumulant of the population {pop.tolist()}: the mean over all samples of {n} rows is {got}, the population has {want}')
    S = np.concatenate([pop, pop[:1], pop[::-1] * 2, pop[:2] - 1])
    base = float(f(S.copy()))
    for perm in permutations(range(4)):
        rec.step()
        if not close(float(f(S[:, perm].copy())), base, 1e-9, 1e-9):
            raise Violation(f'fourth cumulant of {S.tolist()} depends on the order of the columns: {perm}')
    for k in range(4):
        B = S * np.where(np.arange(4) == k, -3.0, 1.0) + np.arange(4) * 2.5
        if not close(float(f(B)), -3 * base, 1e-8, 1e-8) or not close(float(f(S[::-1].copy())), base, 1e-9, 1e-9):
            raise Violation(f'fourth cumulant of {S.tolist()}: scaling column {k} by -3 and shifting gives {float(f(B))}, plain {base}')
    for d in (3, 5):
        try:
            f(np.ones((6, d)))
        except Exception:
            continue
        raise Violation(f'the fourth cumulant of {d} columns is answered')
    rec.state()


def cumulant_cases(tier):
    grid = [(0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 1, 2), (2, -1, 0, 1), (1, 1, 1, 1), (-1, 2, 3, 0), (0, 0, 3, 1)]
    out = [[list(c), n] for c in combinations_with_replacement(grid, 2) for n in (4, 5, 6)]
    return out + [[list(c), n] for c in combinations(grid, 3) for n in ((4, 5) if tier == 'thorough' else (4,))]


def check_fisher_floor(case, rec):
    import math
    ps = case
    x = -2 * sum(math.log(max(p, 1e-5)) for p in ps)
    want = math.exp(-x / 2) * sum((x / 2) ** i / math.factorial(i) for i in range(len(ps)))
    for q in permutations(ps):
        for form in (list, tuple):
            keep = form(q)
            got = float(olc().fisher_test(keep))
            rec.step()
            if not close(got, want, 1e-7, 1e-11) or keep != form(q):
                raise Violation(f'combining the p-values {q} gives {got}, by Fisher\'s method {want} (list afterwards {keep})')
    rec.state()


def check_surrogate(case, rec):
    """the combination of the variables that the given loadings cancel in."""
    import numpy as np
    A, X, c, modo, z = case
    n = len(A)
    A = np.array(A, dtype=float)
    data = np.array([[((3 * i + 5 * j) ** 2 % 17) - 6 + 0.25 * i for j in range(n)] for i in range(7)], dtype=float)
    ka, kd, kx, kc = A.copy(), data.copy(), list(X), list(c)
    use = list(X) + ([z] if modo else [])
    M = A[np.ix_(use, c)].T
    e = np.asarray(olc().surrogate_regression(data=data, A=A, X=kx, common_exogenous=kc, **(dict(mod_omega=True, z=z) if modo else {})))
    rec.step()
    if not ((A == ka).all() and (data == kd).all() and kx == list(X) and kc == list(c)):
        raise Violation(f'surrogate regression changed its arguments: {A.tolist()} {kx} {kc}')
    w, *_ = np.linalg.lstsq(data[:, use], e, rcond=None)
    if e.shape != (7,) or not close(data[:, use] @ w, e, 1e-7, 1e-7):
        raise Violation(f'surrogate regression of {use} is not a combination of these variables: {e.tolist()}')
    if modo and not close(w[-1], 1, 1e-7, 1e-7) or not modo and not close((w ** 2).sum(), 1, 1e-7, 1e-7):
        raise Violation(f'surrogate regression of {use} has weights {w.tolist()}')
    if np.abs(M @ w).max(initial=0) > 1e-6 * max(1, np.abs(w).max()):
        raise Violation(f'surrogate regression of {use} with loadings {M.tolist()}: weights {w.tolist()} leave {(M @ w).tolist()}')
    rec.state()


def surrogate_cases(tier):
    import numpy as np
    out = []
    vals = (0, 1, -1, 2)
    for k, m in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2)):
        for t, cells in enumerate(product(vals, repeat=k * m)):
            if len(cells) > 3 and t % (1 if tier == 'thorough' else 7):
                continue
            n = 5
            A = [[((3 * i + 7 * j) % 5) - 2 for j in range(n)] for i in range(n)]
            rows = [(t + 2 * i) % n for i in range(k)]
            if len(set(rows)) < k:
                rows = [4, 1, 3][:k]
            cols = [(t + j) % n for j in range(m)]
            for i in range(k):
                for j in range(m):
                    A[rows[i]][cols[j]] = cells[i * m + j]
            out.append([A, rows, cols, False, None])
            if k > 1:
                S = np.array(A, dtype=float)[np.ix_(rows, cols)].T
                v = np.linalg.svd(S)[2][-1]
                kernel = k - np.linalg.matrix_rank(S) if m else k
                if abs(v[-1]) > 1e-3 and kernel == 1:
                    out.append([A, rows[:-1], cols, True, rows[-1]])
    return out


# ------------------------------------------------------------- HSIC with gamma threshold (copies of the same test)
def check_copies(case, rec):
    import numpy as np
    from scipy.stats import gamma
    n, j, dx, dy, alph = case
    t = np.arange(n)
    X = np.array([np.sin(t * (1.1 + j + c)) + t * 1e-3 for c in range(dx)]).T
    Y = np.array([np.cos(t * t * (.3 + j + c)) + (j % 3) * X[:, 0] for c in range(dy)]).T

    def gram(A):
        d = ((A[:, None] - A[None]) ** 2).sum(-1)
        return np.exp(-d / np.median(d[np.triu_indices(n, 1)]))
    K, L = gram(X), gram(Y)
    Kc, Lc = centred(K), centred(L)
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx, my = (K.sum() - n) / n / (n - 1), (L.sum() - n) / n / (n - 1)
    m = (1 + mx * my - mx - my) / n
    cut = gamma.ppf(1 - alph, m ** 2 / v, scale=v * n / m)
    for name, decide in (('HSIC', 'test'), ('indTest.HSIC', 'independent')):
        M = mod(name)
        got = M.hsic_gam(X.copy(), Y.copy(), alph)
        rec.step()
        if not (close(float(got[0]), stat, 1e-6, 1e-9) and close(float(got[1]), cut, 1e-5, 1e-9)):
            raise Violation(f'{name}.hsic_gam on design {j} with {n} rows at level {alph} is {got}, expected {(stat, cut)}')
        if dx == dy == 1 and abs(stat - cut) > 1e-6:
            d = getattr(M, decide)(X[:, 0].copy(), Y[:, 0].copy(), alph)
            if bool(d) != bool(stat < cut):
                raise Violation(f'{name}.{decide} on design {j} with {n} rows at level {alph} is {d}; statistic {stat}, threshold {cut}')
    rec.state()


def spaces(tier, seed):
    th = tier == 'thorough'
    return [
        Space('statistics', statistics_cases(tier), check_statistics, limit=60, init=init, note='pairs of symmetric matrices of size 4-6, averages over all index tuples'),
        Space('permutation test', permutation_cases(tier), check_permutation, limit=240, note='4-point grid data, every shuffle'),
        Space('spectral test', spectral_cases(tier), check_spectral, limit=60, note='4-point grid data, all one-hot and constant draws'),
        Space('block test', block_cases(tier), check_block, limit=60, note='2-5 blocks of 4-10 rows, three null variances'),
        Space('features', feature_cases(tier), check_features, limit=60, note='random features and induced sets: every shuffle, constant draws'),
        Space('columns', object_cases(tier), check_object, limit=60, note='1-3 columns, 4-7 rows, given and stored data'),
        Space('frozen data', [[k, m] for k in range(6) for m in ('direct', 'across')], check_frozen, limit=60, note='three tests on data drawn once'),
        Space('mutual information', mutual_cases(tier), check_mutual, limit=60, note='subsets of a grid, k = 1-4, every column split and order'),
        Space('gaussian entropy', [[list(v), n] for n in (1, 2) for v in product([0, 1, -2, .5, 3], repeat=n * (n + 1) // 2)]
              + [[list(v), 3] for v in product([0, 1, -1], repeat=6)][::3], check_gaussian_entropy, limit=60, note='matrices of size 1-3'),
        Space('neighbours', [[n, j, s] for n in (12, 40, 300) for j in range(6) for s in (0, 1)] + [[n, j, 0] for n in (3000, 3001) for j in range(3 if th else 1)],
              check_independence, limit=120, chunk=1, note='sample sizes on both sides of 3000'),
        Space('discrete', discrete_cases(tier), check_discrete, limit=60, note='every pair of label vectors of length 3-4'),
        Space('histogram', histogram_cases(tier), check_histogram, limit=120, note='4-point subsets of a grid'),
        Space('combination', fisher_cases(tier), check_fisher, limit=60, note='<= 4 p-values of 7, every order'),
        Space('cumulants', cumulant_cases(tier), check_cumulant, limit=60, note='every population of 2-3 points, every sample of 4-6 rows from it'),
        Space('combination with floor', [list(c) for k in (1, 2, 3, 4) for c in combinations_with_replacement([0, 1e-7, 0.003, 0.04, 0.3, 0.9, 1], k)],
              check_fisher_floor, limit=60, note='<= 4 p-values of 7, every order'),
        Space('surrogates', surrogate_cases(tier), check_surrogate, limit=60, note='1-3 variables, 0-2 loadings over a grid'),
        Space('gamma test', [[n, j, dx, dy, a] for n in (8, 13, 25) for j in range(6) for dx, dy in ((1, 1), (2, 1), (2, 3)) for a in (.01, .3)],
              check_copies, limit=60, note='three sample sizes, 1-3 columns'),
    ]
