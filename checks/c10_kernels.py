"""C10: kernel matrices and kernel independence tests depend on their current inputs only."""
from itertools import permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close

PROPERTY = 'C10'
TITLE = 'Kernel values and kernel tests depend only on the current data and parameters'
ASSUMPTIONS = ['data without constant columns; Gaussian widths that do not subsample (n <= 1000); gamma approximation mode',
               'conditional tests with learned widths are compared with a fresh test object, all others with the formula']


# ------------------------------------------------------------------ kernels
def arrays():
    import numpy as np
    base = np.array([[((3 * i + 5 * j) % 7) / 3.0 - 1.0 for j in range(2)] for i in range(6)])
    near = base.copy()
    near[3, 1] += 4e-9                       # prints the same
    big = np.array([[((7 * i * i + 3 * j) % 101) / 50.0 for j in range(2)] for i in range(520)])
    mid = big.copy()
    mid[250:260] += 1.0                      # differs only where printing elides
    flat = base.reshape(12, 1)
    view = np.repeat(base, 2, axis=0)[::2]   # equal to base, not contiguous
    dbl = np.repeat(base, 2, axis=1)[:, ::2] * 2.0
    fort = np.asfortranarray(base[::-1])
    return dict(base=base, near=near, big=big, mid=mid, flat=flat, view=view, dbl=dbl, fort=fort)


CALLS = [('base', 'base'), ('near', 'near'), ('base', 'near'), ('near', 'base'), ('base', 'dbl'), ('dbl', 'base'),
         ('view', 'fort'), ('flat', 'flat'), ('fort', 'view')]
BIG = [('big', 'big'), ('mid', 'mid'), ('big', 'mid'), ('mid', 'big')]


def sqd(x, y):
    import numpy as np
    return ((x[:, None, :] - y[None, :, :]) ** 2).sum(axis=2)


def width_of(strategy, x):
    import numpy as np
    n, d = x.shape
    if strategy == 'median':
        q = np.sqrt(sqd(x, x))
        return 1.0 / (2.0 * np.median(q[q > 0]) ** 2)
    if strategy == 'empirical_kci':
        w = 1.2 if n < 200 else 0.7 if n < 1200 else 0.4
        return 1.0 / w ** 2 / d
    w = 0.8 if n < 200 else 0.5 if n < 1200 else 0.3
    return 1.0 / w ** 2 * d


class KernelModel:
    def __init__(self, kind):
        from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
        self.kind = kind
        if kind == 'linear':
            self.k = LinearKernel()
        elif kind == 'poly':
            self.k = PolynomialKernel()
            self.deg, self.const = 2, 1.0
        elif kind.startswith('poly:'):
            self.kind = 'poly'
            self.deg, self.const = int(kind.split(':')[1]), float(kind.split(':')[2])
            self.k = PolynomialKernel(self.deg, self.const)
        elif kind.startswith('gauss:'):
            self.kind, self.w = 'gauss', float(kind.split(':')[1])
            self.k = GaussianKernel(self.w)
        elif kind == 'gauss':
            self.k = GaussianKernel()
            self.w = 1.0
        else:
            self.k = GaussianKernel(width_strategy=getattr(GaussianKernel.WidthStrategyEnum, kind))

    def params(self):
        if self.kind == 'poly':
            return [('degree', 3), ('degree', 1), ('const', 0.0), ('degree', 2)]
        if self.kind == 'gauss':
            return [('width', 0.25), ('width', 2.0), ('width', 1.0)]
        return []

    def set(self, name, value):
        setattr(self.k, name, value)
        if name == 'degree':
            self.deg = value
        elif name == 'const':
            self.const = value
        else:
            self.w = value

    def want(self, x, y):
        import numpy as np
        y = x if y is None else y
        if self.kind == 'linear':
            return x @ y.T
        if self.kind == 'poly':
            return (self.const + x @ y.T) ** self.deg
        w = self.w if self.kind == 'gauss' else width_of(self.kind, x)
        return np.exp(-0.5 * w * sqd(x, y))


def alphabet(kind, big):
    ops = [['call', a, b] for a, b in (BIG if big else CALLS)]
    kind = kind.split(':')[0]
    if kind in ('gauss', 'median', 'empirical_kci', 'empirical_hsic') and not big:
        ops += [['call', 'base', None], ['call', 'near', None]]
    if kind == 'poly':
        ops += [['set', 'degree', 3], ['set', 'degree', 1], ['set', 'const', 0.0], ['set', 'const', 2.5]]
    if kind == 'gauss':
        ops += [['set', 'width', 0.25], ['set', 'width', 1.0]]
    ops.append(['scribble'])
    return ops


def check_kernel(case, rec):
    kind, big, first, depth = case
    A = arrays()
    ops = alphabet(kind, big)
    want_cache = {}
    for rest in product(ops, repeat=depth - 1):
        m = KernelModel(kind)
        last = None
        seq = [first] + list(rest)
        for k, op in enumerate(seq):
            if op[0] == 'set':
                m.set(op[1], op[2])
            elif op[0] == 'scribble':
                if last is not None:
                    last *= 0.0                # the caller reuses the matrix it was given
                    last += 9.0
            else:
                x = A[op[1]].copy()
                y = A[op[2]].copy() if op[2] else None
                if big and op[1] == op[2]:
                    y = x
                got = m.k(x, y)
                rec.step()
                key = (op[1], op[2], getattr(m, 'deg', 0), getattr(m, 'const', 0), getattr(m, 'w', 0))
                if key not in want_cache:
                    want_cache[key] = m.want(A[op[1]], A[op[2]] if op[2] else None)
                if not close(got, want_cache[key], 1e-11, 1e-12):
                    raise Violation(f'{kind} kernel, history {seq[:k]}: then {op} returns a matrix that is not the kernel of '
                                    f'its arguments')
                if (x != A[op[1]]).any():
                    raise Violation(f'{kind} kernel changed its argument')
                last = got
        rec.state()
    rec.trace()
    rec.sample(dict(kernel=kind, first=first, depth=depth, operations=len(ops)))


def check_center(case, rec):
    """centering helpers against H K H and R K R."""
    import numpy as np
    from cdmir.utils.kernel import BaseKernel
    n, kind = case
    K = np.array([[((i * j * (kind + 2) + i + j + kind) % 9) / 4.0 for j in range(n)] for i in range(n)])
    K = K + K.T
    Z = np.array([[((i * (kind + 3) + k * k) % 7) / 3.0 for k in range(2)] for i in range(n)])
    Kz = np.exp(-0.5 * sqd(Z, Z))
    H = np.eye(n) - 1.0 / n
    K0 = K.copy()
    if not close(BaseKernel.center_kernel_matrix(K), H @ K @ H, 1e-9, 1e-9):
        raise Violation(f'centering a symmetric {n}x{n} matrix is not H K H')
    for eps in (1e-3, 0.1, 1.0):
        R = eps * np.linalg.inv(Kz + eps * np.eye(n))
        KR, Rz = BaseKernel.center_kernel_matrix_regression(K, Kz, eps)
        if not (close(Rz, R, 1e-6, 1e-8) and close(KR, R @ K @ R, 1e-6, 1e-8)):
            raise Violation(f'regression centering of a {n}x{n} matrix with epsilon {eps} is not R K R')
        rec.step()
    if not (K == K0).all():
        raise Violation('centering changed its argument')
    rec.state()
    rec.trace()


# ---------------------------------------------------------------------- KCI
def dataset(kind, rows, cols=4):
    import numpy as np
    out = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            out[i, j] = ((i * (2 * j + 3 + kind) + (i * i + kind) * (j + 1)) % (13 + 2 * j)) / 3.0 + 0.1 * ((i * j) % 3)
    return out


def zs(x):
    import numpy as np
    sd = x.std(axis=0, ddof=1)
    flat = np.ptp(x, axis=0) == 0                # a column without variation carries nothing
    return np.where(flat, 0.0, (x - x.mean(axis=0)) / np.where(flat, 1.0, sd))


def kern(name, x):
    import numpy as np
    if name == 'linear':
        return x @ x.T
    if name == 'poly':
        return (1.0 + x @ x.T) ** 2
    w = {'gauss': 1.0, 'gauss.5': 0.5}.get(name)
    if w is None:
        w = width_of(name, x)
    return np.exp(-0.5 * w * sqd(x, x))


def make_kernel(name):
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    if name == 'linear':
        return LinearKernel()
    if name == 'poly':
        return PolynomialKernel()
    if name == 'gauss':
        return GaussianKernel()
    if name == 'gauss.5':
        return GaussianKernel(width=0.5)
    return GaussianKernel(width_strategy=getattr(GaussianKernel.WidthStrategyEnum, name))


def cen(K):
    import numpy as np
    n = len(K)
    H = np.eye(n) - 1.0 / n
    return H @ K @ H


def ref_uncond(data, x, y, kx, ky):
    import numpy as np
    from scipy.stats import gamma
    n = len(data)
    Kx, Ky = cen(kern(kx, zs(data[:, x]))), cen(kern(ky, zs(data[:, y])))
    stat = (Kx * Ky).sum()
    mean = np.trace(Kx) * np.trace(Ky) / n
    var = 2 * (Kx ** 2).sum() * (Ky ** 2).sum() / n ** 2
    return gamma.sf(stat, mean ** 2 / var, scale=var / mean), stat


def ref_cond(data, x, y, z, kx, ky, kz, ex=1e-3, ey=1e-3, lam=1e-5, mean_only=False):
    import numpy as np
    from scipy.stats import gamma
    n = len(data)
    X, Y, Z = zs(data[:, x]), zs(data[:, y]), zs(data[:, z])
    Kx = cen(kern(kx, np.concatenate([X, 0.5 * Z], axis=1)))
    Ky = cen(kern(ky, Y))
    Kz = cen(kern(kz, Z))
    R = ex * np.linalg.inv(Kz + ex * np.eye(n))
    S = ey * np.linalg.inv(Kz + ey * np.eye(n))
    KxR, KyR = R @ Kx @ R, S @ Ky @ S
    stat = (KxR * KyR).sum()

    def cut(K):
        w, v = np.linalg.eigh(0.5 * (K + K.T))
        keep = w > w.max() * lam
        return (v[:, keep] * w[keep]) @ v[:, keep].T

    U = cut(KxR) * cut(KyR)
    if mean_only:
        w = np.linalg.eigvalsh(U)
        return w[w > w.max() * lam].sum(), stat
    mean, var = np.trace(U), 2 * (U * U).sum()
    return gamma.sf(stat, mean ** 2 / var, scale=var / mean), stat


def forms(ids, names, k):
    """the ways a caller may name variables."""
    import numpy as np
    out = [list(ids), np.array(ids), [names[i] for i in ids]]
    if len(ids) == 1:
        out += [ids[0], names[ids[0]]]
    return out[k % len(out)]


def groups(cols):
    out = []
    for x in [(0,), (1,), (2,), (3,), (0, 1), (2, 3)]:
        for y in [(0,), (1,), (2,), (3,), (0, 2), (1, 3)]:
            if not set(x) & set(y):
                out.append((x, y))
    return out


def check_kci(case, rec):
    import numpy as np
    import pandas as pd
    from cdmir.utils.independence import KCI
    kind, rows, kx, ky, kz, frame = case
    data = dataset(kind, rows)
    names = ['x%d' % i for i in range(4)]
    if frame:
        names = ['b', 'a', 'd', 'c']
    arg = pd.DataFrame(data, columns=names) if frame else data
    kw = {}
    if kx != 'default':
        kw = dict(kernel_x=make_kernel(kx), kernel_y=make_kernel(ky))
    else:
        kx = ky = 'gauss'
    if kz:
        kw['kernel_z'] = make_kernel(kz)
    t = KCI(arg, **kw)
    k = kind
    for x, y in groups(4):
        k += 1
        got = t(forms(x, names, k), forms(y, names, k // 2), [None, []][k % 2])
        want = ref_uncond(data, list(x), list(y), kx, ky)
        rec.step()
        if not (close(got[0], want[0], 1e-6, 1e-8) and close(got[1], want[1], 1e-7, 1e-9)):
            raise Violation(f'KCI({kx},{ky}) on data {kind} ({rows} rows): test of {x} and {y} gives {got}, expected {want}')
        if kz:
            for z in ref.subsets([v for v in range(4) if v not in x + y]):
                if not z:
                    continue
                got = t(forms(x, names, k), forms(y, names, k // 2), forms(z, names, k // 3))
                want = ref_cond(data, list(x), list(y), list(z), kx, ky, kz)
                rec.step()
                if not (close(got[0], want[0], 1e-4, 1e-6) and close(got[1], want[1], 1e-5, 1e-8)):
                    raise Violation(f'KCI({kx},{ky},{kz}) on data {kind} ({rows} rows): test of {x} and {y} given {z} gives {got}, '
                                    f'expected {want}')
    rec.state()
    rec.trace()
    rec.sample(dict(kernels=[kx, ky, kz], rows=rows))


def learned(K, Z, w0, lam, shake=None):
    """the kernel of Z and the noise level that a Gaussian process learns for the leading components of K."""
    import numpy as np
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel
    n = len(K)
    w, v = np.linalg.eigh(K if shake is None else K + 1e-11 * shake)
    w, v = w[::-1][:min(400, n // 4)], v[:, ::-1][:, :min(400, n // 4)]
    keep = w > w.max() * lam
    V = 2 * np.sqrt(n) * v[:, keep] * np.sqrt(w[keep] / w[0])
    g = GaussianProcessRegressor(kernel=ConstantKernel(1.0, (1e-3, 1e3)) * RBF(w0 * np.ones(Z.shape[1]), (1e-2, 1e2))
                                 + WhiteKernel(0.1, (1e-10, 1e1))).fit(Z, V)
    th = np.exp(g.kernel_.theta)
    return th[0] * np.exp(-0.5 * sqd(Z / th[1:-1], Z / th[1:-1])), th[-1]


def ref_learned(data, x, y, z, kx, ky, lam=1e-5, shake=None):
    import numpy as np
    from scipy.stats import gamma
    n = len(data)
    X, Y, Z = zs(data[:, x]), zs(data[:, y]), zs(data[:, z])
    XZ = np.concatenate([X, 0.5 * Z], axis=1)
    w = {'gauss': 1.0, 'gauss.5': 0.5}.get(kx) or (None if kx in ('linear', 'poly') else width_of(kx, XZ))
    w0 = np.sqrt(1.0 / (w * XZ.shape[1])) if w else 1.0
    res = []
    for K in (cen(kern(kx, XZ)), cen(kern(ky, Y))):
        Kz, e = learned(K, Z, w0, lam, shake)
        R = e * np.linalg.inv(Kz + e * np.eye(n))
        res.append(R @ K @ R)

    def cut(K):
        w, v = np.linalg.eigh(0.5 * (K + K.T))
        keep = w > w.max() * lam
        return (v[:, keep] * w[keep]) @ v[:, keep].T

    U = cut(res[0]) * cut(res[1])
    mean, var = np.trace(U), 2 * (U * U).sum()
    return gamma.sf((res[0] * res[1]).sum(), mean ** 2 / var, scale=var / mean), (res[0] * res[1]).sum(), mean


def check_learned(case, rec):
    """the default conditional test, whose kernel of the condition is learned from the data."""
    import numpy as np
    import warnings
    from cdmir.utils.independence import KCI
    warnings.simplefilter('ignore')
    kind, rows, kx, ky, draws, part, flat = case
    data = dataset(kind, rows)
    if flat:
        data[:, 3] = 2.0
    names = ['x%d' % i for i in range(4)]
    kw = dict(kernel_x=make_kernel(kx), kernel_y=make_kernel(ky)) if kx != 'default' else {}
    if draws:
        kw.update(approximate_mode=False, null_distribution_sample_size=draws)
    t = KCI(data, **kw)
    if kx == 'default':
        kx = ky = 'gauss'
    stub = Draws(draws or 1)
    real, np.random.chisquare = np.random.chisquare, stub
    k = kind

    def agree(got, want):
        if abs(want[1]) < 1e-9:     # nothing is left after the regression: the p-value is rounding
            return abs(got[1]) < 1e-8
        if not close(got[1], want[1], 1e-3, 1e-8):
            return False
        if draws:
            if not stub.used:
                return True
            lo, hi = stub.bounds(want[2], want[1], 1e-2)
            return lo <= got[0] <= hi
        return close(got[0], want[0], 1e-3, 1e-5)

    try:
        for x, y in groups(4)[part::3]:
            if flat and ((3,) in (x, y)):
                continue
            for z in ref.subsets([v for v in range(4) if v not in x + y]):
                if not z or flat and z == (3,):
                    continue
                k += 1
                got = t(forms(x, names, k), forms(y, names, k // 2), forms(z, names, k // 3))
                rec.step()
                want = ref_learned(data, list(x), list(y), list(z), kx, ky)
                if agree(got, want):
                    continue
                # is the best kernel well defined?  otherwise rounding decides between several
                sh = np.cos(np.arange(rows * rows)).reshape(rows, rows)
                others = [ref_learned(data, list(x), list(y), list(z), kx, ky, shake=s * (sh + sh.T)) for s in (1, -1, 3)]
                if any(agree(got, o) for o in others) or not all(close(o[1], want[1], 1e-3, 1e-8) for o in others):
                    continue
                raise Violation(f'KCI({kx},{ky}) with a learned kernel of the condition and {draws or "no"} simulated values on data '
                                f'{kind} ({rows} rows, flat {flat}): test of {x} and {y} given {z} gives {got}, expected {want}')
    finally:
        np.random.chisquare = real
    rec.state()
    rec.trace()


class Draws:
    """the chi-square draws of the null distribution, under the control of the checker: the j-th simulated value
    uses one level for every eigenvalue, so it is that level times their sum."""

    def __init__(self, n):
        import numpy as np
        self.n, self.used = n, 0
        self.levels = (np.arange(n) * 7 % n + 0.5) * 4.0 / n

    def __call__(self, df, size=None):
        import numpy as np
        self.used += 1
        if df != 1 or not isinstance(size, tuple) or len(size) != 2 or self.n not in size:
            raise Violation(f'the null distribution is drawn from chi-square({df}) with size {size}, '
                            f'not one squared normal per eigenvalue and {self.n} repetitions')
        return np.tile(self.levels, (size[0], 1)) if size[1] == self.n else np.tile(self.levels[:, None], (1, size[1]))

    def bounds(self, total, stat, slack):
        lo = (self.levels * total * (1 - slack) > stat).sum() / self.n
        hi = (self.levels * total * (1 + slack) > stat).sum() / self.n
        return lo - 1e-12, hi + 1e-12


def check_null(case, rec):
    """options of the tests: simulated null distribution, regularisation, columns without variation."""
    import numpy as np
    from cdmir.utils.independence import KCI
    kind, rows, kx, ky, kz, eps, draws, flat, lam = case
    data = dataset(kind, rows)
    if flat is not None:
        data[:, flat] = 3.5
    names = ['x%d' % i for i in range(4)]
    ex, ey = eps
    kw = dict(kernel_x=make_kernel(kx), kernel_y=make_kernel(ky), kernel_z=make_kernel(kz))
    if eps != [1e-3, 1e-3]:
        kw.update(epsilon_x=ex, epsilon_y=ey)
    if lam is not None:
        kw.update(lambda_product_threshold=lam)
    if draws:
        kw.update(approximate_mode=False, null_distribution_sample_size=draws)
    t = KCI(data, **kw)
    k = kind
    stub = Draws(draws or 1)
    real, np.random.chisquare = np.random.chisquare, stub
    try:
        for x, y in groups(4):
            if flat is not None and (x == (flat,) or y == (flat,)):
                continue
            for z in ref.subsets([v for v in range(4) if v not in x + y]):
                k += 1
                got = t(forms(x, names, k), forms(y, names, k // 2), forms(z, names, k // 3) if z else None)
                rec.step()
                # an eigenvalue at the cut may fall on either side of it
                if z:
                    wants = [ref_cond(data, list(x), list(y), list(z), kx, ky, kz, ex, ey, (1e-5 if lam is None else lam) * s, bool(draws))
                             for s in (1 - 1e-6, 1 + 1e-6)]
                else:
                    wants = [ref_uncond(data, list(x), list(y), kx, ky)]
                    if draws:
                        a, b = cen(kern(kx, zs(data[:, list(x)]))), cen(kern(ky, zs(data[:, list(y)])))
                        p = np.outer(np.linalg.eigvalsh(a), np.linalg.eigvalsh(b)).ravel()
                        wants = [(p[p > p.max() * (1e-6 if lam is None else lam) * s].sum() / rows, wants[0][1]) for s in (1 - 1e-6, 1 + 1e-6)]
                want = wants[0]
                where = (f'KCI({kx},{ky},{kz}) with epsilons {eps} and {draws or "no"} simulated values on data {kind} '
                         f'({rows} rows, flat column {flat}, threshold {lam}): test of {x} and {y} given {z}')
                if not close(got[1], want[1], 1e-4, 1e-7):
                    raise Violation(f'{where} has the statistic {got[1]}, expected {want[1]}')
                if draws:
                    if stub.used:
                        lo = min(stub.bounds(w[0], w[1], 3e-3)[0] for w in wants)
                        hi = max(stub.bounds(w[0], w[1], 3e-3)[1] for w in wants)
                        if not lo <= got[0] <= hi:
                            raise Violation(f'{where} gives the p-value {got[0]}, the simulated values give {lo} to {hi}')
                elif not any(close(got[0], w[0], 1e-4, 1e-6) for w in wants):
                    raise Violation(f'{where} gives the p-value {got[0]}, expected {want[0]}')
    finally:
        np.random.chisquare = real
    rec.state()
    rec.trace()


def check_long(case, rec):
    """sample sizes at which the kernel widths and the number of eigenvalues change."""
    import numpy as np
    from cdmir.utils.independence import KCI
    what, n = case
    col = np.array([[(i * i + i // 3) % 2, (i // 2) % 2, i % 2] for i in range(n)], dtype=float)
    if what == 'null':
        stub = Draws(40)
        real, np.random.chisquare = np.random.chisquare, stub
        try:
            t = KCI(col, approximate_mode=False, null_distribution_sample_size=40)
            for x, y in ((0, 1), (1, 2)):
                got = t(x, y)
                rec.step()
                want = ref_uncond(col, [x], [y], 'gauss', 'gauss')
                a, b = cen(kern('gauss', zs(col[:, [x]]))), cen(kern('gauss', zs(col[:, [y]])))
                lo, hi = stub.bounds(np.trace(a) * np.trace(b) / n, want[1], 3e-3)
                if not close(got[1], want[1], 1e-6, 1e-6) or (stub.used and not lo <= got[0] <= hi):
                    raise Violation(f'KCI on {n} rows of binary data with 40 simulated values gives {got}, expected the '
                                    f'statistic {want[1]} and a p-value from {lo} to {hi}')
        finally:
            np.random.chisquare = real
    else:
        for d in (1, 2):
            x = col[:, :d] * 1.5 if what != 'median' else np.repeat(col[:, :1] * 1.5, d, axis=1)
            y = np.array([[0.5] * d, [1.0] * d])
            got = make_kernel(what)(x, y)
            rec.step()
            # two values only, so that every subsample has the same median distance
            w = 1.0 / (2.0 * d * 1.5 ** 2) if what == 'median' else width_of(what, x)
            if not close(got, np.exp(-0.5 * w * sqd(x, y)), 1e-9, 1e-12):
                raise Violation(f'Gaussian kernel with the {what} width on {n} rows of {d} columns is not the kernel of its arguments')
    rec.state()
    rec.trace()


_FRESH = {}


def check_kci_history(case, rec):
    """two test objects on different data with the default kernels, used in turn."""
    from cdmir.utils.independence import KCI
    first, rows, seed = case
    names = ['x%d' % i for i in range(3)]
    D = [dataset(seed, rows, 3), dataset(seed + 4, rows, 3)]
    qs = [(d, x, y, z) for d in (0, 1) for x, y in permutations(range(3), 2) for z in (None, 3 - x - y)]

    def fresh(q):
        if (seed, rows, q) not in _FRESH:
            d, x, y, z = q
            from cdmir.utils.kernel import GaussianKernel
            t = KCI(D[d], kernel_x=GaussianKernel(), kernel_y=GaussianKernel())
            _FRESH[(seed, rows, q)] = t([x], [y], None if z is None else [z])
        return _FRESH[(seed, rows, q)]

    a = qs[first]
    ts = [KCI(D[0]), KCI(D[1])]
    h = [a]
    for k, b in enumerate(qs):
        for q in (b, a):
            d, x, y, z = q
            got = ts[d](forms((x,), names, k), forms((y,), names, k + 1), None if z is None else forms((z,), names, k + 2))
            rec.step()
            want = fresh(q)
            if not (close(got[0], want[0], 1e-7, 1e-9) and close(got[1], want[1], 1e-7, 1e-9)):
                raise Violation(f'KCI: after {h} the query (data set, x, y, z)={q} gives {got}, a fresh object gives {want}')
            h.append(q)
        rec.state()
    rec.trace()


def check_many(case, rec):
    """thirteen variables: groups whose indices read alike (1, 2 and 12) are different groups."""
    import numpy as np
    import pandas as pd
    from cdmir.utils.independence import KCI
    kind, kx, ky, kz, frame = case
    data = dataset(kind, 14, 13)
    names = ['x%d' % i for i in range(13)]
    if frame:
        names = ['1', '2', '12', '11', 'a', 'aa', 'b', 'ab', 'x1', 'x', '0', '10', 'ba']
    mk = lambda: KCI(pd.DataFrame(data, columns=names) if frame else data, kernel_x=make_kernel(kx), kernel_y=make_kernel(ky),
                     **(dict(kernel_z=make_kernel(kz)) if kz else {}))
    t = mk()
    g = [(1, 2), (12,), (1,), (11,), (2,), (1, 1 + 9), (1, 12), (11, 2), (0,), (10, 1), (1, 0)]
    k = kind
    for x, y in product(g, repeat=2):
        if set(x) & set(y):
            continue
        for z in [()] + [q for q in ([(0, 2), (2, 0), (12,), (1, 2), (3, 4), (11,), (1, 10)] if kz else []) if not set(q) & set(x + y)][:2]:
            k += 1
            got = t(forms(x, names, k), forms(y, names, k // 2), forms(z, names, k // 3) if z else None)
            rec.step()
            want = ref_cond(data, list(x), list(y), list(z), kx, ky, kz) if z else ref_uncond(data, list(x), list(y), kx, ky)
            if not (close(got[0], want[0], 1e-4, 1e-6) and close(got[1], want[1], 1e-5, 1e-8)):
                raise Violation(f'KCI({kx},{ky},{kz}) on 13 variables, data {kind}: test of {x} and {y} given {z} gives {got}, expected {want}')
    rec.state()
    rec.trace()


# -------------------------------------------------- plain functional kernels
def ref_hsic(X, Y, alph):
    import numpy as np
    from scipy.stats import gamma
    n = len(X)

    def gram(A):
        d = sqd(A, A)
        pos = d[d > 1e-12]
        return np.exp(-d / np.median(pos))       # 2 * (sqrt(med/2))^2 = med

    K, L = gram(X), gram(Y)
    Kc, Lc = cen(K), cen(L)
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx = (K.sum() - n) / n / (n - 1)
    my = (L.sum() - n) / n / (n - 1)
    m = (1 + mx * my - mx - my) / n
    return stat, gamma.ppf(1 - alph, m ** 2 / v, scale=v * n / m)


def check_functional(case, rec):
    import numpy as np
    from cdmir.utils.independence.functional import KCI as FKCI
    from cdmir.utils.independence.functional.HSIC import hsic_gam
    kind, rows = case
    data = np.round(dataset(kind, rows) * 30) / 30
    flat = kind % 5
    if flat < 4:
        data[:, flat] = -1.5
    for x, y in groups(4):
        if (flat,) in (x, y):
            continue
        X, Y = data[:, list(x)].copy(), data[:, list(y)].copy()
        got = FKCI().test(X, Y)
        want = ref_uncond(data, list(x), list(y), 'gauss', 'gauss')
        rec.step(2)
        if not (close(got[0], want[0], 1e-6, 1e-8) and close(got[1], want[1], 1e-7, 1e-9)):
            raise Violation(f'the unconditional KCI function on data {kind}: {x},{y} gives {got}, expected {want}')
        for alph in (0.01, 0.05, 0.7):
            if len(x) == len(y) == 1:
                from cdmir.utils.independence.functional.HSIC import test
                stat, cut = ref_hsic(X, Y, alph)
                got = test(X[:, 0], Y[:, 0], alph)
                if abs(stat - cut) > 1e-9 and got is not bool(stat < cut) and got != (stat < cut):
                    raise Violation(f'HSIC decision on data {kind}: {x},{y} at level {alph} is {got}, the statistic {stat} and '
                                    f'the threshold {cut} say otherwise')
                rec.step()
            got = hsic_gam(X, Y, alph)
            want = ref_hsic(X, Y, alph)
            if not (close(got[0], want[0], 1e-6, 1e-9) and close(got[1], want[1], 1e-5, 1e-9)):
                raise Violation(f'HSIC on data {kind}: {x},{y} at level {alph} gives {got}, expected {want}')
        if (X != data[:, list(x)]).any() or (Y != data[:, list(y)]).any():
            raise Violation('a kernel test changed its data')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.utils.independence  # noqa
    import cdmir.utils.independence.functional.HSIC  # noqa
    import cdmir.utils.kernel  # noqa
    thorough = tier == 'thorough'
    kinds = ['gauss', 'linear', 'poly', 'median', 'empirical_kci', 'empirical_hsic']
    kh = [[k, False, op, 4 if thorough else 3] for k in kinds for op in alphabet(k, False)]
    kh += [[k, False, op, 4 if thorough else 3] for k in ('poly:1:1.0', 'poly:3:0.5', 'poly:1:0', 'gauss:0.25') for op in alphabet(k, False)]
    many = [[k + seed, a, b, c, k % 2] for k in range(6 if thorough else 2) for a, b, c in (('gauss', 'gauss', None), ('linear', 'gauss.5', 'gauss'))]
    kb = [[k, True, op, 3 if thorough else 2] for k in kinds for op in alphabet(k, True)]
    cen_ = [[n, k] for n in range(2, 9) for k in range(6)]
    kci = []
    combos = [('default', None, None), ('gauss', 'linear', None), ('poly', 'gauss.5', None), ('median', 'empirical_kci', None),
              ('empirical_hsic', 'gauss', None), ('gauss', 'gauss', 'gauss'), ('gauss.5', 'poly', 'gauss.5'),
              ('default', None, 'gauss'), ('linear', 'gauss', 'poly'), ('empirical_kci', 'median', 'linear')]
    for i, (a, b, c) in enumerate(combos):
        for rows in (11, 18) + ((40, 210) if thorough else ()):
            for kind in range(8 if thorough else 2):
                kci.append([kind + seed, rows, a, b, c, (i + kind) % 2])
    hist = [[f, r, seed] for f in range(24) for r in ((12, 17) if thorough else (12,))]
    null = []
    for i, (a, b, c) in enumerate([('gauss', 'gauss', 'gauss'), ('gauss.5', 'linear', 'gauss'), ('linear', 'gauss', 'poly')]):
        for rows in (11, 16) if not thorough else (11, 16, 25):
            for eps in ([1e-3, 1e-3], [1e-2, 1e-2], [1e-2, 0.3]):
                for draws in (0, 50):
                    for flat in (None, (i + rows) % 4):
                        null.append([seed + i + rows, rows, a, b, c, eps, draws, flat, None])
                        if eps[0] == 1e-2:
                            for lam in (0.02, 0.2):
                                null.append([seed + i + rows, rows, a, b, c, eps, draws, flat, lam])
    gp = []
    for i, (a, b) in enumerate((('default', None), ('gauss.5', 'linear'), ('poly', 'median'), ('empirical_kci', 'gauss'))):
        for rows in ((11, 18) if not thorough else (8, 11, 18, 30)):
            for kind in range(2 if not thorough else 8):
                for part in range(3):
                    gp.append([kind + seed, rows, a, b, (0, 50)[(i + kind + part) % 3 == 0], part, (i + rows + part) % 4 == 0])
    long = [['null', n] for n in ((999, 1001) if not thorough else (999, 1000, 1001, 1002))]
    long += [[w, n] for w, ns in (('median', (999, 1000, 1001, 1500)), ('empirical_kci', (199, 200, 1199, 1200)),
                                  ('empirical_hsic', (199, 200, 1199, 1200))) for n in ns]
    fun = [[k + seed, rows] for k in range(12 if thorough else 4) for rows in (9, 16)]
    return [Space('kernel histories', kh, check_kernel, chunk=1,
                  note='every history of 3 (4) operations: evaluations, parameter changes, reuse of the returned matrix'),
            Space('kernel histories, long arrays', kb, check_kernel, chunk=1, note='the same with arrays whose printed form is elided'),
            Space('centering', cen_, check_center, note='all sizes 2..8'),
            Space('kernel test values', kci, check_kci, chunk=1, limit=200, note='every pair of variable groups, kernels, forms'),
            Space('kernel test options', null, check_null, chunk=1, limit=300,
                  note='simulated null distribution with the draws controlled, regularisation, cut of small eigenvalues, a column without variation'),
            Space('learned conditional kernels', gp, check_learned, chunk=1, limit=400,
                  note='the default mode: kernel of the condition learned by a Gaussian process'),
            Space('sample sizes', long, check_long, chunk=1, limit=200, note='either side of every size threshold'),
            Space('kernel test histories', hist, check_kci_history, chunk=1, limit=300,
                  note='every ordered pair of queries, two objects sharing the default kernels'),
            Space('thirteen variables', many, check_many, chunk=1, limit=200, note='groups of indices and names that read alike'),
            Space('functional tests', fun, check_functional, note='HSIC and unconditional KCI functions against their formulas')]
