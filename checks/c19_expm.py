"""C19: the matrix exponentials and their gradients."""
from itertools import product

from mc.core import Space, Violation, close

PROPERTY = 'C19'
TITLE = 'Matrix exponential and its gradient are exact for every small matrix'
ASSUMPTIONS = ['scipy.linalg.expm and expm_frechet are the reference; tolerance 1e-9 in double, 2e-5 in single precision, relative to the largest entry']
PKG = 'cdmir.discovery.score_based.entropy_based.pytorch_expm.'
PATTERN = [[1, .7, -.5, .2], [1.3, -.4, .9, -1.1], [-.8, .6, .3, 1.2], [.4, -1.4, .8, -.2]]


def fns():
    import importlib
    import torch
    torch.set_num_threads(1)
    g = {n: importlib.import_module(PKG + n) for n in ('expm32', 'expm64', 'expm_pade', 'expm_taylor')}
    return g


def mat(n, cells, scale):
    import numpy as np
    return np.array(cells, dtype=float).reshape(n, n) * np.array(PATTERN)[:n, :n] * scale


def off(a, b):
    import numpy as np
    if a.shape != b.shape or not np.isfinite(a).all():
        return np.inf
    return np.abs(a - b).max() / max(1.0, np.abs(b).max())


def check_value(case, rec):
    n, scale, group = case
    for cells in group:
        value(mat(n, cells, scale), rec)
        rec.state()
    rec.trace()
    rec.sample(dict(size=n, scale=scale, matrices=len(group)))


def value(A, rec):
    import scipy.linalg as sl
    import torch
    g = fns()
    E = sl.expm(A)
    for name, f, dt, tol in (('Pade, double', g['expm64'].expm64, torch.float64, 1e-9),
                             ('Pade, single', g['expm32'].expm32, torch.float32, 2e-5),
                             ('Pade class, double', g['expm_pade'].expm, torch.float64, 1e-9),
                             ('Pade class, single', g['expm_pade'].expm, torch.float32, 2e-5),
                             ('Taylor, double', g['expm_taylor'].expm_taylor, torch.float64, 1e-9),
                             ('Taylor, single', g['expm_taylor'].expm_taylor, torch.float32, 2e-5),
                             ('Taylor class, double', g['expm_taylor'].expm, torch.float64, 1e-9)):
        T = torch.tensor(A, dtype=dt)
        R = f(T)
        rec.step()
        if R.dtype != dt or off(R.double().numpy(), E) > tol:
            raise Violation(f'{name}: exp of {A.tolist()} is {R.tolist()}, expected {E.tolist()}')
        if not torch.equal(T, torch.tensor(A, dtype=dt)):
            raise Violation(f'{name}: the argument {A.tolist()} was changed')


def check_structured(case, rec):
    """matrices with structure: triangular, nilpotent, diagonal, block, rank one, permutation, skew, zero rows."""
    import numpy as np
    kind, n, scale = case
    P = np.array([[((3 * i + 5 * j + i * j) % 7) / 4 - 0.7 for j in range(n)] for i in range(n)])
    if kind == 'upper':
        A = np.triu(P)
    elif kind == 'lower':
        A = np.tril(P)
    elif kind == 'strictly upper':
        A = np.triu(np.abs(P) + 0.1, 1)
    elif kind == 'strictly lower':
        A = np.tril(P - 0.9, -1)
    elif kind == 'diagonal':
        A = np.diag(np.diag(P) + 0.2)
    elif kind == 'multiple of the identity':
        A = np.eye(n)
    elif kind == 'rank one':
        A = np.outer(P[0] + 0.1, P[:, -1] - 0.2)
    elif kind == 'cycle':
        A = np.roll(np.eye(n), 1, axis=1)
    elif kind == 'skew':
        A = P - P.T
    elif kind == 'symmetric':
        A = P + P.T
    elif kind == 'positive':
        A = np.abs(P) + 0.05
    elif kind == 'negative':
        A = -np.abs(P) - 0.05
    elif kind == 'blocks':
        A = P * (np.add.outer(np.arange(n), np.arange(n)) % 2 == 0)
    elif kind == 'one entry':
        A = np.zeros((n, n))
        A[-1, 0] = 1.0
    elif kind == 'permuted nilpotent':
        o = [(2 * k + 1) % n if n % 2 else (k * 3 + 1) % n for k in range(n)]
        o = o if len(set(o)) == n else list(range(n))[::-1]
        A = np.triu(np.abs(P) + 0.3, 1)[np.ix_(o, o)]
    else:
        A = P.copy()
        A[0] = 0
        A[:, -1] = 0
    value(A * scale, rec)
    if scale <= 3 and n <= 5:
        gradient(A * scale, rec)
    rec.state()
    rec.trace()


KINDS = ['upper', 'lower', 'strictly upper', 'strictly lower', 'diagonal', 'multiple of the identity', 'rank one', 'cycle', 'skew', 'symmetric',
         'positive', 'negative', 'blocks', 'one entry', 'permuted nilpotent', 'zero row']


def check_degree(case, rec):
    """every stage of the Taylor scheme is the polynomial it stands for."""
    import numpy as np
    import math
    import torch
    g = fns()
    n, deg, scale, group = case
    for cells in group:
        A = mat(n, cells, scale)
        want = sum((np.linalg.matrix_power(A, k) / math.factorial(k) for k in range(1, deg + 1)), np.eye(n))
        for shape in ((), (1,), (2,)):
            T = torch.tensor(np.broadcast_to(A, shape + A.shape).copy(), dtype=torch.float64)
            R = g['expm_taylor'].taylor_approx(T, deg).numpy()
            rec.step()
            if off(R.reshape(-1, n, n)[-1], want) > 1e-9:
                raise Violation(f'Taylor approximation of degree {deg}, batch shape {shape}, of {A.tolist()}: {R.tolist()}, expected {want.tolist()}')
        rec.state()
    rec.trace()


def check_batch(case, rec):
    """a batch gives the exponential of each member, whatever else is in the batch."""
    import numpy as np
    import scipy.linalg as sl
    import torch
    g = fns()
    n, shape, members, single = case
    A = np.array([mat(n, cells, scale) for cells, scale in members]).reshape(tuple(shape) + (n, n))
    dt = torch.float32 if single else torch.float64
    T = torch.tensor(A, dtype=dt)
    R = g['expm_taylor'].expm(T)
    rec.step()
    if tuple(R.shape) != A.shape or R.dtype != dt:
        raise Violation(f'batch of shape {A.shape}: result of shape {tuple(R.shape)}')
    if not torch.equal(T, torch.tensor(A, dtype=dt)):
        raise Violation(f'the batch {A.tolist()} was changed')
    for a, r in zip(A.reshape(-1, n, n), R.double().numpy().reshape(-1, n, n)):
        if off(r, sl.expm(a)) > (2e-5 if single else 1e-9):
            raise Violation(f'batch {A.tolist()}: exp of {a.tolist()} is {r.tolist()}, expected {sl.expm(a).tolist()}')
    rec.state()
    rec.trace()


def check_grad(case, rec):
    n, scale, group = case
    for cells in group:
        gradient(mat(n, cells, scale), rec)
        rec.state()
    rec.trace()


def gradient(A, rec):
    import numpy as np
    import scipy.linalg as sl
    import torch
    g = fns()
    n = len(A)
    for k in range(2):
        G = np.array([[1.0 + 0.3 * i - 0.5 * j * (k + 1) for j in range(n)] for i in range(n)])
        want = sl.expm_frechet(A.T, G, compute_expm=False)
        for name, f in (('Pade', g['expm_pade'].expm), ('Taylor', g['expm_taylor'].expm)):
            T = torch.tensor(A, dtype=torch.float64, requires_grad=True)
            (f(T) * torch.tensor(G)).sum().backward()
            rec.step()
            if off(T.grad.numpy(), want) > 1e-8:
                raise Violation(f'{name}: gradient of sum(exp(A) * G) at A = {A.tolist()}, G = {G.tolist()} is {T.grad.tolist()}, '
                                f'expected {want.tolist()}')
    # batches
    B = np.array([A, 0.3 * A, 0 * A])
    T = torch.tensor(B, dtype=torch.float64, requires_grad=True)
    (g['expm_taylor'].expm(T) * torch.tensor(G)).sum().backward()
    rec.step()
    for b, gr in zip(B, T.grad.numpy()):
        if off(gr, sl.expm_frechet(b.T, G, compute_expm=False)) > 1e-8:
            raise Violation(f'Taylor: gradient in the batch {B.tolist()} at {b.tolist()} is {gr.tolist()}')


def check_refusal(case, rec):
    import torch
    g = fns()
    for f in (g['expm64'].expm64, g['expm32'].expm32, g['expm_taylor'].expm_taylor):
        for s in ((2, 3), (3, 2), (2,)):
            try:
                f(torch.zeros(s))
            except (ValueError, IndexError):
                rec.step()
                continue
            raise Violation(f'{f.__name__} accepts a matrix of shape {s}')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    big = tier != 'quick'
    out = []
    two = list(product((-1, 0, 1), repeat=4))
    three = [c for k, c in enumerate(product((-1, 0, 1), repeat=9)) if k % (37 if big else 331) == 0]
    four = [c for k, c in enumerate(product((0, 1), repeat=16)) if k % (521 if big else 4099) == 0]
    scales = [0.0, 1e-16, 1e-12, 1e-7, 1e-5, 2e-4, 0.003, 0.02, 0.05, 0.12, 0.25, 0.6, 1.0, 1.5, 2.2, 3.0, 5.0, 9.0, 14.0]
    if big:
        scales += [10 ** (-5 + k / 8) for k in range(50)]
    out.append(Space('values', [(1, s, [(-1,), (0,), (1,)]) for s in scales] + [(2, s, two) for s in scales]
                     + [(3, s, three) for s in scales if s <= 9] + [(4, s, four) for s in scales if s <= 5], check_value, chunk=2,
                     note=f'every 2x2 matrix over (-1, 0, 1) times a pattern, {len(scales)} scales; larger ones strided'))
    out.append(Space('structured matrices', [(k, n, s) for k in KINDS for n in (2, 3, 4, 5, 6, 8) for s in (scales if big else scales[3:17])],
                     check_structured, chunk=8, note='16 structures x up to 8 rows x scales, values and gradients'))
    out.append(Space('Taylor stages', [(2, d, s, two) for d in (1, 2, 4, 8, 12, 18) for s in (0.1, 0.7, 2.0)]
                     + [(3, d, 0.7, three) for d in (1, 2, 4, 8, 12, 18)], check_degree, chunk=2))
    pool = [(two[(7 * k) % 81], s) for k, s in enumerate((0.0, 1e-9, 0.02, 0.3, 1.0, 2.0, 4.0, 8.0, 13.0))]
    pool += [((1, 0, -1, 1), s) for s in (0.5, 3.0, 6.0)]
    m = len(pool)
    bt = []
    for single in (False, True):
        bt += [(2, (1,), [pool[i]], single) for i in range(m)]
        bt += [(2, (2,), [pool[i], pool[j]], single) for i in range(m) for j in range(m)]
        bt += [(2, (3,), [pool[i], pool[j], pool[k]], single) for i in range(m) for j in range(m) for k in range(m) if big or (i + j + k) % 3 == 0]
        bt += [(2, (2, 2), [pool[i], pool[j], pool[k], pool[(i + j) % m]], single) for i in range(m) for j in range(m) for k in range(0, m, 2 if big else 5)]
        bt += [(2, (2, 1, 2), [pool[i], pool[j], pool[(i + 3) % m], pool[(j + 5) % m]], single) for i in range(m) for j in range(m)]
        bt += [(1, (2,), [((1,), a), ((-1,), b)], single) for a in (0.0, 0.5, 3.0) for b in (0.0, 2.0)]
    out.append(Space('batches', bt, check_batch, chunk=60, note='every pair and (thorough) triple of members from a pool of scales'))
    out.append(Space('gradients', [(2, s, two[::1 if big else 3]) for s in scales[:19] if s <= 9] + [(3, s, three[::3]) for s in scales[:19] if s <= 5],
                     check_grad, chunk=1))
    out.append(Space('refusals', [0], check_refusal))
    return out
