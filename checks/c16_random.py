"""C16: randomly generated structures are always well formed, of the requested shape, and reproducible."""
from itertools import combinations, product

from mc import ref
from mc.core import Space, Violation, close

PROPERTY = 'C16'
TITLE = 'Random structures are well formed and reproducible for every seed'
ASSUMPTIONS = ['seeds are explored as consecutive integers; which structure a seed yields is free, only its form is specified']


def acyclic(A):
    n = len(A)
    left = set(range(n))
    while left:
        src = [v for v in left if not any(A[u][v] for u in left)]
        if not src:
            return False
        left -= set(src)
    return True


def er(*a, **k):
    from cdmir.datasets.utils import erdos_renyi
    return erdos_renyi(*a, **k)


def scramble(k):
    import random
    import numpy as np
    np.random.seed(1000 + k)
    random.seed(2000 + k)


def check_er(case, rec):
    import numpy as np
    n, m, rng, lo, hi = case
    rng = None if rng is None else tuple(rng)
    total = 0
    for seed in range(lo, hi):
        scramble(seed)
        A = er(n, m, rng, seed)
        rec.step()
        txt = f'erdos_renyi({n}, {m}, {rng}, seed={seed})'
        if not isinstance(A, np.ndarray) or A.shape != (n, n):
            raise Violation(f'{txt}: shape {getattr(A, "shape", None)}')
        B = A != 0
        if not acyclic(B.tolist()):
            raise Violation(f'{txt} has a cycle: {A.tolist()}')
        w = A[B]
        if rng is None:
            if not (w == 1).all():
                raise Violation(f'{txt}: entries {sorted(set(w.tolist()))}')
        else:
            a, b = rng
            mag = np.abs(w) if a >= 0 else w
            if not np.isfinite(A).all() or ((mag < min(a, -b if a < 0 else a) - 1e-12) | (np.abs(w) > max(abs(a), abs(b)) + 1e-12)).any():
                raise Violation(f'{txt}: weights {w.tolist()} leave the range')
        if m == 0 and B.any():
            raise Violation(f'{txt} has edges: {A.tolist()}')
        if 2 * m >= n * n and B.sum() != n * (n - 1) // 2:
            raise Violation(f'{txt}: {int(B.sum())} edges although every pair must be joined')
        scramble(seed + 77)
        er(3, 2, (0.5, 1.0), seed + 1)
        again = er(n_nodes=n, n_edges=m, weight_range=None if rng is None else list(rng), seed=seed)
        rec.step(2)
        if not (np.asarray(again) == A).all():
            raise Violation(f'{txt}: the same seed gives {A.tolist()} and {np.asarray(again).tolist()}')
        total += int(B.sum())
        rec.state()
    k = hi - lo
    want = min(1.0, 2 * m / n ** 2) * n * (n - 1) / 2
    p = min(1.0, 2 * m / n ** 2)
    sigma = (n * (n - 1) / 2 * p * (1 - p) / k) ** .5
    if abs(total / k - want) > 6 * sigma + 1e-9:
        raise Violation(f'erdos_renyi({n}, {m}): on average {total / k:.3f} edges over {k} seeds, {want:.3f} expected')
    rec.trace()
    rec.sample(dict(nodes=n, edges=m, seeds=[lo, hi]))


def check_reach(case, rec):
    """which structures occur at all over the seeds."""
    import numpy as np
    kind, n, m, seeds = case
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    seen = set()
    signs = set()
    pairs = set()
    for seed in range(seeds):
        if kind == 'er':
            A = er(n, m, None, seed)
        elif kind == 'er-unseeded':
            A = er(n, m)
        elif kind == 'er-weights':
            A = er(n, m, (0.5, 2.0), seed)
            for u, v in product(range(n), repeat=2):
                if A[u, v]:
                    signs.add((u, v, A[u, v] > 0, abs(A[u, v]) > 1.25))
            on = [(u, v, bool(A[u, v] > 0)) for u, v in product(range(n), repeat=2) if A[u, v]]
            pairs |= set(combinations(on, 2))
        else:
            U.set_random_seed(seed)
            A = U.simulate_dag(n, m, kind)
        rec.step()
        seen.add(tuple(np.asarray(A != 0).astype(int).ravel().tolist()))
    if kind == 'er-weights':
        want = {(u, v, s, b) for u, v in product(range(n), repeat=2) if u != v for s in (True, False) for b in (True, False)}
        if signs != want:
            raise Violation(f'erdos_renyi({n}, {m}, (0.5, 2)): over {seeds} seeds the edges (from, to, positive, large) {sorted(want - signs)} never occur')
        want = {p for p in combinations(sorted({w[:3] for w in want}), 2) if p[0][:2] not in (p[1][:2], p[1][1::-1])}
        pairs = {tuple(sorted(p)) for p in pairs}
        if not want <= pairs and n < 4:
            raise Violation(f'erdos_renyi({n}, {m}, (0.5, 2)): over {seeds} seeds the pairs of edges (from, to, positive) {sorted(want - pairs)[:6]} never occur')
    else:
        want = set()
        for par in ref.dags(n):
            M = [0] * (n * n)
            for u, v in ref.edges_of(par):
                M[u * n + v] = 1
            k = sum(M)
            if kind == 'ER' and k != m:
                continue
            if kind == 'BP':
                tops = {u for u, v in ref.edges_of(par)}
                if k != m or len(tops) > int(0.2 * n) or tops & {v for u, v in ref.edges_of(par)}:
                    continue
            if kind == 'SF':
                # a tree growing edge by edge: every node but one has one edge to an earlier one
                if k != n - 1 or sorted(sum(M[u * n + v] for v in range(n)) for u in range(n)) != [0] + [1] * (n - 1):
                    continue
            want.add(tuple(M))
        if kind.startswith('er') and m == 0:
            want = {tuple([0] * (n * n))}
        if seen != want:
            raise Violation(f'{kind}({n}, {m}): over {seeds} seeds {len(want - seen)} of {len(want)} admissible graphs never occur, '
                            f'e.g. {sorted(want - seen)[:2]}; not admissible: {sorted(seen - want)[:2]}')
        rec.state(len(want))
    rec.trace()
    rec.sample(dict(kind=kind, nodes=n, edges=m, seeds=seeds))


def check_pairs(case, rec):
    """larger graphs: over the seeds every ordered pair of nodes is joined, about equally often."""
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    kind, n, m, seeds = case
    total = np.zeros((n, n))
    for seed in range(seeds):
        scramble(seed)
        U.set_random_seed(seed)
        A = np.asarray(er(n, m, None, seed) if kind == 'er' else U.simulate_dag(n, m, kind)) != 0
        rec.step()
        if not acyclic(A.tolist()):
            raise Violation(f'{kind}({n}, {m}), seed {seed} has a cycle: {A.astype(int).tolist()}')
        total += A
    want = total.sum() / (n * (n - 1))
    off = ~np.eye(n, dtype=bool)
    bad = off & (np.abs(total - want) > 6.5 * np.sqrt(want) + 1)
    if bad.any() or (total[off] == 0).any() or total.diagonal().any():
        u, v = np.argwhere(bad)[0] if bad.any() else (0, 0)
        raise Violation(f'{kind}({n}, {m}) over {seeds} seeds: edge {u} -> {v} occurs {int(total[u, v])} times, an edge on average {want:.1f} times; '
                        f'never: {np.argwhere((total == 0) & off).tolist()[:4]}')
    rec.state(n * (n - 1))
    rec.trace()
    rec.sample(dict(kind=kind, nodes=n, edges=m, seeds=seeds))


def check_sim_dag(case, rec):
    import numpy as np
    kind, d, s0, lo, hi = case
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    for seed in range(lo, hi):
        scramble(seed)
        U.set_random_seed(seed)
        B = np.asarray(U.simulate_dag(d, s0, kind))
        rec.step()
        txt = f'simulate_dag({d}, {s0}, {kind}) with seed {seed}'
        if B.shape != (d, d) or not np.isin(B, (0, 1)).all():
            raise Violation(f'{txt}: {B.tolist()}')
        if not acyclic(B.tolist()):
            raise Violation(f'{txt} has a cycle: {B.tolist()}')
        k = int(B.sum())
        if kind in ('ER', 'BP') and k != s0:
            raise Violation(f'{txt}: {k} edges')
        if kind == 'SF':
            m = int(round(s0 / d))
            if k > m * (d - 1) or (m >= 1 and k < d - 1) or (m == 1 and k != d - 1):
                raise Violation(f'{txt}: {k} edges with {m} per node')
        if kind == 'BP':
            tops = {u for u in range(d) if B[u].any()}
            if any(B[:, u].any() for u in tops) or len(tops) > int(0.2 * d):
                raise Violation(f'{txt} is not bipartite from {int(0.2 * d)} tops: {B.tolist()}')
        scramble(seed + 3)
        U.set_random_seed(seed)
        if not (np.asarray(U.simulate_dag(d, s0, kind)) == B).all():
            raise Violation(f'{txt}: the same seed gives another graph')
        rec.step()
        # parameters
        for ranges in (None, ((0.5, 1.0),), ((-2.0, -1.5), (0.25, 0.5), (3.0, 4.0))):
            keep = B.copy()
            U.set_random_seed(seed)
            W = U.simulate_parameter(B, ranges) if ranges else U.simulate_parameter(B)
            U.set_random_seed(seed)
            V = U.simulate_parameter(B, ranges) if ranges else U.simulate_parameter(B)
            rec.step(2)
            if not (B == keep).all() or not (W == V).all():
                raise Violation(f'simulate_parameter on {B.tolist()}: graph changed or not reproducible')
            rr = ranges or ((-2.0, -0.5), (0.5, 2.0))
            if not ((W != 0) == (B != 0)).all():
                raise Violation(f'simulate_parameter on {B.tolist()}: {W.tolist()} has another support')
            for w in W[B != 0]:
                if not any(a <= w <= b for a, b in rr):
                    raise Violation(f'simulate_parameter on {B.tolist()} with ranges {rr}: weight {w}')
            if not U.is_dag(W):
                raise Violation(f'is_dag is false on {W.tolist()}')
        rec.state()
    rec.trace()
    rec.sample(dict(kind=kind, nodes=d, edges=s0, seeds=[lo, hi]))


def check_param_ranges(case, rec):
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    rr = ((-2.0, -1.5), (0.25, 0.5), (3.0, 4.0))
    B = np.triu(np.ones((3, 3)), 1)
    seen = set()
    pairs = set()
    for seed in range(case):
        U.set_random_seed(seed)
        W = U.simulate_parameter(B, rr)
        rec.step()
        for u, v in ((0, 1), (0, 2), (1, 2)):
            k = [i for i, (a, b) in enumerate(rr) if a <= W[u, v] <= b]
            seen.add((u, v, k[0] if k else None))
        on = [(u, v, bool(W[u, v] > 0)) for u, v in ((0, 1), (0, 2), (1, 2))]
        pairs |= set(combinations(on, 2))
    if len(pairs) != 12:
        raise Violation(f'simulate_parameter: over {case} seeds the signs of two edges are {sorted(pairs)}')
    want = {(u, v, k) for u, v in ((0, 1), (0, 2), (1, 2)) for k in range(3)}
    if seen != want:
        raise Violation(f'simulate_parameter: over {case} seeds the (edge, range) combinations are {sorted(seen, key=str)}')
    rec.state(9)
    rec.trace()


_REFC = {}


def cond_bound(n, per):
    import numpy as np
    if (n, per) not in _REFC:
        r = np.random.RandomState(5)
        A = r.uniform(1, 2, (20000, n, n))
        A /= np.sqrt((A ** 2).sum(1, keepdims=True))
        _REFC[n, per] = float(np.percentile(np.linalg.cond(A), per))
    return _REFC[n, per]


def check_lag(case, rec):
    import numpy as np
    from cdmir.datasets.utils import generate_lag_transitions
    n, lag, per, seed = case
    scramble(seed)
    T = generate_lag_transitions(n, lag, seed, per, 1500)
    txt = f'generate_lag_transitions({n}, {lag}, {seed}, {per}, 1500)'
    if T.shape != (lag, n, n) or not np.isfinite(T).all():
        raise Violation(f'{txt}: shape {T.shape}')
    if not close((T ** 2).sum(1), np.ones((lag, n)), 1e-9, 1e-9):
        raise Violation(f'{txt}: squared column norms {(T ** 2).sum(1).tolist()}')
    c = np.linalg.cond(T)
    if (c > 1.25 * cond_bound(n, per)).any():
        raise Violation(f'{txt}: condition numbers {c.tolist()}, threshold about {cond_bound(n, per):.4g}')
    if len({tuple(t.ravel().tolist()) for t in T}) != (lag if n > 1 else len({float(t[0, 0]) for t in T})):
        raise Violation(f'{txt}: the matrices of different lags coincide')
    scramble(seed + 5)
    U = generate_lag_transitions(n_nodes=n, max_lag=lag, seed=seed, accept_per=per, niter4cond_thresh=1.5e3)
    if not (U == T).all():
        raise Violation(f'{txt}: not reproducible')
    if n > 1:
        V = generate_lag_transitions(n, lag, seed + 1, per, 1500)
        if (V == T).all():
            raise Violation(f'{txt}: the next seed gives the same matrices')
        if seed == 0:
            a = generate_lag_transitions(n, lag, None, per, 100)
            b = generate_lag_transitions(n, lag, accept_per=per, niter4cond_thresh=100)
            if a.shape != (lag, n, n) or (a == b).all():
                raise Violation(f'{txt}: without a seed repeated calls give the same matrices')
    rec.step(3)
    rec.state()
    rec.trace()
    rec.sample(dict(nodes=n, lags=lag, percentile=per, seed=seed))


def check_lag_signs(case, rec):
    import numpy as np
    from cdmir.datasets.utils import generate_lag_transitions
    seen = set()
    for seed in range(case):
        for t in generate_lag_transitions(2, 2, seed, 50, 50):
            seen.add(tuple(bool(x > 0) for x in t.ravel()))
        rec.step()
    # a well conditioned matrix of two unit columns: every sign pattern can occur
    if len(seen) != 16:
        raise Violation(f'generate_lag_transitions: over {case} seeds only {len(seen)} of 16 sign patterns occur')
    rec.state(16)
    rec.trace()


def check_seeding(case, rec):
    """set_random_seed fixes every generator in use, and None leaves it free."""
    import random
    import numpy as np
    import torch
    from cdmir.datasets.utils import set_random_seed
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    seed, torch_too = case

    def draw():
        return (np.random.rand(3).tolist(), [random.random() for _ in range(3)], torch.rand(3).tolist())
    scramble(seed)
    torch.manual_seed(9)
    set_random_seed(seed, torch_too)
    a = draw()
    scramble(seed + 1)
    torch.manual_seed(10)
    set_random_seed(seed, torch_too)
    b = draw()
    rec.step(2)
    if a[0] != b[0] or a[1] != b[1] or (a[2] == b[2]) != torch_too:
        raise Violation(f'set_random_seed({seed}, {torch_too}): draws {a} and {b}')
    set_random_seed(seed + 1, torch_too)
    c = draw()
    if c[0] == a[0] or c[1] == a[1]:
        raise Violation(f'set_random_seed: seeds {seed} and {seed + 1} give the same draws')
    U.set_random_seed(seed)
    d = draw()[:2]
    scramble(3)
    U.set_random_seed(seed)
    if d != draw()[:2]:
        raise Violation(f'set_random_seed({seed}) of the entropy utilities is not reproducible')
    set_random_seed(None, torch_too)
    e = draw()
    set_random_seed(None, torch_too)
    if e[0] == draw()[0]:
        raise Violation('set_random_seed(None) makes numpy repeat itself')
    rec.step(5)
    rec.state()
    rec.trace()


def check_refusal(case, rec):
    from cdmir.datasets.utils import erdos_renyi, generate_lag_transitions
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as U
    calls = [('erdos_renyi of no node', lambda: erdos_renyi(0, 0, None, 1)),
             ('erdos_renyi of -1 nodes', lambda: erdos_renyi(-1, 0, None, 1)),
             ('transitions of no node', lambda: generate_lag_transitions(0, 1, 1, 25, 10)),
             ('transitions of no lag', lambda: generate_lag_transitions(2, 0, 1, 25, 10)),
             ('transitions of lag -1', lambda: generate_lag_transitions(2, -1, 1, 25, 10)),
             ('dag of unknown type', lambda: U.simulate_dag(3, 2, 'xx'))]
    for txt, fn in calls:
        try:
            fn()
        except (AssertionError, ValueError):
            rec.step()
            continue
        raise Violation(f'{txt} is accepted')
    rec.state(len(calls))
    rec.trace()


def check_convert(case, rec):
    """networkx / pandas / numpy conversions keep the matrix."""
    import networkx as nx
    import numpy as np
    import pandas as pd
    from cdmir.datasets.utils import check_data, nx2np, np2nx, pd2np
    n, bits, kind = case
    A = np.zeros((n, n))
    for k, (i, j) in enumerate(product(range(n), repeat=2)):
        A[i, j] = bits[k] * (1 if kind == 0 else 0.5 + k)
    G = np2nx(A, create_using=nx.DiGraph)
    rec.step()
    if set(G.edges) != {(i, j) for i, j in product(range(n), repeat=2) if A[i, j]} or len(G) != n:
        raise Violation(f'np2nx of {A.tolist()}: edges {sorted(G.edges)}')
    if not (nx2np(G) == A).all():
        raise Violation(f'nx2np(np2nx(A)) = {nx2np(G).tolist()} for A = {A.tolist()}')
    S = np.maximum(A, A.T)
    U = np2nx(S)
    if U.is_directed() or not (nx2np(U) == S).all():
        raise Violation(f'undirected round trip of {S.tolist()} gives {nx2np(U).tolist()}')
    df = pd.DataFrame(A, columns=list('abcde')[:n])
    for X in (pd2np(df), check_data(df), check_data(A)):
        if not isinstance(X, np.ndarray) or not (X == A).all():
            raise Violation(f'conversion of {A.tolist()} gives {X}')
    try:
        check_data(A.tolist())
    except AssertionError:
        pass
    else:
        raise Violation('check_data accepts a list')
    rec.step(7)
    rec.state()
    rec.trace()


def spaces(tier, seed):
    big = tier != 'quick'
    K = 2000 if big else 240
    out = []
    cases = []
    for n in range(1, 7 if big else 6):
        for m in range(0, n * n // 2 + 2):
            for r in (None, (0.5, 2.0)):
                for lo in range(0, K, 240 if not big else 500):
                    cases.append((n, m, r, lo, min(K, lo + (240 if not big else 500))))
    for n in (2, 4):
        cases.append((n, n, (0.0, 1.0), 0, 60))
        cases.append((n, n, (1.0, 1.0), 0, 60))
        cases.append((n, n, (-1.5, 0.5), 0, 60))
    cases += [(8, 12, None, 0, 60), (10, 20, (0.3, 0.9), 0, 60), (20, 40, None, 0, 20)]
    out.append(Space('erdos_renyi, every node and edge count', cases, check_er, chunk=2,
                     note=f'at most {6 if big else 5} nodes, every edge count, seeds below {K}'))
    R = 4000 if big else 1200
    reach = [('er', 2, 1, R), ('er', 3, 3, R), ('er-unseeded', 3, 3, R), ('er-weights', 3, 3, R), ('er-weights', 2, 2, R)]
    reach += [('ER', 3, m, R) for m in range(4)] + [('ER', 2, 1, R), ('BP', 5, 1, R), ('BP', 5, 2, R), ('BP', 5, 3, R), ('BP', 5, 4, R),
                                                    ('SF', 2, 2, R), ('SF', 3, 3, R)]
    if big:
        reach += [('er', 4, 5, 40000), ('ER', 4, 3, 40000), ('SF', 4, 4, 20000)]
    out.append(Space('which graphs occur', reach, check_reach, chunk=1, note=f'{R} seeds, all graphs on at most 3 nodes (bipartite: 5)'))
    F = 4 if big else 1
    out.append(Space('larger graphs', [('er', 6, 9, 500 * F), ('er', 9, 18, 500 * F), ('er', 13, 40, 500 * F), ('er', 30, 60, 1500 * F),
                                       ('ER', 7, 10, 500 * F), ('ER', 12, 30, 500 * F), ('ER', 20, 60, 800 * F), ('BP', 11, 9, 1500 * F)],
                     check_pairs, chunk=1, note='every ordered pair of nodes joined, equally often, over the seeds'))
    cases = []
    S = 400 if big else 60
    for d in range(1, 7):
        for s0 in range(0, d * (d - 1) // 2 + 1):
            cases.append(('ER', d, s0, 0, S))
        for s0 in range(0, 3 * d, d):
            if d > 1:
                cases.append(('SF', d, s0, 0, S))
    for d in (5, 6, 7, 10):
        top = int(0.2 * d)
        for s0 in range(0, top * (d - top) + 1, 1 if d < 8 else 3):
            cases.append(('BP', d, s0, 0, S))
    out.append(Space('simulate_dag and simulate_parameter', cases, check_sim_dag, chunk=2, note=f'{S} seeds per configuration'))
    out.append(Space('parameter ranges', [200], check_param_ranges))
    out.append(Space('lag transitions', [(n, lag, per, s) for n in (1, 2, 3, 4, 6, 9) for lag in (1, 2, 3, 5) for per in (25, 60)
                                         for s in range(8 if big else 2)], check_lag, chunk=1))
    out.append(Space('lag transition signs', [400], check_lag_signs))
    out.append(Space('seeding', [(s, t) for s in range(40) for t in (True, False)], check_seeding))
    out.append(Space('refusals', [0], check_refusal))
    conv = [(n, b, k) for n in (1, 2, 3) for b in product((0, 1), repeat=n * n) for k in (0, 1)]
    out.append(Space('conversions', conv, check_convert))
    return out
