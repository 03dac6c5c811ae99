"""C17: event sequence simulators produce what they report; the Hawkes structure search returns a scored local optimum."""
from itertools import permutations, product

from mc import ref
from mc.core import Space, Violation, close
from checks.c16_random import acyclic, scramble

PROPERTY = 'C17'
TITLE = 'Event sequences and the Hawkes structure search agree with what they report'
ASSUMPTIONS = ['event times are non-negative and at least one sequence lasts longer than one interval',
               'the expectation step starts from parameters drawn once per call from a generator seeded with the seed argument']
COLS = ['seq_id', 'time_stamp', 'event_type']


# ------------------------------------------------------------ simulators
def check_hawkes(case, rec):
    import numpy as np
    from cdmir.datasets.simlulators import HawkesSimulator as H
    n, rate, interval, seed, size, seqs = case
    mu_r, al_r = (0.1, 0.4), (0.2, 0.5)

    def run(iv):
        return H.get_artificial_data(mu_r, al_r, n, sample_size=size, out_degree_rate=rate, NE_num=seqs, decay=0.7, time_interval=iv, seed=seed)
    scramble(seed)
    tab, edge, alpha, mu, events = run(interval)
    txt = f'Hawkes data of {n} types, degree rate {rate}, interval {interval}, seed {seed}'
    m = min(round(rate * n), n * (n - 1) // 2)
    if edge.shape != (n, n) or not np.isin(edge, (0, 1)).all() or np.tril(edge).any() or edge.sum() != m:
        raise Violation(f'{txt}: edges {edge.tolist()}, {m} from lower to higher types wanted')
    if alpha.shape != (n, n) or ((alpha != 0) != (edge != 0)).any() or (alpha[edge != 0] < al_r[0]).any() or (alpha[edge != 0] > al_r[1]).any():
        raise Violation(f'{txt}: alpha {alpha.tolist()} for edges {edge.tolist()}')
    if mu.shape != (n,) or (mu < mu_r[0]).any() or (mu > mu_r[1]).any():
        raise Violation(f'{txt}: mu {mu.tolist()}')
    if list(tab.columns) != COLS or not set(tab['seq_id']) <= set(range(seqs)) or not set(tab['event_type']) <= set(range(n)):
        raise Violation(f'{txt}: columns {list(tab.columns)}, sequences {sorted(set(tab["seq_id"]))}, types {sorted(set(tab["event_type"]))}')
    if (tab['time_stamp'] < 0).any() or (tab.groupby('seq_id').size() > size / seqs + 1).any():
        raise Violation(f'{txt}: negative times or more than {size / seqs} events in a sequence')
    scramble(seed + 5)
    tab0, edge0, alpha0, mu0, ev0 = run(None)
    if not (edge0 == edge).all() or not (alpha0 == alpha).all() or not (mu0 == mu).all():
        raise Violation(f'{txt}: the parameters are not reproducible')
    rec.step(2)
    t0 = tab0['time_stamp'].to_numpy()
    t = tab['time_stamp'].to_numpy()
    if len(tab0) != len(tab) or (tab0[['seq_id', 'event_type']].to_numpy() != tab[['seq_id', 'event_type']].to_numpy()).any():
        raise Violation(f'{txt}: the events are not reproducible')
    want = t0 if interval is None else np.floor(t0 / interval) * interval
    if not close(t, want, 1e-9, 1e-9):
        raise Violation(f'{txt}: the times are not those of the undiscretised run')
    # the list form
    if len(events) != seqs or any(len(q) != n for q in events):
        raise Violation(f'{txt}: {[len(q) for q in events]} event lists, {n} for each of {seqs} sequences wanted')
    for s in range(seqs):
        for i in range(n):
            w = [float(a) for q, a, k in tab.to_numpy() if q == s and k == i]
            if sorted(events[s][i].tolist()) != sorted(w):
                raise Violation(f'{txt}: the list of type {i} in sequence {s} is {events[s][i].tolist()[:5]}.., the table has {w[:5]}..')
    if m:
        other = H.get_artificial_data(mu_r, al_r, n, sample_size=size, out_degree_rate=rate, NE_num=seqs, decay=0.7, seed=seed + 1)
        rec.step()
        if (other[2] == alpha).all():
            raise Violation(f'{txt}: seed {seed + 1} gives the same parameters')
    gen = H.generate_data(n, '0.1,0.4', '0.2,0.5', size, rate, seqs, 0.7, seed=seed)
    rec.step()
    if not (gen[2] == alpha).all() or not (gen[3] == mu).all() or len(gen[0]) != len(tab0) or not close(gen[0]['time_stamp'], t0):
        raise Violation(f'{txt}: generate_data gives other data than get_artificial_data')
    rec.state()
    rec.trace()
    rec.sample(dict(types=n, rate=rate, interval=interval, seed=seed, events=len(tab)))


def check_rates(case, rec):
    """the long-run rates are those of the reported graph: mu + alpha^T rate."""
    import numpy as np
    from cdmir.datasets.simlulators import HawkesSimulator as H
    n, edges, decay, seed = case
    tab, edge, alpha, mu, _ = H.get_artificial_data((0.2, 0.2), (0.6, 0.6), n, sample_size=12000, out_degree_rate=edges / n, NE_num=4,
                                                    decay=decay, seed=seed)
    T = tab.groupby('seq_id')['time_stamp'].max().sum()
    got = np.array([(tab['event_type'] == i).sum() for i in range(n)]) / T
    want = np.linalg.solve(np.eye(n) - alpha.T, mu)
    rec.step()
    if (np.abs(got / want - 1) > 0.2).any():
        raise Violation(f'Hawkes data from alpha {alpha.tolist()}, mu {mu.tolist()}, decay {decay}, seed {seed}: rates {got.round(3).tolist()}, '
                        f'the model has {want.round(3).tolist()}')
    rec.state()
    rec.trace()


def check_edges_occur(case, rec):
    import numpy as np
    from cdmir.datasets.simlulators import HawkesSimulator as H
    n, m, seeds = case
    seen = set()
    for seed in range(seeds):
        e = H.get_artificial_data((0.1, 0.4), (0.2, 0.5), n, sample_size=4, out_degree_rate=m / n, NE_num=1, seed=seed)[1]
        rec.step()
        seen.add(tuple(zip(*[x.tolist() for x in np.nonzero(e)])))
    from itertools import combinations
    want = set(combinations([(i, j) for i in range(n) for j in range(n) if i < j], m))
    if seen != want:
        raise Violation(f'Hawkes graphs with {n} types and {m} edges: over {seeds} seeds {len(seen)} of {len(want)} occur')
    rec.state(len(want))
    rec.trace()


def check_insem(case, rec):
    import numpy as np
    from cdmir.datasets.simlulators import HawkesSimulator as H
    n, lx, theta, le, seed = case
    scramble(seed)
    d = H.INSEM_data(n, lx, theta, le, seed)
    scramble(seed + 1)
    d2 = H.INSEM_data(sample_size=n, lambda_x=lx, theta=theta, lambda_e=le, seed=seed)
    rec.step(2)
    txt = f'INSEM_data({n}, {lx}, {theta}, {le}, {seed})'
    if list(d.columns) != COLS:
        raise Violation(f'{txt}: columns {list(d.columns)}')
    if d.to_numpy().tolist() != d2.to_numpy().tolist():
        raise Violation(f'{txt}: not reproducible')
    c = np.zeros((2, n), dtype=int)
    for s, t, k in d.to_numpy().tolist():
        if s != 0 or k not in (0, 1) or not 0 <= t < n or t != int(t):
            raise Violation(f'{txt}: event {(s, t, k)}')
        c[int(k), int(t)] += 1
    if le == 0 and (c[1] > c[0]).any() or theta == 1 and (c[1] < c[0]).any():
        raise Violation(f'{txt}: causes {c[0].tolist()}, effects {c[1].tolist()}')
    if theta == 0:
        # the effects come from the noise alone
        e = H.INSEM_data(n, lx, theta, 0, seed)
        if (e.to_numpy()[:, 2] == 1).any():
            raise Violation(f'{txt}: effects without noise and thinning')
    if lx == 0 and c[0].any():
        raise Violation(f'{txt}: causes {c[0].tolist()} with rate 0')
    if n >= 200:
        a, b = c[0].mean(), c[1].mean()
        if abs(a - lx) > 6 * np.sqrt((lx + .01) / n) or abs(b - (theta * lx + le)) > 6 * np.sqrt((theta * lx + le + .01) / n):
            raise Violation(f'{txt}: mean counts {a:.3f} and {b:.3f}, expected {lx} and {theta * lx + le}')
        if 0 < theta and lx > 0:
            cov = np.cov(c)[0, 1]
            if abs(cov - theta * lx) > 0.5 * theta * lx + .15:
                raise Violation(f'{txt}: covariance of causes and effects {cov:.3f}, expected {theta * lx}')
    rec.state()
    rec.trace()
    rec.sample(dict(samples=n, rate=lx, theta=theta, noise=le, seed=seed, events=len(d)))


# ------------------------------------------------------------ the search
def frame(rows, order=None, cols=None):
    import pandas as pd
    rows = list(rows)
    if order:
        rows = [rows[i] for i in order]
    return pd.DataFrame(rows, columns=cols or COLS)


def rows_of(counts, types, span):
    """counts: tuple of small integers, one per (sequence, time, type)."""
    out = []
    k = 0
    seqs = len(counts) // (types * span)
    for s in range(seqs):
        for t in range(span):
            for i in range(types):
                out += [(s, t, i)] * counts[k]
                k += 1
    return out


class Model:
    """the discretised Hawkes likelihood, straight from its definition."""

    def __init__(self, rows, decay, interval):
        import numpy as np
        iv = interval if interval is not None else None
        ev = {}
        for s, t, k in rows:
            t = t if iv is None else int(t / iv) * iv
            ev.setdefault(s, {}).setdefault(t, {})
            ev[s][t][k] = ev[s][t].get(k, 0) + 1
        types = sorted({k for s in ev for t in ev[s] for k in ev[s][t]})
        self.types = types
        n = len(types)
        self.n = n
        self.decay = decay
        self.iv = 1 if interval is None else interval
        X, K, integ = [], [], np.zeros(n)
        T = 0.0
        for s in sorted(ev):
            ts = sorted(ev[s])
            T += ts[-1] - ts[0]
            for t in ts:
                X.append([ev[s][t].get(k, 0) for k in types])
                K.append([sum(ev[s][u].get(k, 0) * np.exp(-decay * (t - u)) for u in ts if u <= t) for k in types])
                integ += np.array(X[-1]) * (1 - np.exp(-decay * (ts[-1] - t))) / decay
        self.X, self.K, self.T, self.integ = np.array(X, float), np.array(K), T, integ
        self.N = self.X.sum()

    def local(self, i, alpha, mu):
        import numpy as np
        lam = self.K @ alpha[:, i] + mu[i]
        x = self.X[:, i]
        with np.errstate(all='ignore'):
            lg = np.where(x > 0, x * np.log(lam), 0.0).sum()
        return lg - mu[i] * self.T - float(self.X.sum(0) @ alpha[:, i]) / self.decay

    def total(self, alpha, mu):
        return sum(self.local(i, alpha, mu) for i in range(self.n))

    def penalty(self, k, kind, reg):
        import numpy as np
        return (self.n + k) * (1 if kind == 'AIC' else np.log(self.N) * reg)

    def em(self, i, pa, alpha0):
        """published updates from the given start, until the gain is below 0.0085."""
        import numpy as np
        a = np.zeros(self.n)
        for j in pa:
            a[j] = alpha0[j, i]
        m = 1.0
        last = -np.inf
        for _ in range(100000):
            lam = self.K @ a + m
            full = np.zeros((self.n, self.n))
            full[:, i] = a
            mv = np.zeros(self.n)
            mv[i] = m
            new = self.local(i, full, mv)
            if abs(new - last - 0.0085) < 1e-7:
                return None
            if new - last < 0.0085:
                return new, a, m
            last = new
            x = self.X[:, i]
            b = a.copy()
            for j in pa:
                low = self.integ[j] * self.iv
                # the parameters are updated with the intensity of this round
                b[j] = 0 if low == 0 else (a[j] * self.K[:, j] / lam * x).sum() / low
            m = (m / lam * x).sum() / self.T
            a = b


def make(rows, **kw):
    from cdmir.discovery.point_process.SHP import SHP
    return SHP(frame(rows), **kw)


def usable(rows, interval=None):
    span = {}
    for s, t, _ in rows:
        t = t if interval is None else int(t / interval)
        lo, hi = span.get(s, (t, t))
        span[s] = (min(lo, t), max(hi, t))
    return any(hi > lo for lo, hi in span.values())


def check_em(case, rec):
    """every acyclic structure: score, support, parameters, memo."""
    import numpy as np
    rows, decay, interval, seed, full = case
    rows = [tuple(r) for r in rows]
    M = Model(rows, decay, interval)
    n = M.n
    idx = M.types
    txt = f'events {rows}, decay {decay}, interval {interval}'
    for kind, reg in (('BIC', 3.0), ('AIC', 3.0), ('BIC', 0.85)) if full else (('BIC', 0.85),):
        tab = frame(rows)
        keep = tab.copy()
        from cdmir.discovery.point_process.SHP import SHP
        o = SHP(tab, decay, time_interval=interval, penalty=kind, seed=seed, reg=reg)
        if not tab.equals(keep):
            raise Violation(f'{txt}: the event table was changed to {tab.to_numpy().tolist()}')
        if list(o.event_names) != idx or o.n != n:
            raise Violation(f'{txt}: types {list(o.event_names)}')
        gen = np.random.RandomState(seed)
        seen = {}
        structures = ref.dags(n) if n <= 3 else [ref.relabel(p, ref.shuffled(n, k)) if k % 2 else p
                                                 for k, (_, p) in enumerate(ref.families(n))]
        for par in structures:
            A = np.zeros((n, n))
            for u, v in ref.edges_of(par):
                A[u, v] = 1
            B = A.copy()
            L, alpha, mu = o.EM(B)
            start = gen.uniform(0, 1, [n, n])
            rec.step()
            w = f'{txt}, {kind}, structure {A.tolist()}'
            if not (A == B).all():
                raise Violation(f'{w}: the structure was changed')
            if alpha.shape != (n, n) or (alpha[A == 0] != 0).any() or (alpha < 0).any() or not (mu > 0).all():
                raise Violation(f'{w}: alpha {alpha.tolist()}, mu {mu.tolist()}')
            want = M.total(alpha, mu) - M.penalty(A.sum(), kind, reg)
            if not close(L, want, 1e-6 if n <= 4 else 1e-5, 2e-3 if n <= 4 else 1e-2):
                raise Violation(f'{w}: reported score {L}, the reported parameters alpha {alpha.tolist()}, mu {mu.tolist()} have {want}')
            for i in range(n):
                key = (i, par[i])
                if key not in seen:
                    seen[key] = (alpha[:, i].copy(), mu[i])
                    e = M.em(i, ref.bits(par[i]), start)
                    if e is not None and not (close(e[1], alpha[:, i], 2e-3, 2e-3) and close(e[2], mu[i], 2e-3, 2e-3)):
                        raise Violation(f'{w}: parameters of type {i} are alpha {alpha[:, i].tolist()}, mu {mu[i]}; the EM updates '
                                        f'give {e[1].tolist()}, {e[2]}')
                    if not par[i] and not close(mu[i], M.X[:, i].sum() / M.T, 1e-9, 1e-9):
                        raise Violation(f'{w}: without parents the rate of type {i} is {mu[i]}, maximum likelihood gives {M.X[:, i].sum() / M.T}')
                elif not close(seen[key][0], alpha[:, i], 1e-12, 1e-12) or seen[key][1] != mu[i]:
                    raise Violation(f'{w}: another structure with the same parents of type {i} had alpha {seen[key][0].tolist()}, '
                                    f'now {alpha[:, i].tolist()}')
            rec.state()
        # the version that skips the acyclicity test agrees on what is remembered
        for par in structures[::4]:
            A = np.zeros((n, n))
            for u, v in ref.edges_of(par):
                A[u, v] = 1
            a, b = o.EM(A), o.EM_not_HC(A)
            rec.step(2)
            if n > 4:
                # another start is free here: parameters and score must still belong together
                L, alpha, mu = b
                want = M.total(alpha, mu) - M.penalty(A.sum(), 'BIC', reg)
                if (alpha[A == 0] != 0).any() or kind == 'BIC' and not close(L, want, 1e-5, 1e-2):
                    raise Violation(f'{txt}: EM_not_HC gives {b} for {A.tolist()}, the parameters have {want}')
                continue
            if not close(a[1], b[1], 1e-12, 1e-12) or not close(a[2], b[2], 1e-12, 1e-12) or (kind == 'BIC' and not close(a[0], b[0])):
                raise Violation(f'{txt}: EM gives {a}, EM_not_HC gives {b} for {A.tolist()}')
        # cyclic structures are never scored
        C = np.zeros((n, n))
        if n > 1:
            C[0, 1] = C[1, 0] = 1
            if o.EM(C)[0] != -np.inf:
                raise Violation(f'{txt}: the cyclic structure {C.tolist()} has the score {o.EM(C)[0]}')
            if full:
                q = SHP(frame(rows), decay, time_interval=interval, penalty='BIC', seed=seed, reg=reg)
                L, alpha, mu = q.EM_not_HC(C)
                want = M.total(alpha, mu) - M.penalty(2, 'BIC', reg)
                if not close(L, want, 1e-6, 2e-3) or (alpha[C == 0] != 0).any():
                    raise Violation(f'{txt}: without acyclicity, reported score {L}, the parameters {alpha.tolist()}, {mu.tolist()} have {want}')
            rec.step(2)
    rec.trace()
    rec.sample(dict(events=len(rows), types=n, decay=decay, interval=interval))


def run_hc(rows, decay, interval, seed, kind, reg, init=None, order=None, cols=None):
    import numpy as np
    from cdmir.discovery.point_process.SHP import SHP
    kw = {} if init is None else dict(init_structure=np.array(init))
    o = SHP(frame(rows, order, cols), decay, time_interval=interval, penalty=kind, seed=seed, reg=reg, **kw)
    return o, o.Hill_Climb()


def same_result(a, b):
    return close(a[0], b[0], 1e-7, 1e-7) and close(a[1], b[1], 1e-6, 1e-6) and close(a[2], b[2], 1e-6, 1e-6)


def check_hc(case, rec):
    import numpy as np
    rows, decay, interval, seed, kind, reg, variants = case
    rows = [tuple(r) for r in rows]
    M = Model(rows, decay, interval)
    n = M.n
    txt = f'search on events {rows}, decay {decay}, interval {interval}, {kind}, reg {reg}'
    inits = [None] + ([[[0, 1] + [0] * (n - 2)] + [[0] * n for _ in range(n - 1)],
                       [[0] * n] * (n - 1) + [[1] + [0] * (n - 1)],
                       [[1 if v > u else 0 for v in range(n)] for u in range(n)]] if n > 1 and variants else [])
    for init in inits:
        o, (L, alpha, mu) = run_hc(rows, decay, interval, seed, kind, reg, init)
        rec.step()
        S = (alpha != 0).astype(float)
        if not acyclic(S.tolist()):
            raise Violation(f'{txt}: the result {alpha.tolist()} has a cycle')
        if (alpha < 0).any() or not (mu > 0).all():
            raise Violation(f'{txt}: alpha {alpha.tolist()}, mu {mu.tolist()}')
        # the reported score belongs to the reported parameters, for a structure containing the support
        base = M.total(alpha, mu)
        ks = [k for k in range(int(S.sum()), n * (n - 1) // 2 + 1) if close(L, base - M.penalty(k, kind, reg), 1e-6, 2e-3)]
        if not ks:
            raise Violation(f'{txt} from {init}: reported score {L}, the reported parameters {alpha.tolist()}, {mu.tolist()} have '
                            f'{base - M.penalty(int(S.sum()), kind, reg)}')
        first = o.EM(np.zeros((n, n)) if init is None else np.array(init, dtype=float))[0]
        if L < first - 1e-9:
            raise Violation(f'{txt}: the result {L} is worse than the initial structure {init}: {first}')
        if S.sum() in ks and close(o.EM(S)[0], L, 1e-9, 1e-9):
            for u in range(n):
                for v in range(n):
                    if u < v:
                        for a, b in ((0, 0), (1, 0), (0, 1)):
                            N = S.copy()
                            N[u, v], N[v, u] = a, b
                            rec.step()
                            if o.EM(N)[0] > L + 1e-9:
                                raise Violation(f'{txt} from {init}: the result {S.tolist()} scores {L}, its neighbour {N.tolist()} {o.EM(N)[0]}')
        o2, again = run_hc(rows, decay, interval, seed, kind, reg, init)
        if not (again[0] == L and (again[1] == alpha).all() and (again[2] == mu).all()):
            raise Violation(f'{txt}: the same seed gives {again} and {(L, alpha, mu)}')
        rec.step()
        rec.state()
        if init is not None or not variants:
            continue
        # equivalent presentations of the same events
        k = len(rows)
        pres = [('the rows reversed', dict(rows=rows, order=list(range(k))[::-1])),
                ('the rows interleaved', dict(rows=rows, order=list(range(0, k, 2)) + list(range(1, k, 2)))),
                ('other column names', dict(rows=rows, cols=['a', 'b', 'c'])),
                ('later starts', dict(rows=[(s, t + (3 + 2 * s) * (interval or 1), e) for s, t, e in rows])),
                ('named types', dict(rows=[(s, t, 'abcdefghij'[e]) for s, t, e in rows])),
                ('larger type numbers', dict(rows=[(s, t, 7 * e + 3) for s, t, e in rows])),
                ('renumbered sequences', dict(rows=[(s * 5 + 2, t, e) for s, t, e in rows]))]
        if interval is not None:
            pres.append(('times inside their interval', dict(rows=[(s, (int(t / interval) + 0.5) * interval, e) for s, t, e in rows])))
        for name, kw in pres:
            q, r = run_hc(kw.pop('rows'), decay, interval, seed, kind, reg, init, **kw)
            rec.step()
            if not same_result(r, (L, alpha, mu)):
                raise Violation(f'{txt}: with {name} the result is {r}, before it was {(L, alpha, mu)}')
    rec.trace()
    rec.sample(dict(events=len(rows), types=n, decay=decay, interval=interval, penalty=kind))


def check_planted(case, rec):
    """strong influence is found (between two types with its direction), and nothing is found between unrelated types."""
    import numpy as np
    n, par, seed = case
    par = tuple(par)
    rs = np.random.RandomState(seed)
    rows = []
    order = [v for v in range(n)]
    ch = ref.children_of(par)
    for s in range(12):
        ev = [[] for _ in range(n)]
        todo = list(range(n))
        while todo:
            v = next(v for v in todo if not any(u in todo for u in ref.bits(par[v])))
            todo.remove(v)
            own = rs.uniform(0, 600, 25 if not par[v] else 3).tolist()
            for u in ref.bits(par[v]):
                own += [t + 1 + rs.exponential(0.8) for t in ev[u] if rs.rand() < 0.8]
            ev[v] = own
        rows += [(s, t, v) for v in range(n) for t in ev[v]]
    o, (L, alpha, mu) = run_hc(rows, 0.7, 1.0, 0, 'BIC', 3.0)
    rec.step()
    want = {(u, v) for u, v in ref.edges_of(par)}
    got = {(int(u), int(v)) for u, v in zip(*np.nonzero(alpha > 1e-3))}
    d = ref.descendants(par)
    for u in range(n):
        for v in range(u):
            joined = (u, v) in got or (v, u) in got
            trek = any(((d[w] | 1 << w) >> u & 1) and ((d[w] | 1 << w) >> v & 1) for w in range(n))
            true = (u, v) in want or (v, u) in want
            if true and not joined or joined and not trek or n == 2 and got != want:
                raise Violation(f'events where {sorted(want)} excite each other (seed {seed}): the search reports {sorted(got)}')
    rec.state()
    rec.trace()


def check_refusals(case, rec):
    import numpy as np
    import pandas as pd
    from cdmir.discovery.point_process import SHP as mod
    rows = [(0, 0, 0), (0, 1, 1), (0, 2, 0), (0, 3, 1)]
    for kw in (dict(penalty='XIC'), dict(penalty='bic'), dict(init_structure=np.array([[0, 2], [0, 0]])),
               dict(init_structure=np.array([[0, 0.5], [0, 0]]))):
        try:
            make(rows, decay=1.0, time_interval=1, **kw)
        except Exception:
            rec.step()
            continue
        raise Violation(f'SHP accepts {kw}')
    for interval in (1, 2, 5, 20):
        for ty, first in (([0, 1], 0), ([0, 1], 1), ([0, 1, 2], 0), ([0, 1, 2], 1), ([2, 1, 0], 0), ([1, 0, 2], 0), ([3, 0, 7], 2)):
            tab = frame([(s, 1.5 * k + s, ty[(k * k + s + first) % len(ty)]) for s in range(3) for k in range(8)])
            keep = tab.copy()
            ev = mod.get_interval_events(tab, interval)
            rec.step()
            if not tab.equals(keep):
                raise Violation(f'get_interval_events changed the table to {tab["time_stamp"].tolist()}')
            for s in range(3):
                for j, i in enumerate(sorted(set(keep['event_type']))):
                    w = [int(t / interval) * interval for q, t, e in keep.to_numpy() if q == s and e == i]
                    if ev[s][j].tolist() != w:
                        raise Violation(f'get_interval_events: interval {interval}, sequence {s}, type {i}: {ev[s][j].tolist()}, expected {w}')
    for n in (1, 2, 3):
        for bits in product((0, 1), repeat=n * n):
            A = np.array(bits, dtype=float).reshape(n, n)
            Z = A - np.diag(np.diag(A))
            rec.step()
            if bool(mod.check_DAG(A)) != acyclic(Z.tolist()):
                raise Violation(f'check_DAG({A.tolist()}) = {mod.check_DAG(A)}')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    big = tier != 'quick'
    out = []
    hk = [(n, r, iv, s, size, seqs) for n in (1, 2, 3, 4) for r in (0.0, 0.5, 1.0, 1.5, 3.0) for iv in (None, 0.5, 3)
          for s in range(12 if big else 3) for size, seqs in ((60, 2), (40, 5), (6, 3), (2, 2), (3, 1))]
    hk += [(n, r, iv, s, 400, q) for n in (7, 12) for r in (0.5, 1.5) for iv in (None, 0.5) for s in range(6 if big else 2) for q in (2, 12)]
    out.append(Space('Hawkes event tables', hk, check_hawkes, chunk=10, note='at most 4 types, and 7 and 12'))
    out.append(Space('Hawkes rates', [(n, m, d, s) for n in (1, 2, 3) for m in range(0, n * (n - 1) // 2 + 1) for d in (0.5, 2.0)
                                      for s in range(12 if big else 4)], check_rates, chunk=2))
    out.append(Space('Hawkes graphs that occur', [(2, 1, 20), (3, 1, 150), (3, 2, 150), (4, 2, 400), (4, 3, 600)], check_edges_occur, chunk=1))
    ins = [(n, lx, th, le, s) for n in (1, 2, 4) for lx in (0, 0.5, 2) for th in (0, 0.5, 1) for le in (0, 0.5, 2) for s in range(40 if big else 6)]
    ins += [(400, lx, th, le, s) for lx in (0, 0.5, 2) for th in (0, 0.5, 1) for le in (0, 1) for s in range(4 if big else 1)]
    out.append(Space('thinning event tables', ins, check_insem, chunk=8))

    tabs = []
    for cnt in product((0, 1), repeat=8):      # one sequence, two types, four times
        r = rows_of(cnt, 2, 4)
        if len({x[2] for x in r}) == 2 and usable(r):
            tabs.append(r)
    for cnt in product((0, 1), repeat=9):      # one sequence, three types, three times
        r = rows_of(cnt, 3, 3)
        if len({x[2] for x in r}) == 3 and usable(r):
            tabs.append(r)
    two = []
    for cnt in product((0, 1, 2), repeat=8):   # two sequences, two types, two times
        r = rows_of(cnt, 2, 2)
        if len({x[2] for x in r}) == 2 and usable(r):
            two.append(r)
    many = []
    for cnt in product((0, 1, 3, 5), repeat=4):   # one sequence, two types, two times, several events at a time
        r = rows_of(cnt, 2, 2)
        if max(cnt) > 1 and len({x[2] for x in r}) == 2 and usable(r):
            many.append(r)
    thick = []
    for k, cnt in enumerate(product((0, 1, 2), repeat=8)):   # times 0.7 t, intervals of 2 (three times in the first)
        r = [(s, 0.7 * t, i) for s, t, i in rows_of(cnt, 2, 4)]
        if k % (13 if big else 131) == 0 and len({x[2] for x in r}) == 2 and usable(r, 2):
            thick.append(r)
    st = 1 if big else 7
    em, wide = [], []
    for k, r in enumerate(many[::1 if big else 3]):
        em.append((r, (1.5, 0.5, 2.0)[k % 3], 1, k % 4, k % 10 == 0))
    for k, r in enumerate(thick):
        em.append((r, (0.8, 0.4)[k % 2], 2, k % 3, False))
    for k, r in enumerate(tabs[::1 if big else 2] + two[::3 if big else 41]):
        em.append((r, (1.5, 0.5, 2.0)[k % 3], (1, None, 1)[k % 3], k % 4, k % 10 == 0))
    for k, r in enumerate(tabs[::3 * st]):
        em.append(([(s, 2.5 * t, i) for s, t, i in r], 0.8, 2, k % 3, False))
    for k in range(36 if big else 12):
        # long sequences with a memory that reaches far back
        m = (70, 130, 40)[k % 3]
        r = [(s, t, (t * (k + 2) + t * t // 3 + s) % (2 + k % 2)) for s in range(1 + k % 2) for t in range(m) if (t + k) % 7 or t == 0]
        em.append((r, (0.02, 0.05, 0.11)[(k // 3) % 3], (None, 1)[k % 2], k, False))
    for k in range(24 if big else 8):
        # many types, sequences and times
        n = (4, 6, 9, 12)[k % 4]
        r = [(s, t, i) for s in range((2, 3, 12)[k % 3]) for t in range(14) for i in range(n) if (t * t * (i + k + 1) + 3 * i + s * t + s) % (4 + i % 3) == 0]
        wide.append((r, (1.5, 0.4)[k // 4 % 2], (None, 1)[k % 2], k, k % 4 == 0))
    out.append(Space('many types', wide, check_em, chunk=1, limit=300, note='4 to 12 types, 18 families of structures'))
    out.append(Space('likelihood and parameters of every structure', em, check_em, chunk=2,
                     note='event tables with 0/1 counts on 2 types x 4 times and 3 types x 3 times; all DAGs over the types'))
    hc = []
    for k, r in enumerate(tabs[::1 if big else 5] + two[::3 if big else 97]):
        hc.append((r, (1.5, 0.5)[k % 2], (1, None)[k % 2], k % 4, ('BIC', 'AIC')[k % 2], (0.1, 0.5, 3.0)[k % 3], k % 4 == 0))
    for k, r in enumerate(many[::2 if big else 9]):
        hc.append((r, (1.5, 0.5)[k % 2], 1, k % 4, ('BIC', 'AIC')[k % 2], (0.1, 0.5, 3.0)[k % 3], False))
    for k, r in enumerate(thick[::1 if big else 3]):
        hc.append((r, (0.8, 0.4)[k % 2], 2, k % 3, ('BIC', 'AIC')[k % 2], (0.1, 0.5, 3.0)[k % 3], False))
    for k in range(60 if big else 12):
        # longer tables by a fixed rule
        r = [(s, t + (0.25 * i if k % 2 else 0), i) for s in range(2) for t in range(14) for i in range(3 + k % 2)
             if ((t * (3 + i) + s * 5 + k * (i + 2) + t * t * (k % 5)) % (3 + i)) == 0]
        r += [(s, t + 1, 2) for s, t, i in r if i == k % 2 and (t + k) % 3]
        hc.append((r, (0.5, 1.0)[k % 2], (1, 2, None)[k % 3], k, ('BIC', 'AIC', 'BIC')[k % 3], (0.05, 0.3, 0.3)[k % 3], k % 3 == 0))
    for k in range(16 if big else 5):
        n = (5, 6, 8)[k % 3]
        r = [(s, t, i) for s in range(2) for t in range(16) for i in range(n) if (t * (3 + i) + s * 5 + k * (i + 2) + t * t * (k % 5 + i)) % (3 + i) == 0]
        r += [(s, t + 1, (i + 1) % n) for s, t, i in r if i % 2 == k % 2 and (t + k) % 3]
        hc.append((r, (0.5, 1.0)[k % 2], (1, None)[k % 2], k, ('BIC', 'AIC')[k % 2], (0.05, 0.3, 0.3)[k % 3], k % 5 == 0))
    out.append(Space('structure search', hc, check_hc, chunk=2, note='the same tables and longer ones by rule; several initial structures'))
    pl = [(2, p) for p in ref.dags(2)] + [(3, p) for p in ref.dags(3)]
    out.append(Space('planted influence', [(n, p, s) for n, p in pl for s in range(6 if big else 2)], check_planted, chunk=1))
    out.append(Space('refusals and helpers', [0], check_refusals))
    return out
