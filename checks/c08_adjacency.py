"""C08: the adjacency search under every possible (also wrong) independence oracle."""
from itertools import combinations, permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C08'
TITLE = 'The adjacency search removes exactly the edges its tests told it to, for any test answers'
ASSUMPTIONS = ['all answer tables on 3 variables; on 4 variables all tables within a bounded number of deviations from '
               'all-dependent, all-independent and every d-separation table; answers are symmetric in x and y',
               'order independence is claimed for the level-wise search only, as documented for it']


def queries(n):
    out = []
    for x, y in combinations(range(n), 2):
        for z in ref.subsets([v for v in range(n) if v not in (x, y)]):
            out.append((x, y, z))
    return out


QS = {n: queries(n) for n in range(2, 8)}
QI = {n: {q: i for i, q in enumerate(QS[n])} for n in QS}
_CLS = []


def oracle_cls():
    """an independence test answered from a table (public extension point)."""
    if _CLS:
        return _CLS[0]
    import numpy as np
    from cdmir.utils.independence import ConditionalIndependentTest

    class Table(ConditionalIndependentTest):
        def __init__(self, data, var_names=None, table=0, alpha=0.05, place=None, log=None):
            super().__init__(data, var_names=var_names)
            self.table, self.alpha, self.place, self.log = table, alpha, place, log
            self.hi = [alpha, 1.0, float(np.nextafter(alpha, 1)), 0.5 * (1 + alpha)]
            self.lo = [0.0, float(np.nextafter(alpha, 0)), alpha / 2]

        def cal_stats(self, x_id, y_id, z_ids=None):
            n = len(self.var_names)
            x, y = self.place[x_id], self.place[y_id]
            z = tuple(sorted(self.place[i] for i in (z_ids or ())))
            if x == y or x in z or y in z or len(set(z)) != len(z):
                raise AssertionError(f'asked about {x}, {y} given {z}')
            q = QI[n][(min(x, y), max(x, y), z)]
            ind = bool(self.table >> q & 1)
            self.log.append((min(x, y), max(x, y), z, ind))
            p = self.hi[q % 4] if ind else self.lo[q % 3]
            return p, 0.0

    _CLS.append(Table)
    return Table


def run(n, table, fast, order, alpha, through_pc):
    import numpy as np
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    T = oracle_cls()
    log = []
    method = fast_adjacency_search if fast else adjacency_search
    names = ['v%d' % v for v in order]
    if through_pc:
        if table % 2:
            pc = PC(alpha=alpha, adjacency_search_method=method, verbose=bool(table // 2 % 2))
        else:                                  # the level is set afterwards
            pc = PC(.9, adjacency_search_method=method)
            pc.set_alpha(alpha)
        if pc.get_alpha() != alpha:
            raise Violation(f'the significance level {alpha} reads back as {pc.get_alpha()}')
        pc.fit(np.zeros((2, n)), names, T, table=table, alpha=alpha, place=order, log=log)
        return pc.skeleton, pc.sep_set, log, pc.causal_graph
    t = T(np.zeros((2, n)), names, table=table, alpha=alpha, place=order, log=log)
    if table % 3 == 1:
        g, sep = method(t, names, alpha, True)
    else:
        g, sep = method(t, names) if alpha == 0.05 and table % 2 else method(t, names, alpha)
    return g, sep, log, None


def judge(n, table, fast, order, alpha, through_pc, rec):
    g, sep, log, cg = run(n, table, fast, order, alpha, through_pc)
    rec.step(len(log))
    names = ['v%d' % v for v in range(n)]
    got = impl.read(g, names)
    yes = [f'({x},{y}|{",".join(map(str, z))})' for i, (x, y, z) in enumerate(QS[n]) if table >> i & 1]
    where = f'{"fast " if fast else ""}search on {n} variables in order {list(order)}, alpha={alpha}, independent answers {yes}'
    accepted = {}
    for x, y, z, ind in log:
        if ind:
            accepted.setdefault((x, y), set()).update(z)
    adj = {v: set() for v in range(n)}
    for (x, y), c in zip(ref.pairs(n), got):
        if c not in (0, 3):
            raise Violation(f'{where}: the skeleton has a non-undirected edge {x}, {y}')
        if c:
            adj[x].add(y)
            adj[y].add(x)
        if c and (x, y) in accepted:
            raise Violation(f'{where}: the edge {x}-{y} is kept although a test on it accepted independence')
        if not c and (x, y) not in accepted:
            raise Violation(f'{where}: the edge {x}-{y} is removed although no test on it accepted independence')
        want = {'v%d' % v for v in accepted.get((x, y), set())}
        for a, b in ((x, y), (y, x)):
            s = set(sep[('v%d' % a, 'v%d' % b)])
            if s != want:
                raise Violation(f'{where}: the separating set of ({a}, {b}) is {s}, the accepting tests used {want}')
    # completeness: what is kept is dependent given every set of remaining neighbours
    for (x, y), c in zip(ref.pairs(n), got):
        if c:
            for u, v in ((x, y), (y, x)):
                for z in ref.subsets(sorted(adj[u] - {v})):
                    q = QI[n][(x, y, tuple(z))]
                    if table >> q & 1:
                        raise Violation(f'{where}: the edge {x}-{y} is kept although they are independent given {z}, '
                                        f'all neighbours of {u}')
    sizes = [len(z) for _, _, z, _ in log]
    if sizes != sorted(sizes):
        raise Violation(f'{where}: conditioning sets are not tried by increasing size')
    if cg is not None:
        c2 = impl.read(cg, names)
        if tuple(bool(c) for c in c2) != tuple(bool(c) for c in got) or any(c not in (0, 1, 2, 3) for c in c2):
            raise Violation(f'{where}: orienting changed the skeleton: {impl.show(n, c2)}')
    rec.trace()
    return got, {k: frozenset(v) for k, v in sep.items()}


def check(case, rec):
    n, tables, seed = case
    perms = list(permutations(range(n))) if n < 5 else [ref.shuffled(n, k) for k in range(24)]
    for table in tables:
        alpha = [0.05, 0.01, 0.5][table % 3]
        h = (table * 2654435761 >> 7) + seed
        base = None
        many = perms if n == 3 else [perms[0], perms[h % 24]]
        for order in many:
            r = judge(n, table, False, order, alpha, (h + order[0]) % 2, rec)
            if base is None:
                base = r
            elif r != base:
                raise Violation(f'level-wise search on {n} variables: another order of the variables ({list(order)}) gives '
                                f'{impl.show(n, r[0])} {r[1]} instead of {impl.show(n, base[0])} {base[1]} (table {table})')
        for order in (perms if n == 3 else [perms[(h if n < 5 else h // 24) % 24]]):
            judge(n, table, True, order, alpha, (h + order[0]) % 2, rec)
        rec.state()
    rec.sample(dict(variables=n, tables=len(tables), first=tables[0]))


def dsep_table(par):
    n = len(par)
    t = 0
    for i, (x, y, z) in enumerate(QS[n]):
        if ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z)):
            t |= 1 << i
    return t


def flips(base, m, k):
    out = []
    for r in range(k + 1):
        for c in combinations(range(m), r):
            t = base
            for i in c:
                t ^= 1 << i
            out.append(t)
    return out


def spaces(tier, seed):
    import cdmir.discovery.constraint  # noqa
    import cdmir.utils.independence  # noqa
    thorough = tier == 'thorough'
    t3 = list(range(1 << 6))
    t4 = set()
    t4.update(flips(0, 24, 5 if thorough else 4))
    t4.update(flips((1 << 24) - 1, 24, 4 if thorough else 2))
    for par in (ref.dags(4) if thorough else ref.unlabelled_dags(4)):
        t4.update(flips(dsep_table(par), 24, 2))
    # keep level 0 fully dependent, enumerate all of level 1 on it
    lvl1 = [i for i, q in enumerate(QS[4]) if len(q[2]) == 1]
    lvl2 = [i for i, q in enumerate(QS[4]) if len(q[2]) == 2]
    for m in range(1 << 12):
        t = 0
        for b, i in enumerate(lvl1):
            if m >> b & 1:
                t |= 1 << i
        t4.add(t)
        t4.add(t | sum(1 << i for i in lvl2))
    t4 = sorted(t4)
    k = 40
    c4 = [[4, t4[i:i + k], seed] for i in range(0, len(t4), k)]
    big = []
    for n in (5, 6, 7):
        m = len(QS[n])
        st = {5: 1, 6: 5, 7: 23}[n] if not thorough else {5: 1, 6: 1, 7: 3}[n]
        base = [0, (1 << m) - 1] + [dsep_table(ref.relabel(p, ref.shuffled(n, k + seed))) for k, (_, p) in enumerate(ref.families(n))]
        ts = []
        for k, b in enumerate(base):
            ts.append(b)
            ts += [b ^ 1 << i for i in range((k + seed) % st, m, st)]                      # one answer wrong
            ts += [b ^ 1 << i ^ 1 << (i * 7 + k) % m ^ 1 << (i * 11 + 5) % m for i in range(0, m, 3 * st)]   # up to three
            for s in range(n - 1):                                                      # all answers of one level wrong
                ts.append(b ^ sum(1 << i for i, q in enumerate(QS[n]) if len(q[2]) == s))
                ts.append(b ^ sum(1 << i for i, q in enumerate(QS[n]) if len(q[2]) == s and (sum(q[2]) + q[0]) % 2))
        step = 20 if n < 7 else 8
        big += [[n, ts[i:i + step], seed] for i in range(0, len(ts), step)]
    return [Space('5 to 7 variables', big, check, limit=200, chunk=1, note='d-separation tables of 18 families with one, up to three or a level of answers wrong'),
            Space('3 variables', [[3, [t], seed] for t in t3], check, limit=30,
                  note='every answer table, every variable order, both searches, alone and through PC'),
            Space('4 variables', c4, check, limit=120, chunk=4,
                  note='answer tables near all-dependent / all-independent / d-separation, and every level-1 table')]
