"""C12: greedy equivalence search is exactly the two-phase greedy walk over equivalence classes."""
from functools import lru_cache
from itertools import combinations, combinations_with_replacement, permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close

PROPERTY = 'C12'
TITLE = 'Greedy equivalence search climbs exactly the space of Markov equivalence classes'
ASSUMPTIONS = ['score-equivalent decomposable scores (the fitted score and graph are only required to be consistent otherwise)',
               'when two moves tie to within 1e-9 either may be taken: the reference follows every tied move',
               'exact comparison with the walk uses a parent limit that does not bind']
EPS = 1e-9


@lru_cache(None)
def class_graph(n):
    """class key -> (representatives, classes one edge up, classes one edge down), straight from the definition."""
    table = ref.mec_table(n)
    up = {k: set() for k in table}
    for k, members in table.items():
        for par in members:
            for u in range(n):
                for v in range(n):
                    if u != v and not (par[v] >> u & 1 or par[u] >> v & 1):
                        q = list(par)
                        q[v] |= 1 << u
                        q = tuple(q)
                        if ref.acyclic(q):
                            up[k].add(ref.pattern_key(q))
    down = {k: set() for k in table}
    for k, s in up.items():
        for t in s:
            down[t].add(k)
    return table, up, down


class Around:
    """the same neighbourhoods computed when asked for, for graphs too large to list."""
    rep, near = {}, {}

    def __init__(self, step):
        self.step = step

    @classmethod
    def key(cls, par):
        k = ref.pattern_key(par)
        cls.rep.setdefault(k, par)
        return k

    def __getitem__(self, k):
        if (self.step, k) not in Around.near:
            out = {}
            n = len(Around.rep[k])
            for par in ref.class_members(Around.rep[k], 100000):
                for u in range(n):
                    for v in range(n):
                        if u == v or (par[v] >> u & 1) != (self.step < 0) or (self.step > 0 and par[u] >> v & 1):
                            continue
                        q = list(par)
                        q[v] ^= 1 << u
                        q = tuple(q)
                        if self.step < 0 or ref.acyclic(q):
                            out.setdefault(self.key(q))
            Around.near[self.step, k] = set(out)
        return Around.near[self.step, k]


def class_code(n, k):
    return ref.union_code(n, ref.mec_table(n)[k]) if n < 6 else (ref.essential(Around.rep[k]) or ref.union_code(n, ref.class_members(Around.rep[k], 100000)))


def score_of(f, par):
    return sum(f(v, par[v]) for v in range(len(par)))


def walk(n, f):
    """every class at which the two-phase greedy search may stop: {key: score}"""
    if n < 6:
        table, up, down = class_graph(n)
    else:
        table, up, down = None, Around(1), Around(-1)
    memo = {}

    def val(k):
        if k not in memo:
            memo[k] = score_of(f, table[k][0] if table else Around.rep[k])
        return memo[k]

    def climb(starts, nbrs):
        ends, seen, todo = set(), set(starts), list(starts)
        while todo:
            k = todo.pop()
            nb = nbrs[k]
            best = max((val(t) for t in nb), default=float('-inf'))
            tol = EPS * max(1.0, abs(val(k)))
            if best <= val(k) + tol:
                ends.add(k)
            if best > val(k) - tol:
                for t in nb:
                    # a tied move may look like a gain of rounding size; it cannot be repeated for ever
                    if val(t) >= best - tol and (val(t) > val(k) or best > val(k) - tol) and t not in seen:
                        seen.add(t)
                        todo.append(t)
        return ends

    empty = Around.key((0,) * n)
    ends = climb(climb({empty}, up), down)
    return {k: val(k) for k in ends}


def make_score(n, f):
    import numpy as np
    from cdmir.utils.local_score import BaseLocalScoreFunction

    class Oracle(BaseLocalScoreFunction):
        def __init__(self):
            self.data = np.zeros((2, n))
            self.calls = 0

        def __call__(self, i, parents):
            self.calls += 1
            m = 0
            for p in parents:
                m |= 1 << int(p)
            return f(int(i), m)

    try:
        return Oracle()
    except TypeError:
        import inspect
        missing = getattr(Oracle, '__abstractmethods__', ())
        for name in missing:
            setattr(Oracle, name, lambda self, i, parents: self(i, parents))
        Oracle.__abstractmethods__ = frozenset()
        return Oracle()


def read_result(ges, n):
    g = ges.get_causal_graph()
    names = ['x%d' % i for i in range(n)]
    return impl.read(g, names)


def show(n, key):
    return impl.show(n, class_code(n, key))


def compare(n, f, ges, rec, what):
    ends = walk(n, f)
    ges.fit()
    rec.step()
    code = read_result(ges, n)
    codes = {class_code(n, k): k for k in ends}
    if code not in codes:
        raise Violation(f'{what}: the search returned {impl.show(n, code)}, the greedy walk over classes ends at '
                        + ' or '.join(show(n, k) for k in list(ends)[:4]))
    k = codes[code]
    if not close(float(ges.get_score()), ends[k], 1e-7, 1e-7):
        raise Violation(f'{what}: reported score {ges.get_score()}, but the graph returned scores {ends[k]}')
    return k


# ------------------------------------------------------- all set-function scores
def set_score(n, m):
    def f(v, pa):
        return m[pa | 1 << v] - m[pa]
    return f


def sets_of(n):
    return [s for s in range(1 << n) if bin(s).count('1') >= 2]


def check_setfn(case, rec):
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    n, prefix, values, weights = case
    todo = sets_of(n)
    for rest in product(range(len(values)), repeat=len(todo) - len(prefix)):
        m = [0.0] * (1 << n)
        for k, (s, c) in enumerate(zip(todo, list(prefix) + list(rest))):
            m[s] = float(values[c] * (weights[k] if weights else 1))
        f = set_score(n, m)
        compare(n, f, GES(make_score(n, f), max_p=n), rec, f'score built from the set function {m}')
        rec.state()
        rec.trace()


def tempting(n, g, ki, mode):
    """a score-equivalent score under which the graph with edge set g builds up, and some family of nodes is so
    attractive that a move leading there is made as soon as the search believes it may."""
    pr = ref.pairs(n)
    todo = sets_of(n)
    big = [s for s in todo if bin(s).count('1') >= 3]
    w = {}
    for s in todo:
        z = bin(s).count('1')
        x = s * 13 % 17
        if z == 2:
            i = pr.index(tuple(ref.bits(s)))
            w[s] = 10 + (i * 7 + g) % 10 * 0.37 if g >> i & 1 else -1 - 0.1 * i
        else:
            w[s] = (-5 if z == 3 else -0.3) - 0.01 * x
    k = big[ki]
    w[k] = 100
    if mode and len(big) > 1:        # and another one is repulsive, so that some earlier move is taken back
        q = [q for q in big if q != k][(g * 7 + ki * 3) % (len(big) - 1)]
        w[q] += (-40, -90, -160, 30)[(g + ki) % 4]
    m = [0.0] * (1 << n)
    for s in range(1 << n):
        m[s] = sum(v for q, v in w.items() if q & s == q)
    return m


def check_tempting(case, rec):
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    n, group = case
    for g, ki, mode in group:
        m = tempting(n, g, ki, mode)
        f = set_score(n, m)
        compare(n, f, GES(make_score(n, f), max_p=n), rec, f'score built from the set function {m}')
        rec.state()
    rec.trace(len(group))


SHAPES = {  # cliques with further neighbours, so that a move needs several neighbours at once; and the set made attractive
    'K4, pendant, isolated': (6, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (3, 4)], (0, 1, 2, 3, 5)),
    'K4, two pairs, isolated': (7, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (0, 4), (1, 4), (2, 5), (3, 5)], (0, 1, 2, 3, 6)),
    'star of triangles': (6, [(0, 1), (0, 2), (1, 2), (0, 3), (0, 4), (3, 4)], (0, 1, 2, 5)),
    'K5 less an edge': (6, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4)], (0, 1, 2, 3, 5)),
    'K5': (5, [(a, b) for a, b in combinations(range(5), 2)], (0, 1, 2, 3)),
}


def clique_score(n, edges, want, order, fall):
    """edges pay, larger sets cost little; the wanted set pays much; with fall, a set inside the clique becomes costly only later."""
    w = {}
    for s in sets_of(n):
        z = bin(s).count('1')
        w[s] = -0.01 * (s * 13 % 17) - (0.4 if z == 3 else 0.1)
    for k, (a, b) in enumerate(edges):
        w[1 << order[a] | 1 << order[b]] = 10 + k * 7 % 10 * 0.37
    for a, b in combinations(range(n), 2):
        if (a, b) not in edges:
            w[1 << order[a] | 1 << order[b]] = -3 - 0.1 * a
    w[sum(1 << order[v] for v in want)] += -60 if fall else 100
    m = [0.0] * (1 << n)
    for s in range(1 << n):
        m[s] = sum(v for q, v in w.items() if q & s == q)
    return m


def check_cliques(case, rec):
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    name, order, fall = case
    n, edges, want = SHAPES[name]
    m = clique_score(n, edges, want, order, fall)
    f = set_score(n, m)
    compare(n, f, GES(make_score(n, f), max_p=n), rec, f'{name}, nodes {order}, {want} made {"costly" if fall else "attractive"}')
    rec.state()
    rec.trace()


def check_changing(case, rec):
    """one search object, fitted again after its score function has changed."""
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    n, jobs = case
    now = [None]

    def f(v, pa):
        return now[0](v, pa)
    ges = GES(make_score(n, f), max_p=n)
    for g, ki, mode in jobs:
        m = tempting(n, g, ki, mode)
        now[0] = set_score(n, m)
        compare(n, now[0], ges, rec, f'search object used before, score now built from the set function {m}')
        rec.state()
    rec.trace()


# --------------------------------------------------------------- real data
def binary_rows(n, counts):
    import numpy as np
    rows = []
    for k, c in enumerate(counts):
        rows += [[k >> j & 1 for j in range(n)]] * c
    return np.array(rows, dtype=int)


def check_binary(case, rec):
    """every multiset of binary rows, with the discrete score."""
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.utils.local_score import BDeuScore
    n, combos, prior = case
    for combo in combos:
        data = binary_rows(n, [combo.count(k) for k in range(1 << n)])
        fresh = {}

        def f(v, pa):
            if (v, pa) not in fresh:
                fresh[v, pa] = float(BDeuScore(data.copy(), sample_prior=prior)(v, ref.bits(pa)))
            return fresh[v, pa]

        keep = data.copy()
        ges = GES(BDeuScore(keep, sample_prior=prior), max_p=n)
        compare(n, f, ges, rec, f'binary data with row codes {combo}')
        if not (keep == data).all():
            raise Violation('the search changed the data')
        rec.state()
    rec.trace(len(combos))


def check_continuous(case, rec):
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.utils.local_score import BICScore
    import numpy as np
    from checks.c11_scores import continuous
    par, rows, kind, lam = case
    n = len(par)
    e = continuous(kind, rows, n)
    # decorrelate a little, then push through the linear model
    e = (e - e.mean(0)) / e.std(0)
    x = np.zeros_like(e)
    order = sorted(range(n), key=lambda v: bin(ref.ancestors(par, 1 << v)).count('1'))
    for v in order:
        x[:, v] = 0.6 * e[:, v]
        for u in ref.bits(par[v]):
            x[:, v] += (0.7 + 0.1 * ((u + 2 * v) % 4)) * (-1) ** (u + v + kind) * x[:, u]
    fresh = {}

    def f(v, pa):
        if (v, pa) not in fresh:
            fresh[v, pa] = float(BICScore(x.copy(), lambda_value=lam)(v, ref.bits(pa)))
        return fresh[v, pa]

    compare(n, f, GES(BICScore(x, lambda_value=lam), max_p=n), rec, f'linear data from {impl.show(n, ref.parents_to_code(par))}')
    ges = GES(BICScore(x, lambda_value=lam), max_p=n)
    ges.fit()
    a = read_result(ges, n), float(ges.get_score())
    ges.fit()
    b = read_result(ges, n), float(ges.get_score())
    if a != b:
        raise Violation(f'fitting twice gives {a} and then {b}')
    rec.state()
    rec.trace()


# ----------------------------------------------------- population correctness
def population_score(par, kind):
    """large-sample Gaussian score of a linear model on this DAG."""
    import numpy as np
    n = len(par)
    B = np.zeros((n, n))
    k = kind
    for u, v in ref.edges_of(par):
        k += 1
        B[v, u] = (0.5 + ((k * 37) % 41) / 50.0) * (-1) ** (k * k // 3)
    A = np.linalg.inv(np.eye(n) - B)
    S = A @ np.diag([1 + 0.13 * v for v in range(n)]) @ A.T
    N = 1e7

    def f(v, pa):
        p = ref.bits(pa)
        var = S[v, v]
        if p:
            var = var - S[v, p] @ np.linalg.solve(S[np.ix_(p, p)], S[p, v])
        return float(-N * np.log(var) - np.log(N) * len(p))

    # is the model faithful at this sample size?
    for v in range(n):
        for u in range(v):
            for z in ref.subsets([w for w in range(n) if w not in (u, v)]):
                zm = sum(1 << w for w in z)
                gain = f(v, zm | 1 << u) - f(v, zm)
                if (gain <= 0) != ref.dsep_moral(par, 1 << u, 1 << v, zm):
                    return None
    return f


def check_population(case, rec):
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    par, kind, limit = case
    par = tuple(par)
    n = len(par)
    for k in range(kind, kind + 30):
        f = population_score(par, k)
        if f is not None:
            break
    if f is None:
        return
    want = ref.cpdag(par) if n <= 5 else ref.essential(par)
    memo = {}

    def g(v, pa):
        if (v, pa) not in memo:
            memo[v, pa] = f(v, pa)
        return memo[v, pa]
    ges = GES(make_score(n, g), max_p=n) if limit else GES(make_score(n, g))
    ges.fit()
    rec.step()
    code = read_result(ges, n)
    if code != want:
        raise Violation(f'with a consistent score for {impl.show(n, ref.parents_to_code(par))} the search returned '
                        f'{impl.show(n, code)}, the essential graph is {impl.show(n, want)}')
    if not close(float(ges.get_score()), score_of(g, par), 1e-9, 1e-6):
        raise Violation(f'reported score {ges.get_score()}, the true model scores {score_of(g, par)}')
    rec.state()
    rec.trace()
    rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par))))


# --------------------------------------------------------- consistency at large
def check_interface(case, rec):
    """non-equivalent scores, multi-column variables, parent limits: a valid essential graph, twice the same."""
    import numpy as np
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from checks import c11_scores as c11
    kind = case[1]
    if case[0] == 'guard':
        for bad in (None, 3, lambda i, p: 0.0, 'bic'):
            try:
                GES(bad)
            except Exception:
                continue
            raise Violation(f'GES accepted {bad!r} as a score function')
        ges = GES(c11.build('bic', c11.continuous(1, 20, 3), 0))
        for get in (ges.get_causal_graph, ges.get_score):
            try:
                get()
            except Exception:
                continue
            raise Violation('a result is returned before fitting')
        rec.state()
        rec.trace()
        return
    name = case[0]
    data = c11.data_for(name, kind, 24)
    n = 4
    for max_p in (None, 0, 1, n):
        res = []
        for _ in range(2):
            ges = GES(c11.build(name, data.copy(), 0), max_p=max_p) if max_p is not None else GES(c11.build(name, data.copy(), 0))
            for again in range(2):
                ges.fit()
                rec.step()
                res.append((read_result(ges, n), float(ges.get_score())))
        for r in res[1:]:
            if r[0] != res[0][0] or not close(r[1], res[0][1], 1e-7, 1e-7):
                raise Violation(f'{name}, max_p={max_p}: repeated fits give {res}')
        code = res[0][0]
        ext = ref.extensions(n, code) if 9 not in code and 4 not in code else []
        if not ext or ref.union_code(n, ext) != code:
            raise Violation(f'{name}, max_p={max_p}: the result {impl.show(n, code)} is not an essential graph')
        if name.startswith('b'):
            s = c11.build(name, data.copy(), 0)
            want = c11.total(s, ext[0])
            if not close(res[0][1], want, 1e-7, 1e-7):
                raise Violation(f'{name}, max_p={max_p}: reported score {res[0][1]}, the graph scores {want}')
        rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.discovery.score_based.greedy_equivalence_search  # noqa
    thorough = tier == 'thorough'
    out = []
    # every score-equivalent score with small integer values
    cases = []
    vals3 = [-2, -1, 0, 1, 2, 3] if not thorough else [-4, -3, -2, -1, 0, 1, 2, 3, 4]
    for a in range(len(vals3)):
        cases.append([3, [a], vals3, None])
    out.append(Space('all set-function scores, 3 nodes', cases, check_setfn, chunk=1, limit=600,
                     note='every score with integer set-function values in the range, ties followed both ways'))
    cases = []
    primes = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
    rots = [seed % 11] if not thorough else range(11)
    for r in rots:
        w = [primes[(k * 4 + r) % 11] for k in range(11)]
        for pre in product((0, 1), repeat=6):
            cases.append([4, list(pre), [-1, 1], w])
    out.append(Space('sign-pattern set-function scores, 4 nodes', cases, check_setfn, chunk=1, limit=600,
                     note='every sign pattern of 11 distinct magnitudes', init=lambda: class_graph(4)))
    jobs = {n: [(g, ki, mode) for g in range(1 << n * (n - 1) // 2) for ki in range(len(sets_of(n)) - n * (n - 1) // 2) for mode in (0, 1)]
            for n in (3, 4, 5)}
    st = 1 if thorough else 29
    five = [j for k, j in enumerate(jobs[5]) if (k + seed) % st == 0]
    out.append(Space('tempting scores', [[n, jobs[n][lo:lo + 8]] for n in (3, 4) for lo in range(0, len(jobs[n]), 8)]
                     + [[5, five[lo:lo + 8]] for lo in range(0, len(five), 8)], check_tempting, chunk=2, limit=600,
                     init=lambda: class_graph(5), note='every graph on <= 5 nodes (5: strided) built up, every family of >= 3 nodes made attractive'))
    six = []
    for k, (_, par) in enumerate(ref.families(6)):
        par = ref.relabel(par, ref.shuffled(6, k + seed))
        g = sum(1 << i for i, c in enumerate(ref.parents_to_code(par)) if c)
        big = len(sets_of(6)) - 15
        six += [[6, [(g, ki, (ki + k) % 2)]] for ki in range((k + seed) % 7, big, 7 if not thorough else 1)]
    for k, (_, par) in enumerate(ref.families(7)):
        par = ref.relabel(par, ref.shuffled(7, k + seed))
        g = sum(1 << i for i, c in enumerate(ref.parents_to_code(par)) if c)
        six += [[7, [(g, ki, (ki + k) % 2)]] for ki in range((5 * k + seed) % 61, len(sets_of(7)) - 21, 61 if not thorough else 7)]
    out.append(Space('tempting scores, 6 and 7 nodes', six, check_tempting, chunk=1, limit=900, note='18 families of edge sets built up, families of >= 3 nodes made attractive'))
    cl = []
    for name, (n, _, _) in SHAPES.items():
        perms = [list(p) for p in permutations(range(n))]
        for i in range((60 if thorough else 12) if n < 7 else (24 if thorough else 3)):
            cl.append([name, perms[(i * 389 + seed * 17 + i) % len(perms)], i % 2])
    out.append(Space('cliques with further neighbours', cl, check_cliques, chunk=1, limit=900, note='moves that take three neighbours at once, several labellings'))
    chg = [[n, [jobs[n][(lo * 5 + i * 37) % len(jobs[n])] for i in range(4)]] for n in (3, 4) for lo in range(0, len(jobs[n]), 1 if thorough else 5)]
    out.append(Space('scores that change between fits', chg, check_changing, chunk=4, limit=600, init=lambda: class_graph(4)))
    # every binary data set
    cases = []
    for n, rows in ((2, 6 if not thorough else 10), (3, 5 if not thorough else 7)):
        combos = [list(c) for r in range(3, rows + 1) for c in combinations_with_replacement(range(1 << n), r)]
        for lo in range(0, len(combos), 40):
            cases.append([n, combos[lo:lo + 40], 1 if (lo // 40) % 2 else 4])
    out.append(Space('every small binary data set', cases, check_binary, chunk=1, limit=600,
                     note='every multiset of binary rows up to the bound'))
    cases = []
    for k, par in enumerate(ref.dags(4)):
        cases.append([list(par), 40, k % 5 + seed, 1])
        if thorough:
            cases.append([list(par), 25, k % 5 + seed + 3, 2])
    out.append(Space('linear data from every 4-node DAG', cases, check_continuous, limit=200, note='all 543 DAGs, Gaussian BIC'))
    cases = []
    for n in (2, 3, 4):
        for k, par in enumerate(ref.dags(n)):
            cases.append([list(par), 1 + k % 3 + seed, k % 2])
    for k, par in enumerate(ref.unlabelled_dags(5)):
        cases.append([list(par), k + seed, 1])
    if thorough:
        cases += [[list(p), k, 1] for k, p in enumerate(ref.dags(5)) if k % 3 == 0]
    out.append(Space('consistent scores', cases, check_population, limit=200,
                     note='every DAG with <= 4 nodes, every 5-node shape'))
    big = []
    for n in (6, 7) + ((8,) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            if ref.essential(par) is not None:
                big.append([ref.relabel(par, ref.shuffled(n, k + seed)), k + seed, 1])
    out.append(Space('consistent scores, structures of 6 and 7 nodes', big, check_population, limit=600, chunk=1,
                     note='18 families of DAGs'))
    names = ['bic', 'bdeu', 'cv', 'mcvd']
    cases = [['guard', 0]] + [[nm, k + seed] for nm in names for k in range(2 if not thorough else 8)]
    out.append(Space('interface', cases, check_interface, chunk=1, limit=400, note='several scores x parent limits x refits'))
    return out
