"""C25: from data to graph: discovery with real tests and scores, and every step that consumes the learned graph."""
from itertools import combinations, permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close

PROPERTY = 'C25'
TITLE = 'Discovery from data recovers the model class, however the data are presented'
ASSUMPTIONS = ['data are built to have exactly the covariance of a linear model that is faithful at the sample size used '
               '(every dependence clearly significant, every independence exact)',
               'with real tests on arbitrary data PC is compared with what a fresh test object answers; orientations are fixed only '
               'where the colliders do not contradict each other']
WEIGHTS = (.8, -.6, .9, -.7, .5, 1.1, -.5, .65, -.9, .75)


def weights(par, shift):
    import numpy as np
    n = len(par)
    B = np.zeros((n, n))
    for q, (u, v) in enumerate(ref.edges_of(par)):
        B[v, u] = WEIGHTS[(q * 3 + shift) % 10]
    return B


def covariance(par, shift):
    import numpy as np
    n = len(par)
    A = np.linalg.inv(np.eye(n) - weights(par, shift))
    return A @ np.diag([1 + .2 * ((v + shift) % 4) for v in range(n)]) @ A.T


def partial(S, x, y, z):
    import numpy as np
    i = [x, y, *z]
    P = np.linalg.inv(S[np.ix_(i, i)])
    return -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])


def faithful(par, alpha, N):
    """(covariance, sample size) such that tests at alpha and BIC decide as d-separation does; None if no weights do."""
    import numpy as np
    from scipy.stats import norm
    n = len(par)
    for shift in range(20):
        S = covariance(par, shift)
        n_need, ok = N, True
        for x, y in combinations(range(n), 2):
            for z in ref.subsets([v for v in range(n) if v not in (x, y)]):
                r = abs(partial(S, x, y, z))
                if ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z)):
                    ok = ok and r < 1e-9
                    continue
                ok = ok and r > .01
                while ok and n_need <= 1 << 18 and (2 * norm.sf(np.sqrt(n_need - len(z) - 3) * abs(np.arctanh(r))) > alpha / 100
                                                    or -n_need * np.log(1 - r * r) < 3 * np.log(n_need)):
                    n_need *= 2
        if ok and n_need <= 1 << 16:
            return S, n_need
    return None


def cosine(S, N):
    import numpy as np
    p = len(S)
    t = np.arange(1, N + 1)
    Z = np.array([np.cos(np.pi * (t - .5) * k / N) for k in range(1, p + 1)]).T
    Z *= np.sqrt((N - 1) / (Z ** 2).sum(0))
    return Z @ np.linalg.cholesky(S).T


def essential(par):
    n = len(par)
    return ref.cpdag_table(n)[par] if n <= 4 else ref.essential(par)


def present(X, names, order, scale, rows, form):
    """the same data in another order of columns and rows, other units, another container."""
    import numpy as np
    import pandas as pd
    n = X.shape[1]
    Y = X.copy()
    if scale:
        Y = Y * np.array([(-2.5, 1e3, 1e-4, -1., 37.)[(v + scale) % 5] for v in range(n)]) + np.array([(0., 5., -1000.)[(v + scale) % 3] for v in range(n)])
    if rows == 1:
        Y = Y[::-1]
    elif rows == 2:
        Y = np.vstack([Y[1::2], Y[::2]])
    Y = Y[:, order]
    listed = [names[v] for v in order]
    if form == 0:
        return (np.ascontiguousarray(Y), listed)
    if form == 1:
        return (np.asfortranarray(Y), tuple(listed))
    if form == 2:
        return (pd.DataFrame(Y, columns=listed), None)
    return (pd.DataFrame(Y, columns=['col%d' % v for v in range(n)], index=range(7, 7 + len(Y))), listed)


def check_model(case, rec):
    import numpy as np
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.graph.pdag2dag import pdag2dag
    from cdmir.graph import PDAG
    from cdmir.utils.independence import FisherZ
    from cdmir.utils.local_score import BICScore
    from cdmir.utils.metrics import graph_equal, shd, skeleton_evaluation, arrow_evaluation
    par, variants = case
    par = tuple(par)
    n = len(par)
    want = essential(par)
    for style, order, alpha, scale, rows, form, fast in variants:
        f = faithful(par, alpha, 1000)
        if f is None:
            continue
        S, N = f
        X = cosine(S, N)
        names = impl.names_for(n, style)
        what = f'data of {impl.show(n, ref.parents_to_code(par), names)}, covariance {np.round(S, 4).tolist()}, {N} rows, columns {[names[v] for v in order]}'
        data, listed = present(X, names, order, scale, rows, form)
        keep = data.copy()
        pc = PC(alpha=alpha, adjacency_search_method=fast_adjacency_search if fast else adjacency_search)
        pc.fit(data, listed, FisherZ)
        rec.step()
        got = impl.read(pc.causal_graph, names)
        if got != want:
            raise Violation(f'{what}: PC with partial correlations at {alpha} learned {impl.show(n, got, names)}; the essential graph is '
                            f'{impl.show(n, want, names)}')
        if not (np.asarray(data) == np.asarray(keep)).all():
            raise Violation(f'{what}: PC changed the data')
        # the learned graph is used further
        truth = dag2cpdag(impl.build_dag(par, names, order))
        ext = pdag2dag(pc.causal_graph)
        rec.step(3)
        if impl.read(pc.causal_graph, names) != want:
            raise Violation(f'{what}: extending the learned graph changed it')
        if not graph_equal(truth, pc.causal_graph) or shd(truth, pc.causal_graph) != 0:
            raise Violation(f'{what}: the learned graph is not equal to the converted true graph')
        if any(want):
            s = skeleton_evaluation(truth, pc.causal_graph)
            if any(s[k] != 1 for k in s):
                raise Violation(f'{what}: skeleton of the learned graph against the true one {s}')
            if any(c in (1, 2) for c in want):
                s = arrow_evaluation(truth, pc.causal_graph)
                if any(s[k] != 1 for k in s):
                    raise Violation(f'{what}: arrows of the learned graph against the true ones {s}')
        e = ref.code_to_parents(n, impl.read(ext, names))
        if ref.pattern_key(e) != ref.pattern_key(par):
            raise Violation(f'{what}: the learned graph extends to {impl.show(n, impl.read(ext, names), names)}, another class')
        if impl.read(dag2cpdag(ext), names) != want:
            raise Violation(f'{what}: the extension of the learned graph converts back to another graph')
        # a score for the same data
        arr = np.asarray(data)
        bic = BICScore(np.ascontiguousarray(arr))
        ges = GES(bic, max_p=n)
        ges.fit()
        rec.step()
        g2 = ges.get_causal_graph()
        cols = list(g2.nodes)
        back = [cols[order.index(v)] for v in range(n)]
        code = impl.read(g2, back)
        if code != want:
            raise Violation(f'{what}: GES with BIC learned {impl.show(n, code, names)}; the essential graph (and PC) gives {impl.show(n, want, names)}')
        place = {v: order.index(v) for v in range(n)}
        tot = [sum(float(bic(place[v], [place[u] for u in ref.bits(p[v])])) for v in range(n)) for p in (par, e)]
        if not close(tot[0], tot[1], 1e-9, 1e-6) or not close(float(ges.get_score()), tot[0], 1e-9, 1e-6):
            raise Violation(f'{what}: BIC of the true graph, of the extension of the learned graph and reported by GES: {tot}, {ges.get_score()}')
        rec.state()
        rec.trace()
    if n > 3:
        rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par)), variants=len(variants)))


# ------------------------------------------------------- whatever the tests say
def expected(n, adj, sep, names):
    """colliders the separating sets ask for -> (arrows, consistent?)."""
    into = set()
    for i, j in combinations(range(n), 2):
        if adj[i][j]:
            continue
        for w in range(n):
            if w not in (i, j) and adj[i][w] and adj[w][j] and names[w] not in sep[(names[i], names[j])]:
                into |= {(i, w), (j, w)}
    return into, not any((b, a) in into for a, b in into)


def check_answers(n, names, fit, ask, alpha, what, rec, both=False):
    """fit() runs PC; ask(x, y, z) is the p-value of a fresh test."""
    pc = fit()
    rec.step()
    got = impl.read(pc.causal_graph, names)
    skel = impl.read(pc.skeleton, names)
    if any(c not in (0, 3) for c in skel) or any(c not in (0, 1, 2, 3) for c in got) or any(bool(a) != bool(b) for a, b in zip(skel, got)):
        raise Violation(f'{what}: skeleton {impl.show(n, skel, names)}, graph {impl.show(n, got, names)}')
    adj = [[False] * n for _ in range(n)]
    for (i, j), c in zip(ref.pairs(n), skel):
        adj[i][j] = adj[j][i] = bool(c)
    p = {}

    def pval(x, y, z):
        k = (min(x, y), max(x, y), tuple(sorted(z)))
        if k not in p:
            given = [names[v] for v in k[2]]
            p[k] = float(ask(names[k[0]], names[k[1]], given))
            if both and (float(ask(names[k[1]], names[k[0]], given)) >= alpha) != (p[k] >= alpha):
                p[k] = alpha   # the caller's test is not symmetric here: no claim
        return p[k]
    # replay of the level-wise search on the answers
    A = [[i != j for j in range(n)] for i in range(n)]
    sep = {}
    unsure = False
    for size in range(n - 1):
        gone = set()
        for x, y in permutations(range(n), 2):
            if not A[x][y]:
                continue
            for z in combinations([w for w in range(n) if A[x][w] and w != y], size):
                v = pval(x, y, z)
                if abs(v - alpha) < 1e-9 or v != v:
                    unsure = True
                if v >= alpha:
                    gone.add(frozenset((x, y)))
                    sep.setdefault(frozenset((x, y)), set()).update(z)
        for e in gone:
            x, y = e
            A[x][y] = A[y][x] = False
    if unsure:
        return
    txt = '; '.join(f'p({names[a]},{names[b]}|{[names[v] for v in z]})={v:.4g}' for (a, b, z), v in p.items())
    if A != adj:
        raise Violation(f'{what}: the skeleton is {impl.show(n, skel, names)} although {txt}')
    for x, y in combinations(range(n), 2):
        if not adj[x][y]:
            for a, b in ((x, y), (y, x)):
                if set(pc.sep_set[(names[a], names[b])]) != {names[v] for v in sep[frozenset((x, y))]}:
                    raise Violation(f'{what}: separating set of {names[a]}, {names[b]} is {pc.sep_set[(names[a], names[b])]} although {txt}')
    into, fine = expected(n, adj, pc.sep_set, names)
    if fine:
        pat = [0] * len(skel)
        for k, (i, j) in enumerate(ref.pairs(n)):
            pat[k] = 1 if (i, j) in into else 2 if (j, i) in into else skel[k]
        ext = ref.extensions(n, tuple(pat))
        if ext:
            want = ref.union_code(n, ext)
            if got != want:
                raise Violation(f'{what}: learned {impl.show(n, got, names)}; the separating sets ask for {impl.show(n, want, names)} ({txt})')
            rec.trace()
        else:
            for k, (i, j) in enumerate(ref.pairs(n)):
                if pat[k] in (1, 2) and got[k] != pat[k]:
                    raise Violation(f'{what}: learned {impl.show(n, got, names)}; the colliders are {impl.show(n, tuple(pat), names)} ({txt})')
    rec.state()


COLS = [(0, 0, 1, 1, 2, 2), (0, 1, 0, 1, 0, 1), (0, 1, 2, 2, 1, 0), (1, 0, 0, 2, 0, 0), (2, 1, 0, 0, 1, 1), (0, 0, 0, 1, 2, 0), (1, 2, 1, 0, 2, 1),
        (0, 2, 1, 1, 0, 2), (2, 0, 2, 0, 1, 1), (1, 1, 0, 2, 2, 0), (0, 1, 1, 2, 1, 2), (2, 2, 1, 0, 0, 2), (0, 0, 1, 2, 1, 0), (1, 0, 2, 1, 2, 0)]


def check_fisher(case, rec):
    import numpy as np
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    from cdmir.utils.independence import FisherZ
    first, n, step, seed = case
    rest = list(combinations([c for c in range(len(COLS)) if c != first], n - 1))[first % step::step]
    for q, cols in enumerate(rest):
        cols = (first,) + cols
        X = np.array([COLS[c] for c in cols], dtype=float).T
        if n > 3:
            X = np.vstack([X, X[::-1, ::-1] * 2 + np.arange(6)[:, None] % 2])
        C = np.corrcoef(X, rowvar=False)
        if np.linalg.eigvalsh(C)[0] < 1e-6:
            continue
        alpha = (.05, .3, .6, .9, .15)[(q + first) % 5]
        names = impl.names_for(n, (q + seed) % 6)
        form = q % 4
        data, listed = present(X, names, list(range(n)), 0, 0, form)
        fast = False
        what = f'PC(alpha={alpha}) on columns {X.T.tolist()} named {names}'

        def fit():
            pc = PC(alpha=alpha, adjacency_search_method=adjacency_search)
            pc.fit(data, listed, FisherZ)
            return pc
        check_answers(n, names, fit, lambda x, y, z: FisherZ(X.copy(), list(names)).test(x, y, z)[0], alpha, what, rec)
        # the faster search decides on the same tests
        pc = PC(alpha=alpha, adjacency_search_method=fast_adjacency_search)
        pc.fit(X.copy(), list(names), FisherZ)
        code = impl.read(pc.causal_graph, names)
        t = FisherZ(X.copy(), list(names))
        for (i, j), c in zip(ref.pairs(n), code):
            if not c:
                ps = [t.test(names[i], names[j], [names[v] for v in z])[0] for z in ref.subsets([v for v in range(n) if v not in (i, j)])]
                if max(ps) < alpha:
                    raise Violation(f'{what}, fast search: {names[i]} and {names[j]} are separated although every test between them is below alpha: {ps}')
            elif t.test(names[i], names[j], [])[0] >= alpha + 1e-9:
                raise Violation(f'{what}, fast search: {names[i]} and {names[j]} stay connected although they are independent')


def adapter():
    """a caller's test class: the kernel test behind the interface PC asks for."""
    from cdmir.utils.independence import KCI
    from cdmir.utils.independence.basic_independence import ConditionalIndependentTest
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    made = dict(gauss=GaussianKernel, linear=LinearKernel, poly=PolynomialKernel)

    class Kernel(ConditionalIndependentTest):
        def __init__(self, data, var_names=None, kx='gauss', ky='gauss', mode=True):
            super().__init__(data, var_names=var_names)
            self.kci = KCI(self._data, kernel_x=made[kx](), kernel_y=made[ky](), approximate_mode=mode)

        def cal_stats(self, x, y, z=None):
            p, stat = self.kci([x], [y], list(z)) if z else self.kci([x], [y])
            return float(p), stat
    return Kernel


def check_kernel(case, rec):
    """PC with the kernel test through a caller's class: the options reach the test, and PC does what the test answers."""
    import numpy as np
    from cdmir.discovery.constraint import PC
    graph, kind, alpha, args, kwargs, seed = case
    par = tuple(graph)
    n = len(par)
    m = 24
    t = np.arange(1, m + 1)
    E = np.array([np.cos(np.pi * (t - .5) * (2 * k + 3) / m) + .3 * np.sin(t * (k + 2)) for k in range(n)]).T
    X = np.zeros((m, n))
    for v in range(n):
        X[:, v] = E[:, v] + sum((np.tanh(2 * X[:, u]) if kind else .9 * X[:, u]) for u in ref.bits(par[v]))
    names = impl.names_for(n, seed % 6)
    what = f'PC(alpha={alpha}) with kernel test {tuple(args)}{kwargs} on {m} rows of {impl.show(n, ref.parents_to_code(par))}, kind {kind}'
    T = adapter()

    def fit():
        pc = PC(alpha=alpha)
        np.random.seed(5)
        pc.fit(X.copy(), list(names), T, *args, **kwargs)
        return pc

    def ask(x, y, z):
        np.random.seed(5)
        return T(X.copy(), list(names), *args, **kwargs).test(x, y, z if z else None)[0]
    check_answers(n, names, fit, ask, alpha, what, rec, both=True)


# ------------------------------------------- methods agree on the same data
def check_agree(case, rec):
    """non-Gaussian linear data: PC, GES and ICA-LiNGAM describe the same model."""
    import numpy as np
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.utils.independence import FisherZ
    from cdmir.utils.local_score import BICScore
    from checks import c20_ica_lingam as c20
    par, level, shift, reps = case
    par = tuple(par)
    n = len(par)
    B, X = c20.model(n, par, level, shift)
    X = np.vstack([X] * reps)
    S = np.cov(X, rowvar=False)
    N = len(X)
    alpha = .01
    from scipy.stats import norm
    for x, y in combinations(range(n), 2):
        for z in ref.subsets([v for v in range(n) if v not in (x, y)]):
            r = abs(partial(S, x, y, z))
            if ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z)):
                if r > 1e-9:
                    raise Violation(f'design of {par} is not exact')
            elif 2 * norm.sf(np.sqrt(N - len(z) - 3) * np.arctanh(r)) > alpha / 10 or -N * np.log(1 - r * r) < 2 * np.log(N):
                return
    want = essential(par)
    pc = PC(alpha=alpha)
    names = ['x%d' % v for v in range(n)]
    pc.fit(X.copy(), names, FisherZ)
    ges = GES(BICScore(X.copy()), max_p=n)
    ges.fit()
    for seed in range(6):
        m = c20.fit(X.copy(), 1.0, seed)
        A = m.get_adjacency_matrix() if hasattr(m, 'get_adjacency_matrix') else None
        C, G = c20.check_result(m, X, 1.0, 'ICA-LiNGAM')
        if close(np.asarray(C), B, 1e-6, 1e-6):
            break
    else:
        raise Violation(f'ICA-LiNGAM on noise {level}, weights {B.tolist()}, {reps} copies: coefficients {np.round(C, 4).tolist()}')
    lin = tuple(sum(1 << u for u in range(n) if abs(C[v][u]) > 1e-6) for v in range(n))
    conv = impl.read(dag2cpdag(impl.build_dag(lin, names)), names)
    rec.step(3)
    a, b = impl.read(pc.causal_graph, names), impl.read(ges.get_causal_graph(), list(ges.get_causal_graph().nodes))
    for who, code in (('PC', a), ('GES', b), ('ICA-LiNGAM, converted', conv)):
        if code != want:
            raise Violation(f'noise {level}, weights {B.tolist()}, {reps} copies: {who} gives {impl.show(n, code)}, expected {impl.show(n, want)}')
    rec.state()
    rec.trace()


def init():
    import cdmir.discovery.constraint  # noqa
    import cdmir.discovery.score_based.greedy_equivalence_search  # noqa
    import cdmir.utils.local_score  # noqa
    import cdmir.utils.metrics  # noqa
    from checks import c20_ica_lingam
    c20_ica_lingam.module()


def spaces(tier, seed):
    th = tier != 'quick'
    out = []
    cases = []
    for n in (2, 3, 4):
        perms = list(permutations(range(n)))
        for k, par in enumerate(ref.dags(n)):
            vs = [[(k + j + seed) % 6, list(perms[(k * 7 + j * 5 + seed) % len(perms)]), (.01, .05, .001, .2)[(k + j) % 4], (k + j) % 6, (k + j) % 3, (k + 3 * j) % 4, (k + j) % 2]
                  for j in range((len(perms) if th else 6) if n < 4 else 6 if th else 1)]
            cases.append([list(par), vs])
    perms = list(permutations(range(5)))
    for k, par in enumerate(ref.topo_dags(5) if th else ref.unlabelled_dags(5)):
        q = ref.relabel(par, perms[(k * 37 + seed * 13) % 120])
        cases.append([list(q), [[(k + seed) % 6, list(perms[(k * 17 + seed) % 120]), (.01, .05, .001)[k % 3], k % 6, k % 3, k % 4, k % 2]]])
    out.append(Space('exact covariances', cases, check_model, limit=300, chunk=8, init=init,
                     note='every DAG <= 4 nodes, every isomorphism class (thorough: shape) of 5; orders, units, containers; PC, GES and what uses their result'))
    big = []
    for n in (6, 7):
        for k, (_, par) in enumerate(ref.families(n)):
            if ref.essential(par) is not None:
                big.append([list(ref.relabel(par, ref.shuffled(n, k + seed))),
                            [[(k + seed) % 6, ref.shuffled(n, 2 * k + seed), (.01, .05, .001)[k % 3], k % 6, k % 3, k % 4, k % 2]]])
    out.append(Space('exact covariances, 6 and 7 variables', big, check_model, limit=300, chunk=1, init=init, note='18 families of DAGs'))
    fz = [[f, 3, 1 if th else 2, seed] for f in range(len(COLS))] + [[f, 4, 1 if th else 4, seed] for f in range(len(COLS))]
    out.append(Space('partial correlations of any data', fz, check_fisher, limit=600, chunk=1, note='3 and 4 columns out of 14 small-integer columns'))
    kc = []
    opts = [([], {}), (['linear'], {}), ([], dict(kx='poly', ky='linear')), (['gauss', 'linear'], dict(mode=True)), (['linear', 'linear'], {})]
    for k, (g, kind) in enumerate(product(ref.unlabelled_dags(3) if not th else ref.dags(3), (0, 1))):
        for j, (a, kw) in enumerate(opts):
            if th or (k + j) % 2 == 0:
                kc.append([list(g), kind, (.05, .3, .6)[(k + j) % 3], a, kw, k])
    out.append(Space('kernel test', kc, check_kernel, limit=600, chunk=1, note='3 variables, five option sets'))
    ag = []
    for n, level, reps in ((2, 'grid5', 8), (2, 'grid7', 4), (3, 'grid5', 4), (3, 'four', 8)):
        for par in ref.dags(n):
            for shift in range(6 if th else 2):
                ag.append([list(par), level, shift, reps])
    out.append(Space('methods agree', ag, check_agree, limit=300, chunk=2, note='factorial designs of every DAG <= 3 nodes'))
    return out
