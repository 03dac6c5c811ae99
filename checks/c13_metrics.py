"""C13: graph comparison metrics are the textbook counts, for every pair of graphs."""
from itertools import combinations, permutations, product

from mc import impl, ref
from mc.core import Space, Violation, close

PROPERTY = 'C13'
TITLE = 'Graph comparison metrics are exact counts for every pair of graphs'
ASSUMPTIONS = ['0/0 counts as 0', 'graphs with at least two nodes, listed in the same order']


def prf(pairs):
    tp = sum(1 for t, e in pairs if t and e)
    fp = sum(1 for t, e in pairs if e and not t)
    fn = sum(1 for t, e in pairs if t and not e)
    d = lambda a, b: a / b if b else 0.0
    return dict(precision=d(tp, tp + fp), recall=d(tp, tp + fn), f1=d(2 * tp, 2 * tp + fp + fn))


def truth(n, a, b):
    sk = prf([(bool(x), bool(y)) for x, y in zip(a, b)])
    # ordered pairs: arrow head at the second node
    head = lambda c: (c in (1, 4), c in (2, 4))          # at j, at i
    ar = prf([(p, q) for x, y in zip(a, b) for p, q in zip(head(x), head(y))])
    full = lambda c: (c == 1, c == 2)
    di = prf([(p, q) for x, y in zip(a, b) for p, q in zip(full(x), full(y))])
    return sk, ar, di, sum(1 for x, y in zip(a, b) if x != y)


def same(got, want):
    return set(got) == set(want) and all(close(float(got[k]), want[k], 1e-12, 1e-12) for k in want)


def check_pairs(case, rec):
    from cdmir.graph import DiGraph, Graph, PDAG
    from cdmir.utils import metrics as M
    kind, n, style, a, others = case
    cls = dict(PDAG=PDAG, DiGraph=DiGraph, Graph=Graph)[kind]
    names = impl.names_for(n, style)
    m = len(ref.pairs(n))
    g1 = impl.build(cls, n, a, names)
    for k, b in enumerate(others):
        order = list(range(m))
        order = order[k % m:] + order[:k % m]
        g2 = impl.build(cls, n, b, names, edge_order=order, flip=bool(k % 2))
        sk, ar, di, dist = truth(n, a, b)
        txt = f'{kind} {impl.show(n, a, names)} against {impl.show(n, b, names)}'
        for nm, want in (('skeleton_evaluation', sk), ('arrow_evaluation', ar), ('directed_edge_evaluation', di)):
            got = getattr(M, nm)(g1, g2)
            rec.step()
            if not same(got, want):
                raise Violation(f'{nm} of {txt}: {got}, expected {want}')
        got = bool(M.graph_equal(g1, g2))
        if got != (tuple(a) == tuple(b)):
            raise Violation(f'graph_equal of {txt} is {got}')
        if kind == 'PDAG' or kind == 'DiGraph':
            got = M.shd(g1, g2)
            if got != dist or M.shd(g2, g1) != dist:
                raise Violation(f'structural Hamming distance of {txt}: {got}, reversed {M.shd(g2, g1)}, expected {dist}')
        rec.step(3)
        if impl.read(g1, names) != tuple(a) or impl.read(g2, names) != tuple(b):
            raise Violation(f'comparing {txt} changed a graph')
        rec.state()
        rec.trace()
    rec.sample(dict(kind=kind, graph=impl.show(n, a, names), compared=len(others)))


def check_guards(case, rec):
    from cdmir.graph import DiGraph, PDAG, Graph
    from cdmir.utils import metrics as M
    fns = [M.graph_equal, M.skeleton_evaluation, M.arrow_evaluation, M.directed_edge_evaluation, M.shd]
    classes = [Graph, PDAG, DiGraph]
    nodes = [[1, 2, 3], [3, 2, 1], [1, 2], [1, 2, 3, 4], ['a', 'b', 'c']]
    for c1, c2 in product(classes, repeat=2):
        for n1, n2 in product(nodes, repeat=2):
            for f in fns:
                if f is M.shd and not (c1 is c2 and c1 in (PDAG, DiGraph)):
                    continue
                rec.step()
                try:
                    f(c1(n1), c2(n2))
                    ok = True
                except AssertionError:
                    ok = False
                if ok != (c1 is c2 and n1 == n2):
                    raise Violation(f'{f.__name__}({c1.__name__} on {n1}, {c2.__name__} on {n2}) was '
                                    + ('accepted' if ok else 'rejected'))
    rec.state()
    rec.trace()


# ------------------------------------------------------------ matrices
def matrix(n, code):
    import numpy as np
    B = np.zeros((n, n), dtype=int)
    for (i, j), c in zip(ref.pairs(n), code):
        if c == 1:
            B[i, j] = 1
        elif c == 2:
            B[j, i] = 1
    return B


def check_performance(case, rec):
    import numpy as np
    from cdmir.graph import DiGraph
    from cdmir.utils.metrics.graph_evaluation import get_performance
    n, a, others = case
    real = matrix(n, a)
    for k, b in enumerate(others):
        W = matrix(n, b) * (0.1 + 0.37 * np.arange(1, n * n + 1).reshape(n, n)) * (-1) ** np.arange(n * n).reshape(n, n)
        W = W + np.diag([5.0 * (v % 2) for v in range(n)])
        R = real + np.diag([(v + k) % 2 for v in range(n)])
        # a score equal to the threshold is not above it
        edge = abs(float(W[k % n, (k + 1) % n]))
        for th, drops in ((0, (True, False)), (1.0, (True, False)), (edge, (k % 2 == 0,))):
            for drop in drops:
                keep = W.copy(), R.copy()
                got = get_performance(W, R, threshold=th, drop_diag=drop)
                rec.step()
                want = prf([(bool(R[i, j]), abs(W[i, j]) > th) for i in range(n) for j in range(n) if i != j or not drop])
                row = got.iloc[0]
                if not close([row['F1'], row['Precision'], row['Recall'], row['threshold']],
                             [want['f1'], want['precision'], want['recall'], th], 1e-12, 1e-12):
                    raise Violation(f'get_performance of {W.tolist()} against {R.tolist()} (threshold {th}, drop_diag={drop}): '
                                    f'{row.to_dict()}, expected {want}')
                if not (keep[0] == W).all() or not (keep[1] == R).all():
                    raise Violation('get_performance changed its input')
        # graph objects: an entry is a directed edge
        want = prf([(bool(real[i, j]), b_ij) for i in range(n) for j in range(n) if i != j for b_ij in [bool(matrix(n, b)[i, j])]])
        names = impl.names_for(n, 1 + k % 2)
        for f_graph, r_graph in ((0, 1), (1, 0), (1, 1)):
            f = impl.build(DiGraph, n, b, names) if f_graph else matrix(n, b)
            r = impl.build(DiGraph, n, a, names) if r_graph else real
            row = get_performance(f, r).iloc[0]
            rec.step()
            if not close([row['F1'], row['Precision'], row['Recall']], [want['f1'], want['precision'], want['recall']], 1e-12, 1e-12):
                raise Violation(f'get_performance of {impl.show(n, b)} against {impl.show(n, a)} (graph objects: '
                                f'{f_graph}, {r_graph}): {row.to_dict()}, expected {want}')
        rec.state()
        rec.trace()


def check_accuracy(case, rec):
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils import count_accuracy
    n, a, others = case
    B = matrix(n, a)
    ps = ref.pairs(n)
    for k, b in enumerate(others):
        E = matrix(n, b)
        und = False
        for q, ((i, j), c) in enumerate(zip(ps, b)):
            if c == 3:
                und = True
                if (q + k) % 2:
                    E[i, j] = -1
                else:
                    E[j, i] = -1
        if k % 2 and not und:
            E = E.astype(bool)
        nt = sum(1 for c in a if c)
        pred = sum(1 for c in b if c)
        tp = sum(1 for x, y in zip(a, b) if x and y and (x == y or y == 3))
        rev = sum(1 for x, y in zip(a, b) if x and y in (1, 2) and x != y)
        fp = sum(1 for x, y in zip(a, b) if y and not x)
        miss = sum(1 for x, y in zip(a, b) if x and not y)
        want = dict(fdr=(rev + fp) / max(pred, 1), tpr=tp / max(nt, 1), fpr=(rev + fp) / max(len(ps) - nt, 1),
                    shd=fp + miss + rev, nnz=pred)
        got = count_accuracy(B.copy(), E.copy())
        rec.step()
        if not same(got, want):
            raise Violation(f'count_accuracy({B.tolist()}, {E.tolist()}) = {got}, expected {want}')
        rec.state()
        rec.trace()


def check_bad_estimate(case, rec):
    """estimates that are not graphs of the accepted kind are rejected."""
    import numpy as np
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils import count_accuracy
    n = 3
    B = matrix(n, (1, 0, 1))
    cells = [(i, j) for i in range(n) for j in range(n) if i != j]
    for vals in product((0, 1, -1), repeat=len(cells)):
        E = np.zeros((n, n), dtype=int)
        for (i, j), v in zip(cells, vals):
            E[i, j] = v
        und = (E == -1).any()
        twice = ((E == -1) & (E.T == -1)).any()
        if und:
            ok = not twice
        else:
            ok = not E.any() or ref.acyclic(tuple(sum(1 << i for i in range(n) if E[i, j]) for j in range(n)))
        if und and any(E[i, j] and E[j, i] for i, j in cells) and ok:
            continue            # both an undirected and a directed mark on one pair: meaning undefined
        rec.step()
        try:
            count_accuracy(B, E)
            got = True
        except ValueError:
            got = False
        if got != bool(ok):
            raise Violation(f'count_accuracy on the estimate {E.tolist()} was ' + ('accepted' if got else 'rejected'))
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.utils.metrics  # noqa
    import cdmir.utils.metrics.graph_evaluation  # noqa
    import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils  # noqa
    thorough = tier == 'thorough'
    cases = []
    for n in (2, 3):
        codes = list(ref.pdag_codes(n))
        for a in codes:
            cases.append(['PDAG', n, seed, a, codes])
        acyc = [ref.parents_to_code(p) for p in ref.dags(n)] + ([(1, 2, 1), (2, 1, 2)] if n == 3 else [])
        for a in acyc:
            cases.append(['DiGraph', n, seed + 1, a, acyc])
        mixed = list(ref.pdag_codes(n, (0, 1, 2, 3, 4)))
        step = 1 if thorough else 9
        for k, a in enumerate(mixed):
            cases.append(["Graph", n, seed + 2, a, mixed[k % step::step]])
    all4 = [ref.parents_to_code(p) for p in ref.dags(4)]
    skip = 7 if thorough else 121
    for k, a in enumerate(all4):
        cases.append(['PDAG', 4, seed + k % 3, a, all4[(k + seed) % skip::skip]])
    cp = sorted(set(ref.cpdag_table(4).values()))
    for k, a in enumerate(cp):
        cases.append(['PDAG', 4, seed + k % 3, a, cp[(k + seed) % 9::3 if thorough else 9]])
    perf = []
    acc = []
    for n in (2, 3):
        ds = [ref.parents_to_code(p) for p in ref.dags(n)]
        ors = [list(c) for c in ref.oriented_codes(n)]
        cps = sorted(set(ds) | set(ref.pdag_codes(n)) if n == 2 else set(ds) | {c for c in ref.pdag_codes(n) if 3 in c})
        for a in ds:
            perf.append([n, a, ors])
            acc.append([n, a, cps])
    for k, a in enumerate(all4):
        perf.append([4, a, all4[(k + seed) % 31::31] if thorough else all4[(k + seed) % 271::271]])
        acc.append([4, a, all4[(k + seed) % 11::(3 if thorough else 11)] + [c for c in cp if 3 in c][k % 5::5]])
    big, bigp, biga = [], [], []
    for n in (5, 7, 10) + ((6, 8, 13) if thorough else ()):
        st = 1 if thorough else n - 3
        fam = [ref.relabel(p, ref.shuffled(n, k + seed)) for k, (_, p) in enumerate(ref.families(n))]
        codes = [ref.parents_to_code(p) for p in fam]
        turned = [tuple(3 - c if c and (q + k) % 4 == 0 else c for q, c in enumerate(a)) for k, a in enumerate(codes)]
        cps = [e for e in map(ref.essential, fam) if e is not None]
        mix = [tuple((c * (q + k + 2)) % 5 if c else (q + k) % 7 == 0 for q, c in enumerate(a)) for k, a in enumerate(codes)]
        for k, a in enumerate(codes):
            big.append(['DiGraph', n, seed + k, a, [a] + (codes + turned)[k % st::st]])
            big.append(['PDAG', n, seed + k, cps[k % len(cps)], (codes + cps)[k % st::st]])
            big.append(['PDAG', n, seed + k, a, [turned[k]] + (turned + cps)[k % st::st]])
            big.append(['Graph', n, seed + k, mix[k], [mix[k]] + mix[k % st::st]])
            bigp.append([n, a, [a] + (codes + turned)[k % (2 * st)::2 * st]])
            ok = [t for t in turned if ref.acyclic(ref.code_to_parents(n, t))]
            biga.append([n, a, codes + ok + [c for c in cps if 3 in c]])
    return [Space('larger graph pairs', big, check_pairs, limit=300, chunk=4, note='18 families of 5, 7 and 10 nodes, each against others (thorough: all) and with edges turned'),
            Space('larger matrices', bigp, check_performance, limit=300, chunk=2, note='the same families'),
            Space('larger accuracy counts', biga, check_accuracy, limit=300, note='the same families'),
            Space('graph pairs', cases, check_pairs, limit=300,
                  note='every ordered pair of partially directed graphs on <= 3 nodes (three classes); 4-node graphs strided'),
            Space('guards', [0], check_guards, note='every pair of classes and node lists'),
            Space('matrix performance', perf, check_performance, limit=300,
                  note='every ordered pair of digraphs on 3 nodes x thresholds x diagonal handling x graph objects'),
            Space('accuracy counts', acc, check_accuracy, limit=300, note='every DAG against every estimate on 3 nodes; 4 nodes strided'),
            Space('rejected estimates', [0], check_bad_estimate, note='every matrix over {0,1,-1} on 3 nodes')]
