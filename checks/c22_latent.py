"""C22: latent hierarchical structure: tetrads, clusters, merging and the whole search on exact covariances."""
from fractions import Fraction as Q
from itertools import combinations, combinations_with_replacement, permutations, product

from mc.core import Space, Violation, close

PROPERTY = 'C22'
TITLE = 'Latent hierarchies are recovered from vanishing tetrads'
ASSUMPTIONS = ['samples are constructed so that the sample covariance equals the model covariance up to rounding; finite-sample error is outside',
               'recovery is required where tetrads identify the clusters: every latent has three measured children, or is the only one '
               'with fewer and has three latent neighbours',
               'drawing the learned graph needs graphviz, which is absent; the structure handed to the drawing routine is read instead']
PKG = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'


def mod(name):
    import importlib
    return importlib.import_module(PKG + name)


# ------------------------------------------------------------- reference
def solve_cov(nodes, edges, noise=None):
    """covariance (Fractions) of a linear model; nodes in topological order, edges {(a, b): weight}."""
    idx = {v: i for i, v in enumerate(nodes)}
    n = len(nodes)
    S = [[Q(0)] * n for _ in range(n)]
    for v in nodes:
        i = idx[v]
        pa = [(idx[a], Q(w)) for (a, b), w in edges.items() if b == v]
        for j in range(i):
            S[i][j] = S[j][i] = sum((w * S[a][j] for a, w in pa), Q(0))
        S[i][i] = sum((w * S[a][i] for a, w in pa), Q(0)) + (Q(1) if noise is None else Q(noise.get(v, 1)))
    return {(u, v): S[idx[u]][idx[v]] for u in nodes for v in nodes}


def sample(S, obs, n):
    """data with sample covariance S exactly (up to rounding): scaled cosine basis times the Cholesky factor."""
    import numpy as np
    import pandas as pd
    p = len(obs)
    t = np.arange(1, n + 1)
    Z = np.array([np.cos(np.pi * (t - .5) * k / n) for k in range(1, p + 1)]).T
    Z *= np.sqrt((n - 1) / (Z ** 2).sum(0))
    C = np.array([[float(S[u, v]) for v in obs] for u in obs])
    return pd.DataFrame(Z @ np.linalg.cholesky(C).T, columns=list(obs))


def det(M):
    M = [r[:] for r in M]
    n, d = len(M), Q(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Q(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return d


def wishart(S, i, j, k, l, n):
    """p-value of the tetrad  S_ik S_jl - S_il S_jk  (the minor with rows i, j and columns k, l)."""
    from math import erfc, sqrt
    tau = S[i, k] * S[j, l] - S[i, l] * S[j, k]
    if tau == 0:
        return 1.0
    d = lambda a, b: S[a, a] * S[b, b] - S[a, b] ** 2
    v = [i, j, k, l]
    var = Q(n + 1, (n - 1) * (n - 2)) * d(i, j) * d(k, l) - det([[S[a, b] for b in v] for a in v]) / (n - 2)
    if var == 0:
        return None
    return erfc(abs(float(tau)) / sqrt(abs(float(var))) / sqrt(2))


class Tetrads:
    def __init__(self, S, n, alpha):
        self.S, self.n, self.alpha, self.memo, self.near = S, n, alpha, {}, False

    def zero(self, i, j, k, l):
        """i, j against k, l"""
        t = (frozenset((frozenset((i, j)), frozenset((k, l)))))
        if t not in self.memo:
            p = wishart(self.S, i, j, k, l, self.n)
            if p is None or abs(p - self.alpha) < 1e-6:
                self.near = True
            self.memo[t] = p is not None and p > self.alpha
        return self.memo[t]

    def cluster(self, C, V):
        rest = [v for v in V if v not in C]
        return len(rest) >= 2 and all(self.zero(a, b, c, d) for a, b in combinations(C, 2) for c, d in combinations(rest, 2))

    def pure(self, C, V):
        rest = [v for v in V if v not in C]
        both = [(self.zero(C[0], c, C[1], d), self.zero(C[0], d, C[1], c)) for c, d in combinations(rest, 2)]
        if any(x or y for x, y in both) != any(x and y for x, y in both):
            self.near = True        # the two tetrads of a pair disagree: undecided by the definition (not possible in the population)
        return any(x and y for x, y in both)


def components(sets):
    sets = [set(s) for s in sets]
    done = True
    while done:
        done = False
        for a, b in combinations(range(len(sets)), 2):
            if sets[a] & sets[b]:
                sets[a] |= sets[b]
                del sets[b]
                done = True
                break
    return sorted(sorted(s) for s in sets)


# ------------------------------------------------------------- tetrad test
W = [Q(1), Q(3, 2), Q(-2), Q(5, 4), Q(3, 4), Q(-7, 4), Q(1, 2), Q(9, 4)]


def check_tetrad(case, rec):
    import numpy as np
    rows, n0 = case
    V = ['a', 'b', 'c', 'd']
    data = {v: [r[k] for r in rows] for k, v in enumerate(V)}
    m = len(rows)
    mean = {v: Q(sum(data[v]), m) for v in V}
    S = {(u, v): sum((Q(x) - mean[u]) * (Q(y) - mean[v]) for x, y in zip(data[u], data[v])) / (m - 1) for u in V for v in V}
    VT = mod('VanishedTest')
    for i, j, k, l in permutations(V):
        want = wishart(S, i, j, k, l, m)
        if want is None:
            continue
        tau = S[i, k] * S[j, l] - S[i, l] * S[j, k]
        if tau == 0:
            # the deviation may vanish too; then the ratio is 0/0
            continue
        rec.step()
        a = [np.array(data[x], dtype=float) for x in (i, j, k, l)]
        got = VT.tetradPValue(*a)
        if not close(got, want, 1e-6, 1e-9):
            raise Violation(f'p-value of tetrad ({i}{j}|{k}{l}) on rows {rows} is {got}, by the Wishart formula {want}')
        rec.expect(VT.vanishes_Pval(*a) == got, 'vanishes_Pval differs from tetradPValue')
        for alpha in (0.01, 0.05, 0.5):
            if abs(want - alpha) > 1e-6:
                if bool(VT.vanishes(*a, alpha)) != (want > alpha):
                    raise Violation(f'vanishes at level {alpha} is {not (want > alpha)} with p-value {want} (rows {rows}, {i}{j}|{k}{l})')
    rec.state()


def tetrad_cases(tier):
    vals = [-1, 0, 2]
    pts = list(product(vals, repeat=4))
    base = [(0, 1, 2, -1), (1, 0, -1, 2), (2, 2, 1, 0), (-1, 1, 0, 0), (1, -2, 0, 1)]
    out = []
    step = 1 if tier == 'thorough' else 5
    for k, (p, q) in enumerate(combinations_with_replacement(pts, 2)):
        if k % step == 0:
            out.append([[list(b) for b in base] + [list(p), list(q)], 0])
    return out


# ------------------------------------------------------------- clusters
def model(assign, latent_edges, extra, names=None):
    """nodes L0.. then x0..; assign[i] = latent of variable i."""
    nl = max(assign) + 1
    nodes = [f'L{k}' for k in range(nl)] + [f'x{k}' for k in range(len(assign))]
    E, k = {}, 0
    for a, b in latent_edges:
        E[f'L{a}', f'L{b}'] = W[k % 8]
        k += 1
    for i, a in enumerate(assign):
        E[f'L{a}', f'x{i}'] = W[k % 8]
        k += 1
    for a, b in extra:
        E[f'x{a}', f'x{b}'] = W[k % 8]
        k += 1
    return nodes, [f'x{i}' for i in range(len(assign))], E


def growth(n, blocks):
    def go(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        for v in range(min(m + 1, blocks - 1) + 1):
            yield from go(pre + [v], max(m, v))
    return go([0], 0)


def check_clusters(case, rec):
    assign, ledges, extra, n, alpha, order = case
    nodes, obs, E = model(assign, ledges, extra)
    S = solve_cov(nodes, E)
    T = Tetrads(S, n, alpha)
    obs = [obs[i] for i in order]
    data = sample(S, obs, n)
    keep = data.copy()
    TM, FC = mod('TetradMethod'), mod('FindCausalCluster')
    what = f'model {assign} latents {ledges} extra {extra} n={n} alpha={alpha} columns {obs}'
    pairs = []
    for a, b in combinations(obs, 2):
        want = T.cluster([a, b], obs)
        pure = T.pure([a, b], obs) if want else None
        if T.near:
            return
        for C in ([a, b], [b, a]):
            rec.step()
            if bool(TM.CheckCausalCluster(C, data, alpha)) != want:
                raise Violation(f'{what}: CheckCausalCluster({C}) is not {want}')
            if want and bool(TM.JudgePureCluster(C, data, alpha)) != pure:
                raise Violation(f'{what}: JudgePureCluster({C}) is not {pure}')
        if want:
            pairs.append((a, b))
    for C in combinations(obs, 3):
        want = T.cluster(C, obs)
        if not T.near and bool(TM.CheckCausalCluster(list(C), data, alpha)) != want:
            raise Violation(f'{what}: CheckCausalCluster({C}) is not {want}')
    P0, I0 = [['p', 'q']], [['r', 's']]
    L, P, I, PC = FC.FindCausalCluster(data, P0, I0, alpha)
    srt = lambda cs: sorted(sorted(c) for c in cs)
    if srt(PC) != srt(pairs):
        raise Violation(f'{what}: the two-element clusters are {srt(PC)}, exactly the pairs {srt(pairs)} qualify')
    comp = components(pairs)
    big = [c for c in srt(L)]
    for c in comp:
        if c not in big:
            raise Violation(f'{what}: learned clusters {srt(L)} lack the merged cluster {c}')
        big.remove(c)
    used = {v for p in pairs for v in p}
    left = [v for v in obs if v not in used]
    for c in big:
        if len(c) < 3 or not set(c) <= set(left) or not T.cluster(c, obs):
            raise Violation(f'{what}: {c} was learned but does not qualify')
    if not big:
        for k in range(3, len(left) + 1):
            if len(obs) - k >= 3:
                for c in combinations(left, k):
                    if T.cluster(c, obs):
                        raise Violation(f'{what}: no cluster of size {k} learned, although {c} qualifies')
    if T.near:
        return
    new_p, new_i = [c for c in srt(P) if c != ['p', 'q']], [c for c in srt(I) if c != ['r', 's']]
    rec.expect(['p', 'q'] in srt(P) and ['r', 's'] in srt(I), what + ': earlier recorded clusters were lost')
    want_p = sorted(c for c in comp if len(c) > 2 or T.pure(c, obs))
    want_i = sorted([c for c in comp if c not in want_p] + big)
    if not T.near and (new_p != want_p or new_i != want_i):
        raise Violation(f'{what}: pure {new_p}, impure {new_i}; expected {want_p} and {want_i}')
    rec.expect(data.equals(keep), what + ': the data were changed')
    # siblings without direct edges are always found
    for a, b in combinations(range(len(assign)), 2):
        if assign[a] == assign[b] and not any(a in e or b in e for e in extra):
            if not set((f'x{a}', f'x{b}')) in [set(p) for p in PC] and len(obs) >= 4:
                raise Violation(f'{what}: siblings x{a}, x{b} are no cluster')
    rec.state()
    rec.trace()


def cluster_cases(tier):
    out = []
    for n, blocks in ((4, 3), (5, 3), (6, 3)):
        k = 0
        for a in growth(n, blocks):
            nl = max(a) + 1
            les = [[]] if nl == 1 else [[(0, 1)], []] if nl == 2 else [[(0, 1), (0, 2)], [(0, 1), (1, 2)], [(0, 1), (0, 2), (1, 2)], [(0, 2), (1, 2)]]
            exs = [[]] + [[e] for e in combinations(range(n), 2)]
            exs += [[e, f] for e, f in combinations(combinations(range(n), 2), 2)] if n < 6 else []
            for le in les:
                for ex in exs:
                    k += 1
                    step = {4: 1, 5: 9, 6: 31}[n]
                    if tier == 'thorough':
                        step = {4: 1, 5: 1, 6: 2}[n]
                    if k % step:
                        continue
                    N, al = ((300, 0.01), (40, 0.05), (1000, 0.01))[k // step % 3]
                    o = list(range(n))
                    o = o[k % n:] + o[:k % n]
                    out.append([list(a), le, ex, N, al, o])
    return out


# ------------------------------------------------------------- clusters by their covariances
def check_cov_cluster(case, rec):
    """members with prescribed covariances with the outside: parallel vectors (or zeros) make the tetrads vanish."""
    size, out, pick, n, rev = case
    members = [f'm{i}' for i in range(size)]
    rest = [f'r{i}' for i in range(out)]
    vecs = [[0] * out, [1 + (i % 2) for i in range(out)], [2 - 3 * (i % 2) for i in range(out)]]
    S = {}
    for u in members + rest:
        for v in members + rest:
            S[u, v] = Q(12) if u == v else Q(1)
    for m, k in zip(members, pick):
        for i, r in enumerate(rest):
            S[m, r] = S[r, m] = Q(vecs[k][i])
    obs = rest[:1] + members + rest[1:]
    data = sample(S, obs[::-1] if rev else obs, n)
    T = Tetrads(S, n, 0.01)
    TM = mod('TetradMethod')
    want = T.cluster(members, obs)
    if T.near:
        return
    for C in permutations(members):
        rec.step()
        if bool(TM.CheckCausalCluster(list(C), data, 0.01)) != want:
            raise Violation(f'CheckCausalCluster({list(C)}) is not {want}: members have the covariances {[vecs[k] for k in pick]} with {rest}, n={n}')
    rec.state()
    rec.trace()


def cov_cluster_cases(tier):
    return [[size, out, list(pick), n, rev] for size in (2, 3, 4) + ((5,) if tier == 'thorough' else ()) for out in (2, 3)
            for pick in product(range(3), repeat=size) for n, rev in ((4000, 0), (250, 1)) if not (size == 4 and out == 3 and n == 250 and tier == 'quick')]


# ------------------------------------------------------------- merge rules
def check_rules(case, rec):
    assign, ledges, extra, n, alpha = case
    nodes, obs, E = model(assign, ledges, extra)
    S = solve_cov(nodes, E)
    T = Tetrads(S, n, alpha)
    data = sample(S, obs, n)
    M = mod('MergeCluster')
    for C1 in permutations(obs, 2):
        for C2 in permutations([o for o in obs if o not in C1], 2):
            rest = [o for o in obs if o not in C1 + C2]
            ii = all(T.zero(C1[0], C2[0], k, s) for k, s in combinations(rest, 2))
            pi = all(T.zero(C1[0], C2[0], C1[1], s) for s in rest)
            pp = T.zero(C1[0], C2[0], C1[1], C2[1]) and T.zero(C1[0], C1[1], C2[0], C2[1]) and T.zero(C1[0], C2[1], C1[1], C2[0])
            p1 = all(T.zero(C1[0], C2[0], C1[1], s) for s in obs if s not in C1 + C2[:1])
            if T.near:
                return
            for name, got, want in (('TestImpureWithImpure', M.TestImpureWithImpure(C1, C2, data, alpha), ii),
                                    ('TestPureWithImpure', M.TestPureWithImpure(C1, C2, data, alpha), pi),
                                    ('TestPureWithPure', M.TestPureWithPure(C1, C2, data, alpha), pp),
                                    ('TestPureWithPure', M.TestPureWithPure(C1, C2[:1], data, alpha), p1)):
                rec.step()
                if bool(got) != want:
                    raise Violation(f'{name}({C1}, {C2}) is {got} on model {assign} {ledges} {extra}, the tetrads say {want}')
            rec.expect(M.TestOverlap(list(C1), list(C2)) is False and M.TestOverlap(list(C1), [C1[1], C2[0]]) is True, 'TestOverlap wrong')
    rec.state()


def rule_cases(tier):
    out = []
    k = 0
    for n in (5, 6):
        for a in growth(n, 3):
            nl = max(a) + 1
            le = [[]] if nl == 1 else [[(0, 1)]] if nl == 2 else [[(0, 1), (0, 2)], [(0, 1), (1, 2)]]
            for e in le:
                for ex in [[]] + [[x] for x in combinations(range(n), 2)]:
                    k += 1
                    if k % ((113 if n == 6 else 25) if tier == 'quick' else (6 if n == 6 else 2)) == 0:
                        out.append([list(a), e, ex, 300 if k % 2 else 60, 0.01])
    return out


# ------------------------------------------------------------- sets
def check_sets(case, rec):
    OM, U = mod('Overlap_Merge'), mod('Utils')
    kind, data = case
    if kind == 'merge':
        lists = [list(s) for s in data]
        for form in (lists, [tuple(s) for s in lists], [['v%d' % x for x in s] for s in lists]):
            keep = [type(s)(s) for s in form]
            got = OM.merge_list(form)
            rec.step()
            want = components(form)
            if sorted(list(g) for g in got) != want:
                raise Violation(f'merge_list({form}) is {got}, the overlapping groups are {want}')
            rec.expect(all(list(g) == sorted(g) for g in got), f'merge_list({form}) gives unsorted clusters {got}')
            rec.expect(form == keep, f'merge_list changed its input {keep} to {form}')
    else:
        S1, sets = data
        A = set(S1)
        B = [set(s) for s in sets]
        ops = {'>': any(A > b for b in B), '>=': any(A >= b for b in B), '=': A in B, '<': any(A < b for b in B), '<=': any(A <= b for b in B)}
        for form in (list, tuple):
            s1, ss = form(S1), [form(s) for s in sets]
            for op, want in ops.items():
                rec.step()
                if U.GeneralSetOperator(s1, ss, op) != want:
                    raise Violation(f'GeneralSetOperator({s1}, {ss}, {op!r}) is not {want}')
            for f, op in ((U.GeneralSetContains, '='), (U.GeneralSetCover, '<='), (U.GeneralSetStrictCover, '<')):
                if f(s1, ss) != ops[op]:
                    raise Violation(f'{f.__name__}({s1}, {ss}) is not {ops[op]}')
            dic = {f'L{k}': s for k, s in enumerate(ss)}
            if U.GeneralDicContains(s1, dic) != ops['=']:
                raise Violation(f'GeneralDicContains({s1}, {dic}) is not {ops["="]}')
            got = U.GetEarlyLearningByDic(s1, dic)
            if (got == '') != (not ops['=']) or got and set(dic[got]) != A:
                raise Violation(f'GetEarlyLearningByDic({s1}, {dic}) is {got!r}')
            ext = U.ExtendList([list(s) for s in sets], [s1, s1])
            if [sorted(e) for e in ext] != [sorted(s) for s in sets] + ([] if ops['='] else [sorted(s1)]):
                raise Violation(f'ExtendList({sets}, [{s1}, {s1}]) is {ext}')
    rec.state()


def set_cases(tier):
    sub = [c for k in (1, 2, 3) for c in combinations(range(5), k) if k > 1 or c[0] < 2]
    out = []
    for k in range(0, 4):
        for i, c in enumerate(combinations_with_replacement(sub, k)):
            if k < 3 or tier == 'thorough' or i % 3 == 0:
                out.append(['merge', [list(s) for s in c]])
                if k == 3:
                    out.append(['merge', [list(s) for s in reversed(c)]])
    pairs = list(combinations(range(6), 2))
    for k in (4, 5):
        for i, c in enumerate(combinations(pairs, k)):
            if i % (1 if tier == 'thorough' else 4) == 0:
                out.append(['merge', [list(s) for s in c]])
    subs = [list(c) for k in range(0, 4) for c in combinations('abc', k)]
    for s in subs:
        for k in range(0, 3):
            for t in combinations(subs, k):
                out.append(['ops', [s, [list(reversed(x)) for x in t]]])
    return out


# ------------------------------------------------------------- active data
def check_update(case, rec):
    import pandas as pd
    cols, merge, intro, remove, num = case
    UD = mod('UpdataData')
    n = 5
    df = pd.DataFrame({c: [10 * k + r * (k + 1) for r in range(n)] for k, c in enumerate(cols)})
    keep = df.copy()
    early = [list(r) for r in remove]
    li = {'L0': ['z1', 'z2']}
    new, idx, li2 = UD.UpdataData([[list(m) for m in merge], [], early, [list(i) for i in intro], []], num, li, df)
    what = f'UpdataData columns {cols}, merged {merge}, introduced {intro}, absorbed {remove}'
    gone = {v for m in list(merge) + list(intro) for v in m} | {v for r in remove for v in r[1:]}
    names = [f'L{num + k}' for k in range(len(merge) + len(intro))]
    rec.step()
    if idx != num + len(names):
        raise Violation(f'{what}: next latent number is {idx}')
    if sorted(new.columns) != sorted([c for c in cols if c not in gone] + names):
        raise Violation(f'{what}: columns are {list(new.columns)}')
    for nme, m in zip(names, list(merge) + list(intro)):
        if set(li2.get(nme, ())) != set(m):
            raise Violation(f'{what}: {nme} is recorded with {li2.get(nme)}')
        if not any(list(new[nme]) == list(keep[v]) for v in m):
            raise Violation(f'{what}: the column of {nme} is not that of one of its members {m}: {list(new[nme])}')
    for c in cols:
        if c not in gone and list(new[c]) != list(keep[c]):
            raise Violation(f'{what}: column {c} now holds {list(new[c])}, it was {list(keep[c])}')
    rec.expect(li2['L0'] == ['z1', 'z2'], what + ': an older latent was changed')
    rec.expect(df.equals(keep), what + ': the active data were changed in place')
    rec.state()


def update_cases(tier):
    out = []
    for n in (2, 3, 4, 5, 6):
        cols = [f'x{k}' for k in (3, 1, 2, 6, 5, 4)][:n]
        if n > 3:
            cols[1] = 'L7'
        # label every column: 0 stays, 1/2 merged groups, 3/4 introduced groups, 5 absorbed
        for lab in product(range(6), repeat=n):
            g = {k: [c for c, l in zip(cols, lab) if l == k] for k in range(6)}
            if any(g[k] and len(g[k]) < 2 for k in (1, 2, 3, 4)) or (g[2] and not g[1]) or (g[4] and not g[3]):
                continue
            if g[5] and not g[0]:
                continue
            if n == 6 and (hash_(lab) % (9 if tier == 'quick' else 1)):
                continue
            rem = [[g[0][0]] + g[5]] if g[5] else []
            out.append([cols, [g[k] for k in (1, 2) if g[k]], [g[k] for k in (3, 4) if g[k]], rem, 1 + len(out) % 3])
    return out


def hash_(t):
    h = 0
    for x in t:
        h = (h * 31 + x + 7) % 1000003
    return h


def check_descend(case, rec):
    li, obs = case
    li = {k: list(v) for k, v in li}
    UD = mod('UpdataData')

    def below(v):
        return {v} if v in obs else set().union(*[below(c) for c in li[v]])
    for L in li:
        rec.step()
        got = UD.GetObservedForLatent(L, li, obs)
        if got not in below(L):
            raise Violation(f'GetObservedForLatent({L}) is {got} in {li}, its measured variables are {sorted(below(L))}')
    rec.expect(all(UD.GetObservedForLatent(o, li, obs) == o for o in obs), 'a measured variable does not stand for itself')
    MG = mod('MakeGraph')
    names = list(li)
    for imp in [list(c) for k in (2, 3) for c in permutations(names + obs[:2], k)]:
        want = {k: set(v) for k, v in li.items()}
        for i, a in enumerate(imp):
            if a in want:
                want[a] |= set(imp[i + 1:])
        got = MG.tranImpureToLatentIndex({k: list(v) for k, v in li.items()}, [list(imp)])
        rec.step()
        if {k: set(v) for k, v in got.items()} != want or any(len(set(v)) != len(v) for v in got.values()):
            raise Violation(f'tranImpureToLatentIndex({li}, [{imp}]) is {got}')
    rec.state()


def descend_cases(tier):
    out = []
    obs = ['x1', 'x2', 'x3', 'x4']
    for top in product(['x1', 'x2', 'L1', 'L2'], repeat=3):
        for mid in product(['x3', 'x4', 'L1'], repeat=2):
            for low in (('x1', 'x4'), ('x3', 'x2')):
                if len(set(top)) == 3 and len(set(mid)) == 2:
                    out.append([[['L1', list(low)], ['L2', list(mid)], ['L3', list(top)]], obs])
    return out


# ------------------------------------------------------------- whole search
def trees(leaves, depth, minch):
    def parts(n, mx):
        if n == 0:
            yield ()
        for a in range(min(n, mx), 0, -1):
            for r in parts(n - a, a):
                yield (a,) + r
    if leaves == 1:
        return [()]
    out = set()
    if depth:
        for p in parts(leaves, leaves - 1):
            if len(p) >= minch:
                for c in product(*[trees(a, depth - 1, minch) for a in p]):
                    out.add(tuple(sorted(c)))
    return sorted(out)


def flatten(t):
    d, c = {}, [0, 0]

    def go(t):
        if t == ():
            c[0] += 1
            return f'x{c[0]}'
        c[1] += 1
        n = f'T{c[1]}'
        d[n] = None
        d[n] = [go(s) for s in t]
        return n
    go(t)
    return d


def adjacency(tree, more=()):
    adj = {}
    for a, b in [(l, c) for l in tree for c in tree[l]] + list(more):
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    return adj


def identified(tree, adj):
    few = 0
    for l in tree:
        leaf = [c for c in adj[l] if c not in tree]
        inner = [c for c in adj[l] if c in tree]
        if not inner and len(leaf) < 4:
            return False
        if len(leaf) < 3:
            few += 1
            if len(inner) < 3 and not (len(inner) == 2 and len(leaf) >= 1 and len(tree) == 3):
                return False
    return few <= 1


def search(data, alpha):
    import contextlib
    import io
    MG, C = mod('MakeGraph'), mod('Causal_Discovery_in_LHM')
    cap = {}
    old = MG.Make_graph_Impure, MG.Make_graph
    MG.Make_graph_Impure = lambda L, I, *a, **k: cap.update(L={x: list(y) for x, y in L.items()}, I=[list(c) for c in I])
    MG.Make_graph = lambda L, *a, **k: cap.setdefault('L', {x: list(y) for x, y in L.items()})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            C.Causal_Discovery_LHM(data, alpha)
    except SystemExit:
        raise Violation('the search ended the whole program (exit)')
    finally:
        MG.Make_graph_Impure, MG.Make_graph = old
    return cap['L'], cap['I']


def judge(tree, adj, L):
    """is the learned map latent -> members a correct description of the tree?"""
    m, todo = {}, dict(L)
    while todo:
        prog = False
        for l, ch in list(todo.items()):
            if all(c not in L or c in m for c in ch):
                true = [m.get(c, c) for c in ch]
                fit = [v for v in tree if v not in m.values() and all(x in adj[v] for x in true)]
                if not fit:
                    return f'{l} = {ch} is no set of neighbours of one latent'
                m[l] = fit[0]
                del todo[l]
                prog = True
        if not prog:
            return 'the learned structure is cyclic'
    miss = [v for v in tree if v not in m.values()]
    if len(miss) > 1:
        return f'no learned latent corresponds to {miss}'
    used = [c for ch in L.values() for c in ch]
    if len(used) != len(set(used)):
        return 'a variable belongs to two learned latents'
    rest = [v for v in list(L) + [x for x in adj if x not in tree] if v not in used]
    if miss and {m.get(v, v) for v in rest} != adj[miss[0]]:
        return f'{rest} remain, but they are not the neighbours of the latent that was not introduced'
    if not miss and any(v not in L for v in rest):
        return f'the measured variables {[v for v in rest if v not in L]} belong to no learned latent'
    return None


def enough(S, obs, n, alpha):
    """sample size at which every tetrad that does not vanish is clearly significant."""
    from math import sqrt
    need = n
    for q in combinations(obs, 4):
        for a, b in ((1, (2, 3)), (2, (1, 3)), (3, (1, 2))):
            i, j, k, l = q[0], q[a], q[b[0]], q[b[1]]
            while True:
                p = wishart(S, i, j, k, l, need)
                if p is None or p == 1.0 or p < alpha / 100:
                    break
                need *= 2
    return need


def check_search(case, rec):
    kind, tree, ledges, order, n, alpha, shift = case[:7]
    extra = case[7] if len(case) > 7 else []
    tree = {k: list(v) for k, v in tree}
    E, k = {}, shift
    for l in tree:
        for c in tree[l]:
            E[l, c] = W[k % 8]
            k += 1
    for a, b in ledges + extra:
        E[a, b] = W[k % 8]
        k += 1
    nodes = []
    todo = list(tree) + [c for ch in tree.values() for c in ch if c not in tree]
    while todo:
        for v in todo:
            if all(a in nodes for a, b in E if b == v):
                nodes.append(v)
                todo.remove(v)
                break
    obs = sorted([v for v in nodes if v not in tree], key=lambda s: int(s[1:]))
    r = order % len(obs)
    obs = obs[r:] + obs[:r]
    if order >= len(obs):
        obs.reverse()
    S = solve_cov(nodes, E)
    n = enough(S, obs, n, alpha)
    data = sample(S, obs, n)
    keep = data.copy()
    L, I = search(data, alpha)
    what = f'latent model {tree} with latent edges {ledges}, direct edges {extra}, columns {obs}'
    rec.step(len(L))
    if kind == 'tree':
        bad = judge(tree, adjacency(tree), L)
    else:
        want = sorted(sorted(v) for v in tree.values())
        got = sorted(sorted(v) for v in L.values())
        bad = None if got == want else f'the clusters should be {want}'
        if not bad and len(tree) > 1 and sorted(L) != sorted(I[-1]):
            bad = f'the latents {sorted(L)} should remain as one group'
    if bad:
        raise Violation(f'{what}: learned {L}, remaining {I}: {bad}')
    rec.expect(data.equals(keep), what + ': the data were changed')
    rec.state()
    rec.trace()
    rec.sample(dict(tree=tree, learned=L))


def search_cases(tier):
    out = []
    # measurement models: up to three latents in every DAG, three or four children each
    dags = {1: [[]], 2: [[], [(0, 1)], [(1, 0)]],
            3: [list(c) for k in range(4) for c in combinations([(a, b) for a, b in permutations(range(3), 2)], k)
                if len({frozenset(e) for e in c}) == k and acyclic(3, c)]}
    q = 0
    for nl in (1, 2, 3):
        for sizes in product((3, 4), repeat=nl):
            if nl == 1 and sizes[0] < 4:
                continue
            for g in dags[nl]:
                q += 1
                if nl == 3 and sum(sizes) > 10 and tier == 'quick':
                    continue
                if nl == 3 and tier == 'quick' and q % 3 and sum(sizes) > 9:
                    continue
                tr, c = [], 0
                for k, s in enumerate(sizes):
                    tr.append([f'T{k}', [f'x{c + i}' for i in range(s)]])
                    c += s
                isolated = nl > 1 and {v for e in g for v in e} != set(range(nl))
                if isolated:
                    continue
                for o in ((q,) if tier == 'quick' else range(0, 2 * c, 3)):
                    out.append(['measure', tr, [[f'T{a}', f'T{b}'] for a, b in g], o, 1000, 0.01, q % 8])
    # one direct edge between two children of the same latent, which has at least four children
    q = 0
    for sizes in ((4,), (5,), (3, 4), (4, 3), (4, 4)) + (((3, 5), (6,), (5, 4), (3, 4, 3)) if tier != 'quick' else ()):
        tr, c = [], 0
        for k, s in enumerate(sizes):
            tr.append([f'T{k}', [f'x{c + i}' for i in range(s)]])
            c += s
        for (_, ch) in tr:
            for a, b in combinations(ch, 2) if len(ch) > 3 else ():
                q += 1
                for o in (range(q % 2, 2 * c, 3) if c < 6 else (q, q + c + 1)) if tier == 'quick' else range(2 * c):
                    out.append(['measure', tr, [[f'T{i}', f'T{i + 1}'] for i in range(len(sizes) - 1)], o, 1000, 0.01, q % 8, [[a, b]]])
    # many columns (two-digit names), four latents
    star, tree4 = [(0, 1), (0, 2), (0, 3)], [(1, 0), (1, 2), (1, 3)]
    for q, (sizes, es) in enumerate([((4, 4, 4), [(0, 1), (1, 2)]), ((3, 4, 5), [(0, 1), (0, 2)]), ((3, 3, 3, 3), star),
                                     ((4, 3, 3, 3), tree4), ((3, 3, 4, 4), star), ((6, 6), [(0, 1)]), ((12,), [])]):
        tr, c = [], 0
        for k, s in enumerate(sizes):
            tr.append([f'T{k}', [f'x{c + i}' for i in range(s)]])
            c += s
        for o in (q, q + c) if tier == 'quick' else range(2 * c):
            if len(sizes) < 4:
                out.append(['measure', tr, [[f'T{a}', f'T{b}'] for a, b in es], o, 1000, 0.01, q % 8])
            else:
                out.append(['tree', [[k, ch + [f'T{b}' for a, b in es if f'T{a}' == k]] for k, ch in tr], [], o, 1000, 0.01, q % 8])
    for leaves in range(4, 11 if tier == 'quick' else 12):
        for i, t in enumerate(trees(leaves, 3, 2)):
            tr = flatten(t)
            if not identified(tr, adjacency(tr)):
                continue
            for o in ((i,) if tier == 'quick' else range(0, 2 * leaves, 4)):
                out.append(['tree', [[k, v] for k, v in tr.items()], [], o, 1000, 0.01, i % 8])
    return out


def acyclic(n, es):
    left = set(range(n))
    while left:
        src = [v for v in left if not any(b == v and a in left for a, b in es)]
        if not src:
            return False
        left -= set(src)
    return True


# ------------------------------------------------------------- generalised independent noise
def omega(C):
    """right singular vector of the smallest singular value of C (|Z| x |X|); None if it is not unique."""
    import numpy as np
    C = np.array(C, dtype=float)
    u, sv, vt = np.linalg.svd(C)
    full = np.concatenate([sv, np.zeros(C.shape[1] - len(sv))]) if C.shape[1] > len(sv) else sv
    if len(full) > 1 and full[-2] - full[-1] < 1e-3 * (full[0] + 1e-9):
        return None
    return vt[C.shape[1] - 1]


def hsic_p(x, y, wx=None, wy=None):
    import numpy as np
    from scipy.stats import gamma
    n = len(x)

    def gram(v, w):
        d = (v[:, None] - v[None, :]) ** 2
        if w is None:
            t = d[np.triu_indices(n, 1)]
            w = np.sqrt(0.5 * np.median(t[t > 1e-12]))
        return np.exp(-d / (2 * w * w))
    K, L = gram(x, wx), gram(y, wy)
    Kc = K - K.mean(0) - K.mean(1)[:, None] + K.mean()
    Lc = L - L.mean(0) - L.mean(1)[:, None] + L.mean()
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    var = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx = (K.sum() - np.trace(K)) / n / (n - 1)
    my = (L.sum() - np.trace(L)) / n / (n - 1)
    mean = (1 + mx * my - mx - my) / n
    return float(gamma.sf(stat, mean ** 2 / var, scale=var * n / mean))


def halton(n, d):
    import numpy as np
    out = np.zeros((n, d))
    for j, b in enumerate((2, 3, 5, 7, 11, 13)[:d]):
        for i in range(n):
            f, r, k = 1.0, 0.0, i + 1 + 7 * j
            while k:
                f /= b
                r += f * (k % b)
                k //= b
            out[i, j] = r
    return out


def generic(case_id, n, d):
    """a deterministic sample without repeated values, with dependence among the columns."""
    import numpy as np
    H = halton(n, d) - 0.5
    A = np.eye(d)
    k = case_id
    for i in range(d):
        for j in range(i):
            A[i, j] = (0, 0.7, -1.1)[k % 3]
            k //= 3
    return (H ** 3 * 4 + H) @ A.T


def check_gin(case, rec):
    import numpy as np
    import pandas as pd
    cid, n, names = case
    G = mod('GIN2')
    d = len(names)
    A = generic(cid, n, d)
    data = pd.DataFrame(A, columns=names)
    keep = data.copy()
    C = np.cov(A, rowvar=False)
    for kx in (1, 2, 3):
        for X in permutations(range(d), kx):
            if list(X) != sorted(X) and kx == 3:
                continue
            rest = [z for z in range(d) if z not in X]
            for kz in (1, 2):
                for Z in combinations(rest, kz):
                    w = omega(C[np.ix_(Z, X)])
                    if w is None:
                        continue
                    rec.step()
                    got = np.ravel(G.getomega(data, [names[i] for i in X], [names[i] for i in Z]))
                    if got.shape != w.shape or min(abs(got - w).max(), abs(got + w).max()) > 1e-6:
                        raise Violation(f'getomega(X={X}, Z={Z}) on generic data {cid} is {got}, expected +-{w}')
                    r = A[:, X] @ w
                    ps = [hsic_p(r, A[:, z]) for z in Z]
                    if list(X) != sorted(X):
                        continue
                    for alpha in (0.05, 0.3):
                        if any(abs(p - alpha) < 1e-4 for p in ps):
                            continue
                        want = all(p > alpha for p in ps)
                        if bool(G.GIN([names[i] for i in X], [names[i] for i in Z], data, alpha)) != want:
                            raise Violation(f'GIN(X={X}, Z={Z}, alpha={alpha}) on generic data {cid} is not {want}; p-values {ps}')
    rec.expect(data.equals(keep), 'GIN changed the data')
    rec.state()


def gin_cases(tier):
    return [[c, 30 + c % 3, [['a', 'b', 'c', 'd'], ['x3', 'x1', 'x2', 'x10']][c % 2]] for c in range(0, 729, 24 if tier == 'quick' else 3)]


def check_gin_model(case, rec):
    """factorial designs: every source takes every combination of levels, so sources are exactly independent in the sample."""
    import numpy as np
    import pandas as pd
    parent, chain, wi = case
    m = len(parent)
    lev = [[-2, 0, 1, 1], [-1, -1, 2]] + [[-1, 2, 2]] * 2 + [[-1, 1]] * (m - 2)
    rows = np.array(list(product(*lev[:2 + m])), dtype=float)
    rows -= rows.mean(0)
    L1 = rows[:, 0]
    L2 = (float(W[wi]) * L1 if chain else 0) + rows[:, 1]
    coef = [float(W[(wi + 1 + k) % 8]) for k in range(m)]
    src = []                                                   # sources of every variable, with coefficients
    for k, p in enumerate(parent):
        v = np.zeros(2 + m)
        if p == 0:
            v[0] = coef[k]
        else:
            v[0] = coef[k] * float(W[wi]) if chain else 0
            v[1] = coef[k]
        v[2 + k] = 1
        src.append(v)
    src = np.array(src)
    A = rows @ src.T
    names = [f'x{k}' for k in range(m)]
    data = pd.DataFrame(A, columns=names)
    var = (rows ** 2).sum(0) / (len(rows) - 1)
    C = src @ np.diag(var) @ src.T
    G = mod('GIN2')
    for X in combinations(range(m), 2):
        for z in range(m):
            if z in X:
                continue
            w = omega(C[np.ix_([z], X)])
            if w is None:
                continue
            comb = w @ src[list(X)]
            indep = all(abs(comb[s]) < 1e-9 or abs(src[z][s]) < 1e-9 for s in range(2 + m))
            got = bool(G.GIN([names[i] for i in X], [names[z]], data, 0.05))
            rec.step()
            what = f'variables with latent parents {parent}, latents {"chained" if chain else "separate"}, weights {wi}: GIN(X={X}, Z={z})'
            if indep and not got:
                raise Violation(f'{what} is False although the combination is exactly independent of Z')
            if not indep and got:
                r = A[:, X] @ w
                ps = [hsic_p(r, A[:, z]), hsic_p(r, A[:, z], np.std(r), np.std(A[:, z])), hsic_p(r, A[:, z], np.std(r) / 2, np.std(A[:, z]) / 2)]
                if max(ps) < 1e-3:
                    raise Violation(f'{what} is True although the combination depends on Z (p-values {ps})')
    rec.state()


def gin_model_cases(tier):
    return [[list(p), c, w] for p in product((0, 1), repeat=3) for c in (0, 1) for w in ((0, 3) if tier == 'quick' else range(8))] + \
        ([[list(p), 1, 1] for p in product((0, 1), repeat=4)] if tier == 'thorough' else [])


def knn_mi(x, y):
    import numpy as np
    from scipy.special import digamma, gamma
    n = len(x)
    k = 15 if n > 3000 else 10

    def ent(P):
        D = np.sqrt(((P[:, None, :] - P[None, :, :]) ** 2).sum(-1))
        D.sort(1)
        d = P.shape[1]
        return d * np.mean(np.log(D[:, k] + np.finfo(float).eps)) + np.log(np.pi ** (d / 2) / gamma(d / 2 + 1)) + digamma(n) - digamma(k)
    x, y = x[:, None], y[:, None]
    return abs(ent(x) + ent(y) - ent(np.hstack([x, y])))


def check_order(case, rec):
    import numpy as np
    import pandas as pd
    cid, sizes, perm = case
    d = sum(sizes)
    A = generic(cid, 40, d)
    names = [f'x{k}' for k in range(d)]
    data = pd.DataFrame(A, columns=names)
    C = np.cov(A, rowvar=False)
    I, G = mod('Infer_Causal_Order'), mod('GIN2')
    clusters, c = [], 0
    for sz in sizes:
        clusters.append(names[c:c + sz])
        c += sz
    clusters = [clusters[i] for i in perm]
    ix = {v: i for i, v in enumerate(names)}

    def mi(X, Z):
        w = omega(C[np.ix_([ix[z] for z in Z], [ix[x] for x in X])])
        if w is None:
            return None
        r = A[:, [ix[x] for x in X]] @ w
        return sum(knn_mi(r, A[:, ix[z]]) for z in Z) / len(Z)

    order, left = [], [list(c) for c in clusters]
    while left:
        score = []
        for c in left:
            t = 0.0
            for o in left:
                if o is c or len(left) == 1:
                    continue
                h = (len(c) + 1) // 2
                X, Z = c[:h] + o[:(len(o) + 1) // 2], c[h:]
                for k in order:
                    X, Z = X + k[:len(k) // 2], Z + k[len(k) // 2:]
                v = mi(X, Z)
                rec.step()
                got = G.GIN_MI(X, Z, data)
                if v is None:  # several directions are left: take the one the test itself uses
                    v = got
                elif not close(got, v, 1e-6, 1e-8):
                    raise Violation(f'GIN_MI(X={X}, Z={Z}) on generic data {cid} is {got}, expected {v}')
                t += v
            score.append(t)
        s = sorted(score)
        if len(s) > 1 and s[1] - s[0] < 1e-6:
            return
        order.append(left.pop(score.index(min(score))))
    groups = {'1': [list(c) for c in clusters]}
    got = I.LearnCausalOrder(groups, data)
    if [list(c) for c in got] != order:
        raise Violation(f'causal order of clusters {clusters} on generic data {cid} is {got}; smallest dependence first gives {order}')
    rec.expect(groups == {'1': clusters}, 'LearnCausalOrder changed the clusters')
    rec.state()


def order_cases(tier):
    out = []
    for sizes in ((2, 2), (2, 3), (3, 3), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2), (3, 3, 3)):
        for perm in permutations(range(len(sizes))):
            for c in range(0, 729, 81 if tier == 'quick' else 9):
                out.append([c * 5 + 1, list(sizes), list(perm)])
    return out


def init():
    for m in ('GIN2', 'Infer_Causal_Order', 'VanishedTest', 'TetradMethod', 'FindCausalCluster', 'MergeCluster', 'Overlap_Merge', 'Utils', 'UpdataData', 'MakeGraph',
              'Causal_Discovery_in_LHM'):
        mod(m)


def spaces(tier, seed):
    return [
        Space('tetrad', tetrad_cases(tier), check_tetrad, limit=60, init=init, note='7-row samples over a grid, all 24 argument orders'),
        Space('clusters', cluster_cases(tier), check_clusters, limit=120, note='4-6 measured variables, <= 3 latents, <= 2 direct edges'),
        Space('covariances', cov_cluster_cases(tier), check_cov_cluster, limit=120, note='clusters of 2-4 (5) members, all parallel/zero/non-parallel covariance patterns, all orders'),
        Space('rules', rule_cases(tier), check_rules, limit=240, note='every ordered pair of disjoint pairs on 5-6 variables'),
        Space('sets', set_cases(tier), check_sets, limit=60, note='lists of <= 5 sets over <= 6 elements'),
        Space('update', update_cases(tier), check_update, limit=60, note='every grouping of <= 6 active columns'),
        Space('descend', descend_cases(tier), check_descend, limit=60, note='every three-latent hierarchy over 4 measured variables'),
        Space('gin', gin_cases(tier), check_gin, limit=120, note='every X and Z on generic 4-column samples'),
        Space('gin-model', gin_model_cases(tier), check_gin_model, limit=240, note='factorial designs of every 2-latent model of 3 (4) variables'),
        Space('order', order_cases(tier), check_order, limit=120, note='2-3 clusters of 2-3 variables in every order'),
        Space('search', search_cases(tier), check_search, limit=300, chunk=1, note='measurement models <= 4 latents and 14 columns; trees with <= 10 (11) leaves'),
    ]
