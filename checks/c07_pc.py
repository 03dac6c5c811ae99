"""C07: PC with an exact d-separation oracle returns the CPDAG and valid separating sets."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C07'
TITLE = 'PC with exact independence information recovers exactly the equivalence class'
ASSUMPTIONS = ['independence answered by the d-separation test shipped with the library; every DAG up to 4 nodes, every shape of 5 (6 thorough), families up to 20 (27 thorough)']

ALPHAS = [0.05, 0.5, 1.0, 1e-9]


def essential(par):
    n = len(par)
    return ref.cpdag_table(n)[par] if n <= 4 else ref.essential(par) if n <= 12 else ref.essential_sparse(par)


def fit(pc, form, n, names, g):
    """data forms a caller can use; returns the names the result must carry."""
    import numpy as np
    import pandas as pd
    from cdmir.utils.independence import Dsep
    arr = np.arange(3.0 * n).reshape(3, n)
    if form == 0:
        pc.fit(arr, names, Dsep, true_graph=g)
    elif form == 1:
        pc.fit(np.empty((0, n)), var_names=names, indep_cls=Dsep, true_graph=g)
    elif form == 2:
        pc.fit(pd.DataFrame(arr, columns=names), indep_cls=Dsep, true_graph=g)
    elif form == 3:
        pc.fit(pd.DataFrame(arr, columns=['c%d' % i for i in range(n)]), names, Dsep, g)
    elif form == 4:
        pc.fit(arr, None, Dsep, true_graph=g)      # names default to 0..n-1
    else:
        pc.fit(data=arr, var_names=tuple(names), indep_cls=Dsep, true_graph=g)


def verify(pc, par, names, order, what, rec):
    from cdmir.graph import PDAG
    n = len(par)
    want = essential(par)
    code = ref.parents_to_code(par)
    where = f'{what} on {impl.show(n, code, names)} with variables {order}'
    got = impl.read(pc.causal_graph, names)
    if got != want:
        raise Violation(f'{where}: learned {impl.show(n, got, names)}; expected {impl.show(n, want, names)}')
    skel = tuple(3 if c else 0 for c in code)
    got = impl.read(pc.skeleton, names)
    if got != skel:
        raise Violation(f'{where}: the skeleton is {impl.show(n, got, names)}; expected {impl.show(n, skel, names)}')
    if not isinstance(pc.causal_graph, PDAG):
        raise Violation('the learned graph is not a PDAG')
    if list(pc.causal_graph.nodes) != list(order) or list(pc.skeleton.nodes) != list(order):
        raise Violation(f'{where}: nodes listed as {list(pc.causal_graph.nodes)}')
    idx = {x: i for i, x in enumerate(names)}
    adj = ref.skeleton(par)
    for x, y in permutations(range(n), 2):
        if adj[x] >> y & 1:
            continue
        s = pc.sep_set[(names[x], names[y])]
        ids = [idx[v] for v in s]
        if x in ids or y in ids or not ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in set(ids))):
            raise Violation(f'{where}: the recorded set {set(s)} does not separate {names[x]} and {names[y]}')
        if set(s) != set(pc.sep_set[(names[y], names[x])]):
            raise Violation(f'{where}: the recorded sets for the two orders of {names[x]}, {names[y]} differ')
    rec.step()


def check(case, rec):
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    par, variants = case
    par = tuple(par)
    n = len(par)
    for fast, style, order, form, alpha in variants:
        names = impl.names_for(n, style)
        if form == 4:
            # default names are positions, so the graph's labels are too
            names = list(range(n))
            order = list(range(n))
        listed = [names[i] for i in order]
        g = impl.build_dag(par, names)
        before = [tuple(e) for e in g.edges]
        method = fast_adjacency_search if fast else adjacency_search
        loud = (form + alpha + fast + sum(i * v for i, v in enumerate(order))) % 3
        kw = dict(verbose=True) if loud == 1 else {}
        pc = PC(alpha=ALPHAS[alpha], adjacency_search_method=method, **kw) if fast or alpha or kw else PC()
        if pc.get_verbose() != bool(kw):
            raise Violation(f'PC({kw}) reads back as verbose={pc.get_verbose()!r}')
        if loud == 2:
            pc.set_verbose(True)
            if not pc.get_verbose():
                raise Violation('set_verbose(True) has no effect')
        fit(pc, form, n, listed, g)
        verify(pc, par, names, listed, f'{method.__name__}, data form {form}, alpha {ALPHAS[alpha]}', rec)
        if [tuple(e) for e in g.edges] != before:
            raise Violation('fitting changed the graph given to the oracle')
        if pc.get_alpha() != ALPHAS[alpha]:
            raise Violation('fitting changed alpha')
    rec.state()
    rec.trace()
    if n >= 4:
        rec.sample(dict(dag=impl.show(n, ref.parents_to_code(par)), variants=len(variants)))


def check_refit(case, rec):
    """histories: fitting one object again forgets everything about the first data set."""
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    par1, pars2, fast = case
    par1 = tuple(par1)
    for k, par2 in enumerate(pars2):
        par2 = tuple(par2)
        pc = PC(adjacency_search_method=fast_adjacency_search if fast else adjacency_search)
        n1, n2 = len(par1), len(par2)
        names1, names2 = impl.names_for(n1, 0), impl.names_for(n2, 0)
        forms = (3, 3) if k % 2 else ((0, 1, 2, 5)[k // 2 % 4], (1, 2, 5, 0)[k // 2 % 4])
        fit(pc, forms[0], n1, names1, impl.build_dag(par1))
        first, skel = pc.causal_graph, pc.skeleton
        snap = impl.read(first, names1), impl.read(skel, names1)
        fit(pc, forms[1], n2, names2, impl.build_dag(par2))
        verify(pc, par2, names2, names2, 'second fit', rec)
        if (impl.read(first, names1), impl.read(skel, names1)) != snap:
            raise Violation('a second fit changed the graph returned by the first')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.discovery.constraint  # noqa
    thorough = tier == 'thorough'
    sp = []
    for n in (2, 3, 4):
        perms = list(permutations(range(n)))
        cases = []
        for k, par in enumerate(ref.dags(n)):
            vs = []
            for j in range(len(perms) if (thorough or n < 4) else 8):
                for fast in (0, 1):
                    vs.append([fast, (k + j + fast) % 6, perms[(k * 7 + j * (1 if thorough or n < 4 else 5) + seed) % len(perms)],
                               (k + j + 3 * fast) % 6, (k + j) % 4])
            cases.append([par, vs])
        sp.append(Space(f'DAGs of {n} nodes', cases, check, limit=30,
                        note='every labelled DAG x both searches x variable orders x data forms x thresholds'))
    perms = list(permutations(range(5)))
    cases = []
    src = list(ref.dags(5)) if thorough else list(ref.topo_dags(5))
    for k, par in enumerate(src):
        if not thorough:
            par = ref.relabel(par, perms[(k * 37 + seed * 13) % 120])
        cases.append([par, [[f, (k + seed) % 6, perms[(k * 17 + f * 41 + seed) % 120], (k + f) % 6, k % 4] for f in (0, 1)]])
    sp.append(Space('DAGs of 5 nodes', cases, check, limit=30,
                    note='every DAG shape of 5 nodes (thorough: every labelled DAG) x both searches'))
    big = []
    for n in (6, 7, 8) + ((9, 10) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            if ref.essential(par) is None:
                continue
            for r in range(3 if thorough else 1 + (n < 8)):
                big.append([ref.relabel(par, ref.shuffled(n, k + r + seed)),
                            [[f, (k + r + seed) % 6, ref.shuffled(n, 2 * k + r + f), (k + f) % 6, k % 4] for f in (0, 1)]])
    sp.append(Space('structures of 6 to 8 nodes', big, check, limit=120, note='18 families of DAGs x both searches'))
    far = [[ref.relabel(par, ref.shuffled(n, k + n + seed)), [[f, (k + seed) % 6, ref.shuffled(n, 2 * k + f), (k + f) % 6, k % 4]]]
           for n in (13, 20) + ((16, 27) if thorough else ()) for k, par in enumerate(ref.sparse(n)) for f in (0, 1)]
    sp.append(Space('sparse structures of 13 and 20 nodes', far, check, chunk=1, limit=300, note='the families without hubs and triangles x both searches'))
    three = list(ref.dags(3))
    cases = [[p, three + list(ref.unlabelled_dags(4)), f] for p in list(ref.dags(3)) + list(ref.unlabelled_dags(4)) for f in (0, 1)]
    sp.append(Space('refit', cases, check_refit, limit=60, note='every ordered pair of data sets with <= 4 variables'))
    if thorough:
        perms = list(permutations(range(6)))
        cases = [[ref.relabel(p, perms[(k * 101 + seed * 31) % 720]),
                  [[f, (k + seed) % 6, perms[(k * 17 + f * 41 + seed) % 720], (k + f) % 6, k % 4] for f in (0, 1)]]
                 for k, p in enumerate(ref.unlabelled_dags(6))]
        sp.append(Space('DAGs of 6 nodes', cases, check, limit=60, note='one DAG per isomorphism class on 6 nodes x both searches'))
    return sp
