"""C04: DAG -> CPDAG gives the essential graph of the Markov equivalence class."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C04'
TITLE = 'A DAG converts to exactly the essential graph of its Markov equivalence class'
ASSUMPTIONS = ['every DAG up to 4 nodes, DAGs of 5 and 6 nodes, families up to 13 (15 thorough)']


def essential(par):
    n = len(par)
    return ref.cpdag_table(n)[par] if n <= 4 else ref.essential(par) if n <= 12 else ref.essential_sparse(par)


def check(case, rec):
    from cdmir.graph import PDAG
    from cdmir.graph.dag2cpdag import dag2cpdag
    par, variants = case
    par = tuple(par)
    n = len(par)
    want = essential(par)
    code = ref.parents_to_code(par)
    for style, node_order, edge_order in variants:
        names = impl.names_for(n, style)
        g = impl.build_dag(par, names, node_order, edge_order)
        before = [tuple(e) for e in g.edges], list(g.nodes)
        out = dag2cpdag(g)
        rec.step()
        got = impl.read(out, names)
        if got != want:
            raise Violation(f'CPDAG of {impl.show(n, code, names)} (nodes listed {list(g.nodes)}): '
                            f'got {impl.show(n, got, names)}; expected {impl.show(n, want, names)}')
        if not isinstance(out, PDAG):
            raise Violation(f'the result is a {type(out).__name__}, not a PDAG')
        if list(out.nodes) != before[1]:
            raise Violation(f'the nodes come back as {list(out.nodes)}, not in the order {before[1]}')
        if ([tuple(e) for e in g.edges], list(g.nodes)) != before:
            raise Violation('the conversion changed its input')
    # the same object, edited into another DAG, converts to that DAG's essential graph
    par2 = ref.relabel(par, [(i + 1) % n for i in range(n)])
    impl.rewire(g, names, ref.parents_to_code(par2))
    again = dag2cpdag(g)
    rec.step()
    got, want2 = impl.read(again, names), essential(par2)
    if got != want2:
        raise Violation(f'after converting {impl.show(n, code, names)} the graph is edited into '
                        f'{impl.show(n, ref.parents_to_code(par2), names)}: got {impl.show(n, got, names)}; '
                        f'expected {impl.show(n, want2, names)}')
    if impl.read(out, names) != want:
        raise Violation(f'converting an edited graph changed the earlier result {impl.show(n, want, names)}')
    # argument and results live separate lives
    first = impl.picture(out)
    bad = impl.entangled(g, again)
    if bad:
        raise Violation(f'DAG {impl.show(n, ref.parents_to_code(par2), names)}: {bad}')
    if impl.picture(out) != first:
        raise Violation('editing one result or the argument changes an earlier result')
    rec.state()
    rec.trace()
    if n >= 4:
        rec.sample(dict(dag=impl.show(n, code), cpdag=impl.show(n, want)))


def variants(n, k, r, seed):
    if n > 6:
        return [[(k + j + seed) % 6, ref.shuffled(n, k + 3 * j + seed), None] for j in range(r)]
    perms = list(permutations(range(n)))
    ne = n * (n - 1) // 2
    out = []
    for j in range(r):
        out.append([(k + j + seed) % 6, perms[(k * 7 + j * 5 + seed) % len(perms)],
                    [(x + k + j) % ne for x in range(ne)] if j % 2 else None])
    return out


def spaces(tier, seed):
    import cdmir.graph.dag2cpdag  # noqa
    thorough = tier == 'thorough'
    sp = []
    for n in range(2, 5):
        perms = list(permutations(range(n)))
        cases = []
        for k, par in enumerate(ref.dags(n)):
            vs = [[(k + j) % 6, p, None] for j, p in enumerate(perms)]
            cases.append([par, vs + variants(n, k, 3, seed)])
        sp.append(Space(f'DAGs of {n} nodes', cases, check,
                        note='every labelled DAG under every order of listing its nodes and several name kinds',
                        init=lambda n=n: ref.cpdag_table(n)))
    perms = list(permutations(range(5)))
    cases = []
    for k, par in enumerate(ref.dags(5)):
        if thorough or (k + seed) % 6 == 0:
            cases.append([par, variants(5, k, 2 if thorough else 1, seed)])
    sp.append(Space('DAGs of 5 nodes', cases, check,
                    note='a sixth of the labelled DAGs, one node order (thorough: all, 2 orders)'))
    big = []
    for n in (6, 7, 8, 9) + ((10, 11, 12) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            if ref.essential(par) is None:
                continue
            for r in range(4 if thorough else 2 if n < 9 else 1):
                big.append([ref.relabel(par, ref.shuffled(n, k + r + seed)), variants(n, k + r, 2, seed)])
    sp.append(Space('structures of 6 to 9 nodes', big, check, note='18 families of DAGs, the class enumerated by covered-edge reversals'))
    far = [[ref.relabel(par, ref.shuffled(n, k + n + seed)), variants(n, k, 1, seed)]
           for n in (10, 13) + ((11, 12, 15) if thorough else ()) for k, par in enumerate(ref.sparse(n))]
    sp.append(Space('sparse structures of 10 and 13 nodes', far, check, chunk=1, limit=300, note='the families without hubs and triangles'))
    src = [p for k, p in enumerate(ref.unlabelled_dags(6)) if thorough or (k + seed) % 6 == 0]
    perms = list(permutations(range(6)))
    cases = [[ref.relabel(p, perms[(k * 101 + seed * 31) % 720]), variants(6, k, 1, seed)] for k, p in enumerate(src)]
    if cases:
        sp.append(Space('DAGs of 6 nodes', cases, check, note='one DAG per isomorphism class on 6 nodes (quick: a sixth)'))
    return sp
