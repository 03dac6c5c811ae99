"""C02: parents, children, degrees, topological order and acyclicity of every digraph."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C02'
TITLE = 'Directed-graph structure queries and topological order are exact'
ASSUMPTIONS = ['digraphs without parallel or opposite edges (the class rejects them), every one up to 5 nodes, beyond that classes of 6 nodes and families up to 1500']


def fingerprint(g):
    return (list(g.nodes), [tuple(e) for e in g.edges])


def probe(g):
    g.topo_sort(), g.is_acyclic()
    for v in list(g.nodes):
        list(g.get_parents(v)), list(g.get_children(v)), g.in_degree(v), g.out_degree(v)


def check(case, rec):
    n, code, style, node_order, edge_order, mode = case
    from cdmir.graph import DiGraph, Edge
    names = impl.names_for(n, style)
    par = ref.code_to_parents(n, code)
    if mode == 0:
        g = impl.build(DiGraph, n, code, names, node_order, edge_order)
    else:
        # same graph reached by reversing every edge and an extra node that is removed again
        rev = [{0: 0, 1: 2, 2: 1}[c] for c in code]
        g = impl.build(DiGraph, n, rev, names, node_order, edge_order)
        # everything is asked once in the other state, so that a remembered answer would show
        probe(g)
        g.add_node('extra node')
        probe(g)
        for v in range(n):
            g.add_edge(Edge('extra node', names[v]))
        for u, v in ref.edges_of(par):
            g.add_edge(Edge(names[u], names[v]), overwrite=True)
        probe(g)
        g.remove_node('extra node')
        # the same nodes and the same number of edges, all of them the other way
        for u, v in ref.edges_of(par):
            g.add_edge(Edge(names[v], names[u]), overwrite=True)
        probe(g)
        for u, v in ref.edges_of(par):
            g.remove_edge(names[u], names[v])
            g.add_edge(Edge(names[u], names[v]))
    before = fingerprint(g)
    ch = ref.children_of(par)
    where = f'nodes {[names[i] for i in (node_order or range(n))]!r}, {impl.show(n, code, names)}'
    for v in range(n):
        for f, mask in (('get_parents', par[v]), ('get_children', ch[v])):
            got = list(getattr(g, f)(names[v]))
            want = [names[u] for u in ref.bits(mask)]
            if len(got) != len(want) or set(got) != set(want):
                raise Violation(f'{where}: {f}({names[v]!r}) = {got!r}, expected {want!r}')
        if g.in_degree(names[v]) != bin(par[v]).count('1'):
            raise Violation(f'{where}: in_degree({names[v]!r}) = {g.in_degree(names[v])}')
        if g.out_degree(names[v]) != bin(ch[v]).count('1'):
            raise Violation(f'{where}: out_degree({names[v]!r}) = {g.out_degree(names[v])}')
    ac = ref.acyclic(par)
    got = g.is_acyclic()
    if bool(got) is not ac:
        raise Violation(f'{where}: is_acyclic() = {got!r}, expected {ac}')
    order = list(g.topo_sort())
    pos = {x: k for k, x in enumerate(order)}
    if len(pos) != len(order):
        raise Violation(f'{where}: topo_sort() repeats a node: {order!r}')
    if not set(order) <= set(names):
        raise Violation(f'{where}: topo_sort() invents a node: {order!r}')
    # exactly the nodes without an ancestor on a cycle can be ordered
    left = (1 << n) - 1
    moved = True
    while moved:
        moved = False
        for v in range(n):
            if left >> v & 1 and not par[v] & left:
                left &= ~(1 << v)
                moved = True
    want = {names[v] for v in range(n) if not left >> v & 1}
    if set(order) != want:
        raise Violation(f'{where}: topo_sort() = {order!r}, expected an order of {sorted(map(str, want))}')
    for u, v in ref.edges_of(par):
        if names[v] in pos and not (names[u] in pos and pos[names[u]] < pos[names[v]]):
            raise Violation(f'{where}: topo_sort() = {order!r} lists {names[v]!r} before its parent {names[u]!r}')
    if fingerprint(g) != before:
        raise Violation(f'{where}: a query changed the graph')
    if list(g.topo_sort()) != order:
        raise Violation(f'{where}: topo_sort() differs between two calls')
    rec.state()
    rec.step(4 * n + 3)
    rec.trace()
    if ac and n >= 3:
        rec.sample(dict(graph=impl.show(n, code, names), order=[str(x) for x in order]))


def long_edges(kind, n):
    r = range(n)
    h = n // 2
    return {'chain': [(i, i + 1) for i in r[:-1]], 'fork': [(0, i) for i in r[1:]], 'sink': [(i, 0) for i in r[1:]],
            'zigzag': [(i, i + 1) if i % 2 else (i + 1, i) for i in r[:-1]],
            'meeting': [(i, i + 1) for i in range(h)] + [(i + 1, i) for i in range(h, n - 1)],
            'tree': [((i - 1) // 2, i) for i in r[1:]], 'in tree': [(i, (i - 1) // 2) for i in r[1:]],
            'band': [(i, j) for i in r for j in (i + 1, i + 2) if j < n],
            'cycle': [(i, (i + 1) % n) for i in r], 'chain into cycle': [(i, i + 1) for i in r[:-1]] + [(n - 1, h)],
            'cycle into chain': [(i, i + 1) for i in r[:-1]] + [(h, 0)], 'empty': []}[kind]


def check_long(case, rec):
    """hundreds of nodes in a row: nothing may depend on a depth of recursion or a width."""
    from cdmir.graph import DiGraph, Edge
    kind, n, k = case
    es = long_edges(kind, n)
    name = ref.shuffled(n, k) if k % 2 else ['v%d' % i for i in range(n)]
    listed = ref.shuffled(n, k + 1)
    g = DiGraph([name[i] for i in (listed if k % 3 else range(n))])
    for i in ref.shuffled(len(es), k + 2):
        g.add_edge(Edge(name[es[i][0]], name[es[i][1]]))
    pa, ch = {x: [] for x in name}, {x: [] for x in name}
    for u, v in es:
        pa[name[v]].append(name[u])
        ch[name[u]].append(name[v])
    where = f'{kind} of {n} nodes ({k})'
    for x in name:
        if sorted(g.get_parents(x)) != sorted(pa[x]) or sorted(g.get_children(x)) != sorted(ch[x]) \
                or g.in_degree(x) != len(pa[x]) or g.out_degree(x) != len(ch[x]):
            raise Violation(f'{where}: the parents or children of {x!r} are wrong')
    count = {x: len(pa[x]) for x in name}
    todo = [x for x in name if not count[x]]
    free = set(todo)
    while todo:
        for y in ch[todo.pop()]:
            count[y] -= 1
            if not count[y]:
                free.add(y)
                todo.append(y)
    if bool(g.is_acyclic()) is not (len(free) == n):
        raise Violation(f'{where}: is_acyclic() = {g.is_acyclic()}')
    order = list(g.topo_sort())
    pos = {x: i for i, x in enumerate(order)}
    if len(order) != len(free) or set(order) != free:
        raise Violation(f'{where}: topo_sort() lists {len(order)} nodes, {len(free)} can be ordered')
    for x in order:
        if any(pos.get(p, n) > pos[x] for p in pa[x]):
            raise Violation(f'{where}: topo_sort() lists {x!r} before a parent')
    if list(g.topo_sort()) != order:
        raise Violation(f'{where}: topo_sort() differs between two calls')
    rec.state()
    rec.step(4 * n + 3)
    rec.trace()


def spaces(tier, seed):
    import cdmir.graph  # noqa
    thorough = tier == 'thorough'
    small = []
    for n in range(0, 5):
        perms = list(permutations(range(n)))
        eperm = list(range(n * (n - 1) // 2))
        for k, code in enumerate(ref.oriented_codes(n)):
            for pi, p in enumerate(perms):
                eo = eperm if (k + pi) % 2 else eperm[::-1]
                small.append([n, code, (k + pi + seed) % 6, p, eo, (k + pi) % 2])
    sp = [Space('digraphs <= 4 nodes x node orders', small, check,
                note='every digraph on <= 4 labelled nodes x every node order')]
    five = []
    perms = list(permutations(range(5)))
    ne = 10
    for k, code in enumerate(ref.oriented_codes(5)):
        p = perms[(k * 37 + seed) % 120]
        eo = [(x + k) % ne for x in range(ne)]
        five.append([5, code, (k + seed) % 6, p, eo, k % 2])
    sp.append(Space('digraphs of 5 nodes', five, check, note='every digraph on 5 labelled nodes'))
    big = []
    for n in (6, 7, 9, 12, 20, 33) + ((8, 10, 11, 15, 48) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            for r in range(4 if thorough else 2):
                q = ref.relabel(par, ref.shuffled(n, k + r + seed))
                code = list(ref.parents_to_code(q))
                big.append([n, code, (k + r) % 6, ref.shuffled(n, 2 * k + r), None, r % 2])
                es = [e for e, c in enumerate(code) if c]
                # one edge of the structure turned round, and one edge added against the order
                for e in es[r::max(1, len(es) // 3)]:
                    c2 = list(code)
                    c2[e] = 3 - c2[e]
                    big.append([n, c2, (k + r + e) % 6, ref.shuffled(n, k + e), None, 0])
                left = [e for e, c in enumerate(code) if not c]
                for e in left[r::max(1, len(left) // 3)]:
                    for c in (1, 2):
                        c2 = list(code)
                        c2[e] = c
                        big.append([n, c2, (k + r + e) % 6, ref.shuffled(n, k + e), None, 0])
    sp.append(Space('structures of 6 to 33 nodes', big, check, note='18 families (chains, trees, ladders, wheels, complete, ...), one edge turned or added'))
    far = [[kind, n, k + seed] for n in (60, 300, 1500) + ((5000,) if thorough else ())
           for k, kind in enumerate(('empty', 'chain', 'fork', 'sink', 'zigzag', 'meeting', 'tree', 'in tree', 'band', 'cycle',
                                     'chain into cycle', 'cycle into chain')) for k in (k, k + 1, k + 2)]
    sp.append(Space('structures of 60 to 1500 nodes', far, check_long, chunk=1, limit=200, note='12 families under three listings'))
    six = []
    perms = list(permutations(range(6)))
    if not thorough:
        for k, par in enumerate(ref.unlabelled_dags(6)):
            q = ref.relabel(par, perms[(k * 101 + seed) % 720])
            code = list(ref.parents_to_code(q))
            six.append([6, code, (k + seed) % 6, None, None, k % 2])
            if k % 3:
                continue
            e = next((e for e in range(15) if code[(e + k) % 15]), None)
            if e is not None:
                e = (e + k) % 15
                code[e] = 3 - code[e]
                six.append([6, code, (k + seed) % 6, None, None, k % 2])
        sp.append(Space('DAGs of 6 nodes', six, check, note='one DAG per isomorphism class on 6 nodes, and it with one edge turned round'))
    else:
        for k, par in enumerate(ref.topo_dags(6)):
            for r in range(3):
                q = ref.relabel(par, perms[(k * 101 + 311 * r + seed) % 720])
                six.append([6, ref.parents_to_code(q), (k + seed) % 6, None, None, (k + r) % 2])
        # 6 nodes with exactly one back edge closing a cycle
        sp.append(Space('DAGs of 6 nodes', six, check, note='every DAG shape on 6 nodes under 3 labellings'))
        cyc = []
        for k, par in enumerate(ref.topo_dags(6)):
            code = list(ref.parents_to_code(par))
            for e in range(len(code)):
                if code[e] == 1 and (k + e) % 3 == 0:
                    c2 = list(code)
                    c2[e] = 2
                    cyc.append([6, c2, (k + e) % 4, None, None, 0])
        sp.append(Space('6 nodes, one reversed edge', cyc, check, note='DAG shapes with one edge reversed'))
    return sp
