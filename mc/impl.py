"""Bridges between the reference encodings and the public graph classes."""
from mc import ref


def names_for(n, style=0):
    if n > 8:
        pools = [list(range(n)), ['x%d' % (i * 7 % 101) for i in range(n)], None,
                 [(i * 11 + 7) % 997 for i in range(n)], [chr(65 + i % 26) * (1 + i // 26) for i in range(n)], [str(i) if i % 2 else i for i in range(n)]]
        pools[2] = [i if i % 3 == 0 else 'n%d' % i if i % 3 == 1 else (i, 'a') for i in range(n)]
        return pools[style % 6]
    pools = [
        list(range(8)),
        ['x3', 'b', 'x1', 'zeta', 'a', 'x10', 'x2', 'q'],
        [5, 'five', (5, 'a'), 2.5, frozenset({1}), 'x', 0, -1],
        [7, 3, 11, 0, 5, 2, 9, 1],
        ['X', 'Y', 'Z', 'W', 'V', 'U', 'T', 'S'],
        [1, '1', '10', 'a', '2', 2, 'A', (1,)],
    ]
    return pools[style % len(pools)][:n]


def build(cls, n, code, names=None, node_order=None, edge_order=None, flip=False):
    """a graph object for a pdag code.  node_order: order in which the nodes are
    listed; edge_order: order in which the pairs are inserted; flip: give each
    undirected edge from the other end."""
    from cdmir.graph import Edge, Mark
    T, A = Mark.Tail, Mark.Arrow
    names = names or list(range(n))
    g = cls([names[i] for i in (node_order or range(n))])
    ps = ref.pairs(n)
    for k in (edge_order or range(len(ps))):
        i, j = ps[k]
        c = code[k]
        if c == 1:
            g.add_edge(Edge(names[i], names[j], T, A))
        elif c == 2:
            g.add_edge(Edge(names[j], names[i], T, A))
        elif c == 3:
            if flip:
                i, j = j, i
            g.add_edge(Edge(names[i], names[j], T, T))
        elif c == 4:
            g.add_edge(Edge(names[i], names[j], A, A))
    return g


def build_dag(par, names=None, node_order=None, edge_order=None):
    from cdmir.graph import DiGraph
    return build(DiGraph, len(par), ref.parents_to_code(par), names, node_order, edge_order)


def read(g, names):
    """pdag code of a graph object, through the public edge listing; any mark
    combination other than directed/undirected reads as 4 (<->) or 9."""
    from cdmir.graph import Mark
    T, A = Mark.Tail, Mark.Arrow
    n = len(names)
    idx = {x: i for i, x in enumerate(names)}
    d = {}
    listed = list(g.nodes)
    if len(listed) != n or set(listed) != set(names):
        raise AssertionError(f'nodes are {listed}, expected {names}')
    for e in g.edges:
        u, v, mu, mv = e
        i, j = idx[u], idx[v]
        if i > j:
            i, j, mu, mv = j, i, mv, mu
        if (i, j) in d:
            raise AssertionError(f'edge {u}-{v} listed twice')
        d[(i, j)] = {(T, A): 1, (A, T): 2, (T, T): 3, (A, A): 4}.get((mu, mv), 9)
    return tuple(d.get(p, 0) for p in ref.pairs(n))


def show(n, code, names=None):
    names = names or list(range(n))
    sym = {1: '->', 2: '<-', 3: '--', 4: '<->', 9: '?'}
    return ', '.join(f'{names[i]} {sym[c]} {names[j]}' for (i, j), c in zip(ref.pairs(n), code) if c) or '(no edges)'


def picture(g):
    """everything a graph object says about itself through its public methods"""
    nodes = list(g.nodes)
    return (nodes, [tuple(e) for e in g.edges], {x: list(g.get_neighbours(x)) for x in nodes},
            g.to_numpy().tolist(), g.number_of_nodes(), g.number_of_edges())


def entangled(a, b):
    """edit graph a, then graph b, and say what the other one noticed (None: nothing).
    Both graphs are spoilt."""
    from cdmir.graph import DiGraph, Edge, Mark

    def edits(g, new):
        nodes, edges = list(g.nodes), [tuple(e) for e in g.edges]
        if edges:
            yield f'removing the edge {edges[0][0]}, {edges[0][1]}', lambda: g.remove_edge(edges[0][0], edges[0][1])
        if len(edges) > 1:
            u, v, mu, mv = edges[-1]
            yield f'reversing the edge {u}, {v}', lambda: g.add_edge(Edge(v, u, Mark.Tail, Mark.Arrow), overwrite=True)
        yield f'adding the node {new}', lambda: g.add_node(new)
        yield f'connecting the node {new}', lambda: g.add_edge(Edge(nodes[0], new, Mark.Tail, Mark.Arrow))
        yield f'removing the node {nodes[-1]}', lambda: g.remove_node(nodes[-1])

    for x, y, new, who in ((a, b, 'new1', ('argument', 'result')), (b, a, 'new2', ('result', 'argument'))):
        before = picture(y)
        for what, edit in edits(x, new):
            edit()
            if picture(y) != before:
                return f'{what} in the {who[0]} changes the {who[1]} from {before[:2]} to {picture(y)[:2]}'
    return None


def rewire(g, names, code):
    """edit a graph object in place until it has exactly the edges of a pdag code"""
    from cdmir.graph import Edge, Mark
    for e in list(g.edges):
        g.remove_edge(e.node_u, e.node_v)
    for (i, j), c in zip(ref.pairs(len(names)), code):
        if c == 2:
            i, j = j, i
        if c:
            g.add_edge(Edge(names[i], names[j], Mark.Tail, Mark.Tail if c == 3 else Mark.Arrow))
