"""C01: graph objects behave as a mixed graph under every operation history."""
import copy
import warnings
from itertools import combinations, permutations, product

from mc.core import Space, Violation

PROPERTY = 'C01'
TITLE = 'Graph objects are a faithful mixed graph under every operation history'
ASSUMPTIONS = [
    'edges join two distinct nodes (self loops are outside the statement)',
    'at most 3 nodes alive at once; marks tail/arrow/circle; node labels int, str, tuple',
]

MARKS = ('T', 'A', 'C')


def _env():
    from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
    M = {'T': Mark.Tail, 'A': Mark.Arrow, 'C': Mark.Circle}
    return dict(DiGraph=DiGraph, Graph=Graph, PDAG=PDAG), Edge, M


ALLOWED = {
    'Graph': {(a, b) for a in MARKS for b in MARKS},
    'PDAG': {(a, b) for a in 'TA' for b in 'TA'},
    'DiGraph': {('T', 'A')},
}
VALUE = {'T': -1, 'A': 1, 'C': 2}


class Model:
    """nodes in insertion order; edge[(u,v)] = mark at v (both directions kept)."""

    def __init__(self, cls, nodes=()):
        self.cls = cls
        self.nodes = list(nodes)
        self.e = {}

    def clone(self):
        m = Model(self.cls, self.nodes)
        m.e = dict(self.e)
        return m

    def state(self):
        return tuple(self.nodes), frozenset(self.e.items())

    # every op returns True if accepted, False if it must be rejected
    def add_node(self, u):
        if u not in self.nodes:
            self.nodes.append(u)
        return True

    def remove_node(self, u):
        if u not in self.nodes:
            return False
        self.nodes.remove(u)
        self.e = {k: v for k, v in self.e.items() if u not in k}
        return True

    def add_edge(self, u, v, mu, mv, over):
        if (mu, mv) not in ALLOWED[self.cls]:
            return False
        if u not in self.nodes or v not in self.nodes:
            return False
        if (u, v) in self.e and not over:
            return False
        self.e[(u, v)] = mv
        self.e[(v, u)] = mu
        return True

    def remove_edge(self, u, v):
        if u not in self.nodes or v not in self.nodes:
            return False
        self.e.pop((u, v), None)
        self.e.pop((v, u), None)
        return True

    def many(self, subs):
        for s in subs:
            if not apply_model(self, s):
                return False
        return True


def apply_model(m, op):
    k = op[0]
    if k == 'an':
        return m.add_node(op[1])
    if k == 'rn':
        return m.remove_node(op[1])
    if k == 'ae':
        return m.add_edge(*op[1:])
    if k == 're':
        return m.remove_edge(op[1], op[2])
    if k == 'ans':
        return m.many([('an', u) for u in op[1]])
    if k == 'rns':
        return m.many([('rn', u) for u in op[1]])
    if k == 'rnsown':
        return m.many([('rn', u) for u in list(m.nodes)])
    if k == 'aes':
        return m.many([('ae',) + tuple(e) + (op[2],) for e in op[1]])
    if k == 'complete':
        return m.many([('ae', u, v, 'T', 'T', False) for u, v in combinations(list(m.nodes), 2)])
    raise KeyError(k)


def apply_real(g, op, Edge, M):
    k = op[0]
    if k == 'an':
        g.add_node(op[1])
    elif k == 'rn':
        g.remove_node(op[1])
    elif k == 'ae':
        u, v, mu, mv, over = op[1:]
        if over:
            g.add_edge(Edge(u, v, M[mu], M[mv]), overwrite=True)
        else:
            g.add_edge(Edge(u, v, M[mu], M[mv]))
    elif k == 're':
        g.remove_edge(op[1], op[2])
    elif k == 'ans':
        g.add_nodes(u for u in op[1])
    elif k == 'rns':
        g.remove_nodes_from(u for u in op[1])
    elif k == 'rnsown':
        g.remove_nodes_from(g.nodes)
    elif k == 'aes':
        es = (Edge(e[0], e[1], M[e[2]], M[e[3]]) for e in op[1])
        if op[2]:
            g.add_edges(es, overwrite=True)
        else:
            g.add_edges(es)
    elif k == 'complete':
        g.create_complete_undirected_graph()


def observe(g, m, pool, M, where):
    """compare everything a user can see with the model."""
    def bad(what, got, want):
        raise Violation(f'{where}: {what}: got {got!r}, expected {want!r}')

    inv = {v: k for k, v in M.items()}
    nodes = list(g.nodes)
    if nodes != m.nodes:
        bad('nodes', nodes, m.nodes)
    if g.number_of_nodes() != len(m.nodes):
        bad('number_of_nodes', g.number_of_nodes(), len(m.nodes))
    want = [(u, v, m.e[(v, u)], m.e[(u, v)]) for u, v in combinations(m.nodes, 2) if (u, v) in m.e]
    got = [(e.node_u, e.node_v, inv.get(e.mark_u), inv.get(e.mark_v)) for e in g.edges]
    if got != want:
        bad('edges', got, want)
    if g.number_of_edges() != len(want):
        bad('number_of_edges', g.number_of_edges(), len(want))
    for u in m.nodes:
        nb = list(g.get_neighbours(u))
        wn = [v for v in m.nodes if (u, v) in m.e]
        if len(nb) != len(wn) or set(nb) != set(wn):
            bad(f'neighbours of {u!r}', nb, wn)
    for u, v in permutations(m.nodes, 2):
        c = (u, v) in m.e
        if g.is_connected(u, v) is not c:
            bad(f'is_connected({u!r},{v!r})', g.is_connected(u, v), c)
        mv = m.e.get((u, v))
        mu = m.e.get((v, u))
        e = g.get_edge(u, v)
        if c:
            t = (e.node_u, e.node_v, inv.get(e.mark_u), inv.get(e.mark_v)) if e is not None else None
            if t != (u, v, mu, mv):
                bad(f'get_edge({u!r},{v!r})', t, (u, v, mu, mv))
        elif e is not None:
            bad(f'get_edge({u!r},{v!r})', e, None)
        for f, w in (('is_arrow', mv == 'A'), ('is_tail', mv == 'T'), ('is_circle', mv == 'C'),
                     ('is_fully_directed', mu == 'T' and mv == 'A'),
                     ('is_fully_undirected', mu == 'T' and mv == 'T')):
            r = bool(getattr(g, f)(u, v))
            if r is not w:
                bad(f'{f}({u!r},{v!r})', r, w)
    n = len(m.nodes)
    wantm = [[VALUE[m.e[(m.nodes[c], m.nodes[r])]] if (m.nodes[c], m.nodes[r]) in m.e else 0 for c in range(n)]
             for r in range(n)]
    a = g.to_numpy()
    if a.shape != (n, n) or a.tolist() != wantm or n and a.dtype.kind != 'i':
        bad('to_numpy', a.tolist(), wantm)
    b = g.to_numpy(transpose=True)
    if b.tolist() != [list(x) for x in zip(*wantm)]:
        bad('to_numpy(transpose)', b.tolist(), 'the transpose')


LEFT = {'T': '-', 'A': '<', 'C': 'o'}
RIGHT = {'T': '-', 'A': '>', 'C': 'o'}


def observe_text(g, m, where):
    """the printed form names every node and every edge with its marks."""
    want = [f'{k + 1}. {u} {LEFT[m.e[(v, u)]]}-{RIGHT[m.e[(u, v)]]} {v}'
            for k, (u, v) in enumerate(p for p in combinations(m.nodes, 2) if p in m.e)]
    lines = [x.strip() for x in str(g).splitlines()]
    if [x for x in lines if x[:1].isdigit() and '. ' in x[:4]] != want:
        raise Violation(f'{where}: printed edges {lines!r}, expected {want!r}')


def observe_frame(g, m, where):
    df = g.to_dataframe()
    n = len(m.nodes)
    wantm = [[VALUE[m.e[(m.nodes[c], m.nodes[r])]] if (m.nodes[c], m.nodes[r]) in m.e else 0 for c in range(n)]
             for r in range(n)]
    if list(df.index) != m.nodes or list(df.columns) != m.nodes or df.values.tolist() != wantm:
        raise Violation(f'{where}: to_dataframe: got {df!r}, expected {wantm}')


def check_missing(g, m, pool, where):
    """queries about absent nodes are rejected and change nothing."""
    for u in pool:
        if u in m.nodes:
            continue
        try:
            r = list(g.get_neighbours(u))
        except (AssertionError, KeyError):
            r = []
        if r:
            raise Violation(f'{where}: get_neighbours({u!r}) is {r!r} though {u!r} is not a node')
        for v in pool:
            if u == v:
                continue
            for a, b in ((u, v), (v, u)):
                try:
                    r = g.is_connected(a, b)
                except AssertionError:
                    continue
                raise Violation(f'{where}: is_connected({a!r},{b!r}) returned {r!r} though {u!r} is not a node')


def run_op(g, m, op, Edge, M, where):
    """apply op to both sides; the real side must accept/reject as the model says."""
    ok = apply_model(m, op)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            apply_real(g, op, Edge, M)
            acc = True
        except AssertionError:
            acc = False
    if acc != ok:
        raise Violation(f'{where}: operation {op!r} was {"accepted" if acc else "rejected"}, '
                        f'expected {"accepted" if ok else "rejected"}')


NAMES = [('a', 'b', 'c'), (0, 'b', (1, 2)), (2, 1, 0), ('c', 0, 'a')]


def all_ops(cls, pool, rich=True):
    ops = []
    for u in pool:
        ops.append(('an', u))
        ops.append(('rn', u))
    marks = sorted(ALLOWED['Graph'])
    for u, v in permutations(pool, 2):
        for mu, mv in marks:
            for over in (False, True):
                ops.append(('ae', u, v, mu, mv, over))
        ops.append(('re', u, v))
    ops.append(('rnsown',))
    if cls == 'PDAG':
        ops.append(('complete',))
    for k in (2, 3):
        for us in permutations(pool, k):
            ops.append(('ans', us))
            ops.append(('rns', us))
    if rich:
        prs = list(permutations(pool, 2))
        for (a, b), (c, d) in product(prs, prs):
            mm = ('T', 'A')
            ops.append(('aes', ((a, b) + mm, (c, d) + mm), False))
            ops.append(('aes', ((a, b) + mm, (c, d) + mm), True))
    return ops


def build_state(cls, pool, order, code, how, env):
    """reach one model state through one of several histories."""
    classes, Edge, M = env
    nodes = [pool[i] for i in order]
    ps = list(combinations(range(len(nodes)), 2))
    m = Model(cls, [])
    allowed = sorted(ALLOWED[cls])
    other = {x: allowed[(k + 1) % len(allowed)] for k, x in enumerate(allowed)}
    hist = []
    if how == 0:                      # constructor + one edge after the other
        g = classes[cls](iter(nodes))
        m.nodes = list(nodes)
    elif how == 1:                    # nodes one by one, with every absent pool node added and removed again
        g = classes[cls]()
        for u in nodes:
            hist.append(('an', u))
        for u in pool:
            if u not in nodes:
                hist += [('an', u)]
                hist += [('ae', u, w, 'T', 'A', False) for w in nodes]
                hist += [('rn', u)]
    else:                             # remove and re-add the nodes first (edges must not survive)
        g = classes[cls](list(reversed(nodes)))
        m.nodes = list(reversed(nodes))
        for u, v in combinations(nodes, 2):
            hist.append(('ae', v, u, 'T', 'A', False))
        for u in nodes:
            hist += [('rn', u), ('an', u)]
    for (i, j), c in zip(ps, code):
        if c is None:
            if how == 1:
                hist += [('ae', nodes[i], nodes[j], 'T', 'A', False), ('re', nodes[j], nodes[i])]
            continue
        mu, mv, fl = c
        u, v = nodes[i], nodes[j]
        if fl:
            u, v = v, u
        if how == 1:
            o = other[(mu, mv)]
            hist.append(('ae', u, v, o[0], o[1], False))
            hist.append(('ae', u, v, mu, mv, True))
        elif how == 2:
            hist += [('ae', u, v, mu, mv, True), ('re', v, u), ('ae', u, v, mu, mv, False)]
        else:
            hist.append(('ae', u, v, mu, mv, False))
    for op in hist:
        run_op(g, m, op, Edge, M, f'building {cls} (history {how})')
    return g, m, len(hist)


def edge_choices(cls):
    """distinct edges between an ordered pair (i<j), as (mark_u, mark_v, flipped)."""
    seen = {}
    for mu, mv in sorted(ALLOWED[cls]):
        for fl in (0, 1):
            key = (mu, mv) if not fl else (mv, mu)
            seen.setdefault(key, (mu, mv, fl))
    return [None] + [seen[k] for k in sorted(seen)]


def check_state_ops(case, rec):
    cls, pi, order, code, how, rich = case
    env = _env()
    classes, Edge, M = env
    pool = NAMES[pi]
    code = [tuple(c) if c is not None else None for c in code]
    g, m, k = build_state(cls, pool, order, code, how, env)
    where = f'{cls} nodes={m.nodes} edges={m.state()[1]}'
    observe(g, m, pool, M, where)
    observe_frame(g, m, where)
    observe_text(g, m, where)
    check_missing(g, m, pool, where)
    rec.state()
    rec.step(k)
    rec.trace()
    if rich == -1:
        return
    before = m.clone()
    for op in all_ops(cls, pool, rich and how == 0):
        g2 = copy.deepcopy(g)
        m2 = m.clone()
        w = where + f' then {op!r}'
        run_op(g2, m2, op, Edge, M, w)
        observe(g2, m2, pool, M, w)
        rec.step()
        rec.trace()
    observe(g, before, pool, M, where + ' after operations on deep copies')
    rec.sample(dict(cls=cls, nodes=[str(x) for x in m.nodes], edges=sorted(map(str, m.state()[1]))))


def hist_ops(cls, pool):
    ops = []
    for u in pool:
        ops += [('an', u), ('rn', u)]
    for u, v in combinations(pool, 2):
        ops += [('ae', u, v, 'T', 'A', False), ('ae', v, u, 'T', 'A', True), ('re', v, u)]
        if cls == 'PDAG':
            ops += [('ae', u, v, 'T', 'T', False), ('ae', v, u, 'A', 'A', True)]
        if cls == 'Graph':
            ops += [('ae', u, v, 'C', 'A', False), ('ae', v, u, 'T', 'C', True)]
    ops.append(('rnsown',))
    return ops


def check_histories(case, rec):
    """every operation sequence of the given length that starts with a prefix."""
    cls, pi, start, prefix, depth, silent = case
    classes, Edge, M = _env()
    pool = NAMES[pi]
    ops = hist_ops(cls, pool)
    nodes = [pool[i] for i in start]
    skip = len(silent)

    def go(g, m, trail):
        w = f'{cls}({nodes}) after {trail!r}'
        if not silent or len(trail) == depth + skip:
            if silent:
                w += f' (read only after the first {skip} and at the end)'
            observe(g, m, pool, M, w)
            rec.trace()
        if len(trail) == depth + skip:
            return
        for op in ops:
            g2 = copy.deepcopy(g)
            m2 = m.clone()
            run_op(g2, m2, op, Edge, M, w + f' then {op!r}')
            rec.step()
            rec.state()
            go(g2, m2, trail + [op])

    g = classes[cls](nodes)
    m = Model(cls, nodes)
    trail = []
    for k in silent:
        run_op(g, m, ops[k], Edge, M, f'{cls}({nodes}) after {trail!r}')
        trail.append(ops[k])
    if silent:
        # read everything once, so that a later answer could come from what was remembered here
        observe(g, m, pool, M, f'{cls}({nodes}) after {trail!r}')
    for k in prefix:
        run_op(g, m, ops[k], Edge, M, f'{cls}({nodes}) after {trail!r}')
        trail.append(ops[k])
    go(g, m, trail)


def check_large(case, rec):
    """a long history on a graph of many nodes: built up, edited and taken apart, read at intervals."""
    cls, n, fam, rot, every = case
    from mc import impl, ref
    classes, Edge, M = _env()
    names = impl.names_for(n, rot)
    par = ref.relabel(dict(ref.families(n))[fam], ref.shuffled(n, rot))
    edges = ref.edges_of(par)
    al = sorted(ALLOWED[cls])
    k = 0
    ops = [('ans', tuple(names[:n // 2]))] + [('an', x) for x in names[n // 2:]]
    for q, (u, v) in enumerate(edges):
        ops.append(('ae', names[u], names[v]) + al[(q + rot) % len(al)] + (q % 3 == 0,))
    for q, (u, v) in enumerate(edges):                       # turn, remove or repeat
        if q % 4 == 0:
            ops.append(('ae', names[v], names[u], 'T', 'A', True))
        elif q % 4 == 1:
            ops.append(('re', names[v], names[u]))
        elif q % 4 == 2:
            ops.append(('ae', names[v], names[u], 'T', 'A', False))
    for q in range(0, n, 4):                                  # a node leaves and comes back bare
        ops += [('rn', names[q]), ('an', names[q])]
    for q, (u, v) in enumerate(edges[::2]):
        ops.append(('ae', names[u], names[v], 'T', 'A', True))
    if cls == 'PDAG' and rot % 2:
        ops += [('re', names[u], names[v]) for u, v in combinations(range(n), 2)] + [('complete',)]
    ops += [('rns', tuple(names[1::2])), ('an', 'late')] + [('ae', names[q], 'late', 'T', 'A', False) for q in range(0, n, 2)]
    g, m = classes[cls](), Model(cls, [])
    pool = tuple(names) + ('late',)
    for k, op in enumerate(ops):
        w = f'{cls} with {fam} on {n} nodes {names}, operation {k} of the history'
        run_op(g, m, op, Edge, M, w)
        rec.step()
        if k % every == 0 or k == len(ops) - 1:
            observe(g, m, pool, M, w + f' ({op!r})')
            rec.state()
    rec.trace()


def check_four(case, rec):
    """four nodes: every graph, then every single removal / replacement / addition."""
    cls, names, order, code = case
    classes, Edge, M = _env()
    pool = [tuple(x) if isinstance(x, list) else x for x in names]
    m = Model(cls)
    g = classes[cls](pool[i] for i in order)
    m.nodes = [pool[i] for i in order]
    conv = {1: ('T', 'A'), 2: ('A', 'T'), 3: ('T', 'T'), 4: ('A', 'A')}
    prs = list(combinations(range(4), 2))
    for (i, j), c in zip(prs, code):
        if c == 0:
            continue
        mu, mv = conv[c]
        u, v = pool[i], pool[j]
        if c == 2:
            u, v, mu, mv = v, u, mv, mu
        run_op(g, m, ('ae', u, v, mu, mv, False), Edge, M, f'building {cls} {code}')
    where = f'{cls} nodes={m.nodes} edges={sorted(map(str, m.e.items()))}'
    observe(g, m, pool, M, where)
    observe_frame(g, m, where)
    observe_text(g, m, where)
    rec.state()
    ops = [('rn', u) for u in pool] + [('rnsown',)] + [('rns', (pool[0], pool[2], pool[3]))]
    for (i, j), c in zip(prs, code):
        if c:
            ops += [('re', pool[j], pool[i]), ('ae', pool[j], pool[i], 'T', 'A', True), ('ae', pool[i], pool[j], 'T', 'A', False)]
        else:
            ops += [('ae', pool[j], pool[i], 'T', 'A', False)]
    for op in ops:
        g2, m2 = copy.deepcopy(g), m.clone()
        run_op(g2, m2, op, Edge, M, where + f' then {op!r}')
        observe(g2, m2, pool, M, where + f' then {op!r}')
        rec.step()
        rec.trace()


def check_ctor(case, rec):
    classes, Edge, M = _env()
    cls, pi, seq = case
    pool = NAMES[pi]
    nodes = [pool[i] for i in seq]
    dup = len(set(nodes)) != len(nodes)
    for form in (list, tuple, iter):
        try:
            g = classes[cls](form(nodes))
        except AssertionError:
            if not dup:
                raise Violation(f'{cls}({nodes}) rejected')
            continue
        if dup:
            raise Violation(f'{cls}({nodes}) accepted although a node is listed twice')
        observe(g, Model(cls, nodes), pool, M, f'{cls}({nodes})')
        rec.trace()
    rec.state()
    rec.step(3)


def check_shared(case, rec):
    """graphs made from one list object, and matrices handed out, are independent of each other."""
    cls, pi, start, first = case
    classes, Edge, M = _env()
    pool = NAMES[pi]
    ops = hist_ops(cls, pool)
    nodes = [pool[i] for i in start]
    steps = [('g', op) for op in ops] + [('h', op) for op in ops] + [('list', 'clear'), ('list', 'append'), ('list', 'reverse'),
                                                                     ('matrix', False), ('matrix', True), ('frame', None)]

    def run(seq):
        lst = list(nodes)
        gs = {'g': classes[cls](lst), 'h': classes[cls](lst)}
        ms = {'g': Model(cls, nodes), 'h': Model(cls, nodes)}
        want = list(nodes)
        for who, what in seq:
            if who in gs:
                run_op(gs[who], ms[who], what, Edge, M, f'two graphs from one list {nodes}: {seq!r}')
            elif who == 'list':
                if what == 'clear':
                    lst.clear(), want.clear()
                elif what == 'append':
                    lst.append('new'), want.append('new')
                else:
                    lst.reverse(), want.reverse()
            elif who == 'matrix':
                gs['g'].to_numpy(transpose=what)[...] = 7
            else:
                gs['g'].to_dataframe().iloc[:, :] = 7
            rec.step()
        w = f'two {cls} graphs g and h made from one list {nodes}, then {seq!r}'
        if lst != want:
            raise Violation(f'{w}: the list of the caller is now {lst!r}')
        for x in ('g', 'h'):
            observe(gs[x], ms[x], pool, M, f'{w}: {x}')
        rec.state()
        rec.trace()

    for other in steps:
        run([steps[first], other])


def spaces(tier, seed):
    _env()
    thorough = tier == 'thorough'
    cases = []
    for cls in ('DiGraph', 'PDAG', 'Graph'):
        ch = edge_choices(cls)
        for k in range(4):
            npair = k * (k - 1) // 2
            orders = [o for s in combinations(range(3), k) for o in permutations(s)]
            for oi, order in enumerate(orders):
                for ci, code in enumerate(product(ch, repeat=npair)):
                    if cls == 'Graph' and k == 3 and not thorough and (ci + oi + seed) % 12:
                        continue
                    for how in (0, 1, 2):
                        if not thorough and k == 3 and how != (ci + oi) % 3:
                            continue
                        cases.append([cls, (oi + seed) % len(NAMES), order, code, how, thorough and cls != 'Graph' or k < 3])
    # every three-node state of the general graph class is at least built and observed
    if not thorough:
        for oi, order in enumerate(permutations(range(3))):
            for ci, code in enumerate(product(edge_choices('Graph'), repeat=3)):
                cases.append(['Graph', (oi + seed) % len(NAMES), order, code, (ci + oi) % 3, -1])
    hist = []
    for cls in ('DiGraph', 'PDAG', 'Graph'):
        depth = 4 if thorough else 3
        n = len(hist_ops(cls, NAMES[0]))
        for start in ((0, 1, 2), ()):
            for k in range(n):
                if thorough:
                    for k2 in range(n):
                        hist.append([cls, seed % len(NAMES), start, [k, k2], depth, []])
                else:
                    hist.append([cls, seed % len(NAMES), start, [k], depth, []])
    quiet = []
    for cls in ('DiGraph', 'PDAG', 'Graph'):
        ops = hist_ops(cls, NAMES[0])
        n = len(ops)
        addT = [k for k, op in enumerate(ops) if op[0] == 'ae' and not op[-1]]
        firsts = [[a] for a in addT] + [[a, b] for a, b in combinations(addT, 2) if ops[a][1:3] != ops[b][1:3]]
        for fi, first in enumerate(firsts):
            if not thorough and (fi + seed) % 3 and len(first) > 1:
                continue
            for k in range(n):
                quiet.append([cls, (seed + fi) % len(NAMES), (0, 1, 2), [k], 3 if thorough or fi < 2 else 2, first])
    ctor = [[cls, pi, seq] for cls in ('DiGraph', 'PDAG', 'Graph') for pi in range(len(NAMES))
            for r in range(5) for seq in product(range(3), repeat=r)]
    shared = [[cls, (seed + k) % len(NAMES), start, k] for cls in ('DiGraph', 'PDAG', 'Graph') for start in ((0, 1, 2), (2, 0))
              for k in range(2 * len(hist_ops(cls, NAMES[0])) + 6)]
    four = []
    names4 = [['a', 'b', 'c', 'd'], [0, 'b', (1, 2), -1], [3, 2, 1, 0]]
    orders4 = list(permutations(range(4)))
    for cls, marks in (('DiGraph', (0, 1, 2)), ('PDAG', (0, 1, 2, 3) if not thorough else (0, 1, 2, 3, 4))):
        for ci, code in enumerate(product(marks, repeat=6)):
            four.append([cls, names4[(ci + seed) % 3], orders4[(ci * 7 + seed) % 24], code])
    return [
        Space('four nodes', four, check_four, note='every 4-node DiGraph and PDAG x every removal/replacement/addition'),
        Space('long histories on many nodes', [[c, n, f, (k + r + seed) % 6, 4 if n < 10 else 23]
                                               for n in (6, 9, 17, 40) + ((12, 25, 70) if thorough else ()) for c in ALLOWED
                                               for k, (f, _) in enumerate(__import__('mc.ref').ref.families(n))
                                               for r in (range(6) if thorough else (0, 3))
                                               if thorough or (k + r) % 2 == 0 or n < 10], check_large, limit=120,
              note='18 families of edge sets: built, turned, thinned, nodes removed and re-added'),
        Space('shared inputs', shared, check_shared,
              note='two graphs from one list object x every pair of operations on either, the list and the matrices handed out'),
        Space('constructors', ctor, check_ctor, note='every node list of length <= 4 over 3 labels'),
        Space('state x operation', cases, check_state_ops,
              note='every graph with <= 3 nodes (every node order, every mark pair) x every operation, reached through '
                   'up to three histories'),
        Space('operation histories', hist, check_histories,
              note='every operation sequence up to the depth bound from the empty and the 3-node graph'),
        Space('unread histories', quiet, check_histories,
              note='graphs with one or two edges, read completely, then every operation sequence without reading in between, then read'),
    ]
