"""C03: d-separation equals the textbook definition, for every DAG, pair and set."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C03'
TITLE = 'd-separation queries are exact for every DAG and conditioning set'
ASSUMPTIONS = ['x and y are distinct; a pair of which one is in the conditioning set counts as separated; every DAG up to 4 nodes, DAGs of 5 and 6 nodes, families up to 1300']


class Once:
    """an iterable that can be walked once only."""

    def __init__(self, items):
        self.items = list(items)
        self.used = False

    def __iter__(self):
        if self.used:
            return iter(())
        self.used = True
        return iter(self.items)


FORMS = ['tuple', 'list', 'set', 'frozenset', 'generator', 'iterator', 'dict-keys', 'repeated']


def as_form(items, form):
    if form == 'tuple':
        return tuple(items)
    if form == 'list':
        return list(items)
    if form == 'set':
        return set(items)
    if form == 'frozenset':
        return frozenset(items)
    if form == 'generator':
        return (x for x in items)
    if form == 'iterator':
        return Once(items)
    if form == 'dict-keys':
        return {x: 1 for x in items}.keys()
    return list(items) + list(items)[::-1]


def check(case, rec):
    par, style, node_order, edge_order, allforms, reach = case
    par = tuple(par)
    n = len(par)
    names = impl.names_for(n, style)
    if reach and node_order is not None and (sum(par) + style) % 2:
        # the same object held the reversed graph before, and was asked about it
        from cdmir.graph import Edge
        rev = [0] * n
        for u, v in ref.edges_of(par):
            rev[u] |= 1 << v
        g = impl.build_dag(tuple(rev), names, node_order, edge_order)
        for x, y in permutations(range(n), 2):
            g.is_d_separate(names[x], names[y], [names[v] for v in range(n) if v not in (x, y)])
            g.is_d_separate(names[x], names[y])
        for u, v in ref.edges_of(par):
            g.remove_edge(names[v], names[u])
            g.add_edge(Edge(names[u], names[v]))
    else:
        g = impl.build_dag(par, names, node_order, edge_order)
    before = [tuple(e) for e in g.edges], list(g.nodes)
    where = impl.show(n, ref.parents_to_code(par), names)
    k = 0
    for x, y in permutations(range(n), 2):
        rest = [v for v in range(n) if v not in (x, y)]
        for z in ref.subsets(rest):
            zm = sum(1 << v for v in z)
            want = ref.dsep_moral(par, 1 << x, 1 << y, zm)
            if n <= 4:
                other = ref.dsep_paths(par, x, y, zm)
                assert other == want, 'the two reference definitions disagree'
            zn = [names[v] for v in z]
            forms = FORMS if allforms else [FORMS[(k + n) % len(FORMS)]]
            for f in forms:
                got = g.is_d_separate(names[x], names[y], as_form(zn, f))
                rec.step()
                if bool(got) is not want:
                    raise Violation(f'{where}: is_d_separate({names[x]!r}, {names[y]!r}, {zn!r} as {f}) = {got!r}, '
                                    f'expected {want}')
            if not z:
                got = g.is_d_separate(names[x], names[y])
                if bool(got) is not want:
                    raise Violation(f'{where}: is_d_separate({names[x]!r}, {names[y]!r}) = {got!r}, expected {want}')
                rec.step()
            k += 1
            rec.state()
    if reach:
        # a variable that is itself observed is separated from every other one
        for x, y in permutations(range(n), 2):
            rest = [v for v in range(n) if v not in (x, y)]
            for z in ref.subsets(rest):
                for own in ((x,), (y,), (x, y)):
                    zn = [names[v] for v in sorted(list(z) + list(own))]
                    f = FORMS[k % len(FORMS)]
                    k += 1
                    got = g.is_d_separate(names[x], names[y], as_form(zn, f))
                    rec.step()
                    if bool(got) is not True:
                        raise Violation(f'{where}: is_d_separate({names[x]!r}, {names[y]!r}, {zn!r} as {f}) = {got!r} although '
                                        f'an observed variable is constant given the set')
        for x in range(n):
            if set(g.get_reachable_nodes(names[x], [names[x]])):
                raise Violation(f'{where}: get_reachable_nodes({names[x]!r}, [{names[x]!r}]) is not empty')
            rest = [v for v in range(n) if v != x]
            for z in ref.subsets(rest):
                zm = sum(1 << v for v in z)
                want = {names[y] for y in range(n) if y not in z and
                        (y == x or not ref.dsep_moral(par, 1 << x, 1 << y, zm))}
                zn = [names[v] for v in z]
                f = FORMS[(x + zm) % len(FORMS)]
                got = set(g.get_reachable_nodes(names[x], as_form(zn, f)))
                rec.step()
                if got != want:
                    raise Violation(f'{where}: get_reachable_nodes({names[x]!r}, {zn!r} as {f}) = {got!r}, expected {want!r}')
                if not z and set(g.get_reachable_nodes(names[x])) != want:
                    raise Violation(f'{where}: get_reachable_nodes({names[x]!r}) without a set differs from the empty set')
    if ([tuple(e) for e in g.edges], list(g.nodes)) != before:
        raise Violation(f'{where}: a query changed the graph')
    rec.trace()
    if n >= 4:
        rec.sample(dict(dag=where, queries=k))


def check_big(case, rec):
    """larger structured graphs: every pair, and every set (n <= 7) or every set of few nodes and of all but few."""
    par, style, node_order, most = case
    par = tuple(par)
    n = len(par)
    names = impl.names_for(n, style)
    g = impl.build_dag(par, names, node_order)
    where = impl.show(n, ref.parents_to_code(par), names)
    k = 0
    for x, y in permutations(range(n), 2):
        rest = [v for v in range(n) if v not in (x, y)]
        for z in ref.subsets(rest):
            if most < len(z) < len(rest) - most + 1:
                continue
            k += 1
            want = ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z))
            zn = [names[v] for v in z]
            f = FORMS[k % len(FORMS)]
            got = g.is_d_separate(names[x], names[y], as_form(zn, f))
            rec.step()
            if bool(got) is not want:
                raise Violation(f'{where}: is_d_separate({names[x]!r}, {names[y]!r}, {zn!r} as {f}) = {got!r}, expected {want}')
    rec.state(k)
    rec.trace()


def check_long(case, rec):
    """hundreds of nodes in a row."""
    from cdmir.graph import DiGraph, Edge
    kind, n, k = case
    h = n // 2
    es = {'chain': [(i, i + 1) for i in range(n - 1)],
          'meeting': [(i, i + 1) for i in range(h)] + [(i + 1, i) for i in range(h, n - 1)],
          'parting': [(i + 1, i) for i in range(h)] + [(i, i + 1) for i in range(h, n - 1)],
          'zigzag': [(i, i + 1) if i % 2 else (i + 1, i) for i in range(n - 1)],
          'tail': [(0, 2), (1, 2)] + [(i, i + 1) for i in range(2, n - 1)]}[kind]
    name = ref.shuffled(n, k) if k % 2 else ['v%d' % i for i in range(n)]
    g = DiGraph([name[i] for i in (ref.shuffled(n, k + 1) if k % 3 else range(n))])
    for i in ref.shuffled(len(es), k + 2):
        g.add_edge(Edge(name[es[i][0]], name[es[i][1]]))
    par = ref.from_edges(n, es)
    odd, even = list(range(1, n - 1, 2)), list(range(2, n - 1, 2))
    zs = [[], [h], [n - 1], [n - 2], [1], [h - 1, h + 1], [h, h + 1], odd, even, odd[:-1], even[1:], odd + even]
    for x, y in ((0, n - 1), (n - 1, 0), (0, 1), (1, 0), (0, h), (h, 0), (1, n - 2), (h - 1, h + 1), (h, n - 1), (2, 3)):
        for z in zs:
            z = [v for v in z if v not in (x, y)]
            want = ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z))
            got = g.is_d_separate(name[x], name[y], [name[v] for v in z])
            rec.step()
            if bool(got) is not want:
                raise Violation(f'{kind} of {n} nodes ({k}): nodes {x} and {y} given {z[:6]}{"..." if len(z) > 6 else ""} '
                                f'({len(z)} nodes): is_d_separate = {got!r}, expected {want}')
    rec.state()
    rec.trace()


def spaces(tier, seed):
    import cdmir.graph  # noqa
    thorough = tier == 'thorough'
    small = []
    for n in range(2, 5):
        perms = list(permutations(range(n)))
        ne = n * (n - 1) // 2
        for k, par in enumerate(ref.dags(n)):
            for r in range(3):
                p = perms[(k * 5 + r * 7 + seed) % len(perms)]
                eo = [list(range(ne)), list(range(ne))[::-1], [(x + k) % ne for x in range(ne)]][r]
                small.append([par, (k + r + seed) % 6, p, eo, r == 0, True])
    sp = [Space('DAGs <= 4 nodes', small, check,
                note='every labelled DAG on <= 4 nodes, every (x,y,Z), every form of Z, 3 construction orders')]
    perms = list(permutations(range(5)))
    five = []
    for k, par in enumerate(ref.dags(5)):
        if not thorough and (k + seed) % 7:
            continue
        q = ref.relabel(par, perms[(k * 37 + seed) % 120])
        five.append([q, (k + seed) % 6, perms[(k * 11 + seed) % 120], [(x + k) % 10 for x in range(10)], False, thorough or k % 4 == 0])
    sp.append(Space('DAGs of 5 nodes', five, check,
                    note='a seventh of the labelled DAGs on 5 nodes (thorough: every one), every (x,y,Z)'))
    big = []
    for n in (6, 7, 8, 10, 12) + ((9, 11, 15) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            for r in range((3 if n < 9 else 2) if thorough else 1 + (n < 8)):
                big.append([ref.relabel(par, ref.shuffled(n, k + r + seed)), (k + r + seed) % 6, ref.shuffled(n, 2 * k + r),
                            n if n <= 7 else 2 if n == 8 or thorough else 1])
    sp.append(Space('structures of 6 to 12 nodes', big, check_big,
                    note='18 families of DAGs; every (x,y,Z) up to 7 nodes, beyond that Z with few or all but few of the other nodes'))
    far = [[kind, n, k + s + seed] for n in (40, 1300) for k, kind in enumerate(('chain', 'meeting', 'parting', 'zigzag', 'tail'))
           for s in range(2)]
    sp.append(Space('structures of 40 and 1300 nodes', far, check_long, chunk=1, limit=200, note='chains and trees, small and very large sets'))
    if True:
        perms = list(permutations(range(6)))
        six = []
        for k, par in enumerate(ref.unlabelled_dags(6)):
            for r in range(2 if thorough else (k + seed) % 8 == 0):
                q = ref.relabel(par, perms[(k * 101 + r * 367 + seed) % 720])
                six.append([q, (k + seed) % 6, perms[(k * 11 + r) % 720], None, False, False])
        sp.append(Space('DAGs of 6 nodes', six, check, note='every DAG on 6 unlabelled nodes under 2 labellings (quick: an eighth under one)'))
    return sp
