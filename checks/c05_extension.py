"""C05: PDAG -> DAG returns a consistent extension whenever there is one, and terminates always."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C05'
TITLE = 'A PDAG extends to a consistent DAG whenever possible, and is rejected otherwise'
ASSUMPTIONS = ['PDAGs with tail/arrow marks and no bidirected edges, every one up to 4 nodes (5 thorough), CPDAGs of 5, families up to 22 (30 thorough)',
               'a PDAG without consistent extension must be rejected with an exception rather than looped on or answered wrongly']


def check(case, rec):
    from cdmir.graph import DiGraph, PDAG
    from cdmir.graph.pdag2dag import pdag2dag
    code, variants = case
    code = tuple(code)
    m = len(code)
    n = {0: 1, 1: 2, 3: 3, 6: 4, 10: 5, 15: 6}[m]
    exts = None
    for style, node_order, flip in variants:
        names = impl.names_for(n, style)
        g = impl.build(PDAG, n, code, names, node_order, None, flip)
        before = [tuple(e) for e in g.edges], list(g.nodes)
        try:
            out = pdag2dag(g)
            err = None
        except Exception as e:
            out, err = None, e
        rec.step()
        if exts is None:
            exts = ref.extensions(n, code)
        where = f'PDAG {impl.show(n, code, names)} (nodes listed {list(g.nodes)})'
        if exts:
            if err is not None:
                raise Violation(f'{where} has {len(exts)} consistent extension(s) but the conversion raised '
                                f'{type(err).__name__}: {err}')
            got = impl.read(out, names)
            if 3 in got or 4 in got or 9 in got or ref.code_to_parents(n, got) not in exts:
                raise Violation(f'{where}: the result {impl.show(n, got, names)} is not one of the {len(exts)} '
                                f'consistent extension(s), e.g. {impl.show(n, ref.parents_to_code(exts[0]), names)}')
            if not isinstance(out, DiGraph):
                raise Violation(f'the result is a {type(out).__name__}, not a DiGraph')
            if list(out.nodes) != before[1]:
                raise Violation(f'the nodes come back as {list(out.nodes)}, not in the order {before[1]}')
        elif err is None:
            raise Violation(f'{where} has no consistent extension but the conversion returned '
                            f'{impl.show(n, impl.read(out, names), names)}')
        if ([tuple(e) for e in g.edges], list(g.nodes)) != before:
            raise Violation('the conversion changed its input')
    # the same object, edited into another PDAG, extends like that PDAG; and no object follows another
    code2 = ref.perm_code(n, code, [(i + 1) % n for i in range(n)])
    impl.rewire(g, names, code2)
    exts2 = ref.extensions(n, code2)
    try:
        again = pdag2dag(g)
    except Exception as e:
        if exts2:
            raise Violation(f'PDAG {impl.show(n, code2, names)} (edited after an earlier conversion) has consistent '
                            f'extensions but the conversion raised {type(e).__name__}: {e}')
        again = None
    rec.step()
    if again is not None:
        got = impl.read(again, names)
        if 3 in got or 4 in got or 9 in got or ref.code_to_parents(n, got) not in exts2:
            raise Violation(f'PDAG {impl.show(n, code, names)} is converted, edited into {impl.show(n, code2, names)} '
                            f'and converted again: {impl.show(n, got, names)} is not a consistent extension')
        first = impl.picture(out)
        bad = impl.entangled(g, again)
        if bad:
            raise Violation(f'PDAG {impl.show(n, code2, names)}: {bad}')
        if impl.picture(out) != first:
            raise Violation('editing one result or the argument changes an earlier result')
    rec.state()
    rec.trace()
    if n >= 4 and exts:
        rec.sample(dict(pdag=impl.show(n, code), extensions=len(exts)))


def check_roundtrip(case, rec):
    """DAG -> CPDAG -> DAG stays in the class; and back again is a fixed point."""
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.graph.pdag2dag import pdag2dag
    par, style, node_order = case
    par = tuple(par)
    n = len(par)
    names = impl.names_for(n, style)
    c = dag2cpdag(impl.build_dag(par, names, node_order))
    d = pdag2dag(c)
    got = ref.code_to_parents(n, impl.read(d, names))
    if ref.pattern_key(got) != ref.pattern_key(par) or not ref.acyclic(got):
        raise Violation(f'{impl.show(n, ref.parents_to_code(par), names)} came back as '
                        f'{impl.show(n, ref.parents_to_code(got), names)}, which is not Markov equivalent')
    c2 = dag2cpdag(d)
    if impl.read(c2, names) != impl.read(c, names):
        raise Violation('DAG -> CPDAG -> DAG -> CPDAG is not a fixed point')
    rec.step(3)
    rec.state()
    rec.trace()


def plain(n, edges):
    """pdag code of an undirected graph."""
    es = {(min(e), max(e)) for e in edges}
    return tuple(3 if p in es else 0 for p in ref.pairs(n))


def chordal(n, code):
    """by removing simplicial nodes until none is left."""
    adj = list(ref.pdag_adj(n, code))
    left = set(range(n))
    while left:
        for v in sorted(left):
            nb = [u for u in left if adj[v] >> u & 1]
            if all(adj[a] >> b & 1 for a in nb for b in nb if a < b):
                left.remove(v)
                break
        else:
            return False
    return True


def check_big(case, rec):
    """a larger PDAG known (not) to extend: the answer is verified against the definition."""
    from cdmir.graph import DiGraph, PDAG
    from cdmir.graph.pdag2dag import pdag2dag
    n, code, can, style, node_order, flip = case
    code = tuple(code)
    names = impl.names_for(n, style)
    g = impl.build(PDAG, n, code, names, node_order, None, flip)
    before = [tuple(e) for e in g.edges], list(g.nodes)
    where = f'PDAG {impl.show(n, code, names)} (nodes listed {list(g.nodes)})'
    try:
        out = pdag2dag(g)
    except Exception as e:
        if can:
            raise Violation(f'{where} has a consistent extension but the conversion raised {type(e).__name__}: {e}')
        out = None
    rec.step()
    if out is not None:
        got = impl.read(out, names)
        if not can:
            raise Violation(f'{where} has no consistent extension but the conversion returned {impl.show(n, got, names)}')
        par = ref.code_to_parents(n, got)
        ok = all(a == b or a == 3 and b in (1, 2) for a, b in zip(code, got)) and ref.acyclic(par) \
            and ref.vstructs(par) == ref.pdag_vstructs(n, code)
        if not ok or not isinstance(out, DiGraph) or list(out.nodes) != before[1]:
            raise Violation(f'{where}: the result {impl.show(n, got, names)} is not a consistent extension')
    if ([tuple(e) for e in g.edges], list(g.nodes)) != before:
        raise Violation('the conversion changed its input')
    rec.state()
    rec.trace()


def big_cases(sizes, seed, reps, src=lambda n: [p for _, p in ref.families(n)], ess=ref.essential, holes=lambda n: range(4, n + 1)):
    out = []

    def put(n, code, can, k):
        for r in range(reps):
            q = ref.perm_code(n, code, ref.shuffled(n, k + r + seed))
            out.append([n, q, can, (k + r + seed) % 6, ref.shuffled(n, 2 * k + r + 1), bool((k + r) % 2)])

    for n in sizes:
        for k, par in enumerate(src(n)):
            e = ess(par)
            full = ref.parents_to_code(par)
            if e is not None:
                put(n, e, True, k)
                free = [i for i, c in enumerate(e) if c == 3]
                for i in free[k % 3::3]:                 # one more edge known
                    put(n, e[:i] + (full[i],) + e[i + 1:], True, k + i)
            # nothing but the colliders is known
            vs = ref.vstructs(par)
            into = {(u, w) for a, w, b in vs for u in (a, b)}
            pat = tuple(c if c and ((i, j) in into or (j, i) in into) else 3 if c else 0 for (i, j), c in zip(ref.pairs(n), full))
            put(n, pat, True, k)
            put(n, full, True, k)
            und = tuple(3 if c else 0 for c in full)
            put(n, und, chordal(n, und), k + 1)
        for m in holes(n):                               # a hole of length m, with and without the rest attached
            ring = [(i, (i + 1) % m) for i in range(m)]
            put(n, plain(n, ring), False, m)
            put(n, plain(n, ring + [(i, i + 1) for i in range(m - 1, n - 1)]), False, m + 1)
            put(n, plain(n, ring + [(m - 1, j) for j in range(m, n)]), False, m + 2)
            chords = [(0, i) for i in range(2, m - 1)]
            put(n, plain(n, ring + chords), True, m)
            # a directed cycle of length m
            c = [0] * (n * (n - 1) // 2)
            for i, j in zip(range(m), list(range(1, m)) + [0]):
                c[ref.pairs(n).index((min(i, j), max(i, j)))] = 1 if i < j else 2
            put(n, tuple(c), False, m)
            # an undirected path between two arrows pointing into it must put a collider somewhere
            if m < n:
                c = [0] * (n * (n - 1) // 2)
                for i in range(m):
                    c[ref.pairs(n).index((i, i + 1))] = 1 if i == 0 else 2 if i == m - 1 else 3
                if m > 2:
                    put(n, tuple(c), False, m)
    return out


def spaces(tier, seed):
    import cdmir.graph.dag2cpdag  # noqa
    import cdmir.graph.pdag2dag  # noqa
    thorough = tier == 'thorough'
    sp = []
    for n in range(2, 5):
        perms = list(permutations(range(n)))
        cases = []
        for k, code in enumerate(ref.pdag_codes(n)):
            r = (6 if thorough else 3) if n == 4 else 6
            vs = [[(k + j + seed) % 6, perms[(k * 5 + j * 7 + seed) % len(perms)], bool((k + j) % 2)] for j in range(r)]
            cases.append([code, vs])
        sp.append(Space(f'PDAGs of {n} nodes', cases, check, limit=20,
                        note='every PDAG (extendable or not) under several node orders and name kinds'))
    perms = list(permutations(range(5)))
    # every maximally oriented class of 5 nodes and everything obtained from it
    # by forgetting nothing: the CPDAGs themselves
    cp = sorted({ref.cpdag(p) for p in ref.topo_dags(5)})
    cases = []
    for k, c in enumerate(cp):
        q = ref.perm_code(5, c, perms[(k * 31 + seed) % 120])
        cases.append([q, [[(k + j + seed) % 6, perms[(k * 17 + j * 41 + seed) % 120], bool(j)] for j in range(2)]])
    sp.append(Space('CPDAGs of 5 nodes', cases, check, limit=20, note='every CPDAG shape of 5 nodes, 2 node orders'))
    rt = [[p, (k + seed) % 6, perms[(k * 11 + seed) % 120]] for k, p in enumerate(ref.topo_dags(5))]
    for n in (2, 3, 4):
        ps = list(permutations(range(n)))
        rt += [[p, (k + seed) % 6, ps[(k * 5 + seed) % len(ps)]] for k, p in enumerate(ref.dags(n))]
    sp.append(Space('round trip', rt, check_roundtrip, limit=20, note='every DAG <= 4 nodes and every shape of 5 nodes'))
    sp.append(Space('structures of 6 to 9 nodes', big_cases((6, 7, 9) + ((8, 10, 12) if thorough else ()), seed, 3 if thorough else 1), check_big, limit=60,
                    note='18 families: CPDAGs, one more edge known, bare colliders, undirected; holes and cycles of every length (rejected)'))
    far = big_cases((14, 22) + ((18, 30) if thorough else ()), seed, 1, ref.sparse, ref.essential_sparse, lambda n: (4, 9, n))
    sp.append(Space('sparse structures of 14 and 22 nodes', far, check_big, chunk=1, limit=100, note='the families without hubs and triangles, holes and cycles of length 4, 9 and all'))
    brt = [[ref.relabel(par, ref.shuffled(n, k + seed)), (k + seed) % 6, ref.shuffled(n, k + 2)]
           for n in (6, 8, 10) + ((7, 9, 12) if thorough else ()) for k, (_, par) in enumerate(ref.families(n))]
    sp.append(Space('round trip, larger', brt, check_roundtrip, limit=60, note='the 18 families on 6, 8 and 10 nodes'))
    if thorough:
        cases = []
        for k, code in enumerate(ref.pdag_codes(5)):
            # one representative per relabelling by a rotation is enough to cut the space
            cases.append([code, [[(k + seed) % 6, perms[(k * 7 + seed) % 120], bool(k % 2)]]])
        sp.append(Space('PDAGs of 5 nodes', cases, check, limit=20, note='every PDAG of 5 nodes under one node order'))
    return sp
