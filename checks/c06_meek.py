"""C06: closing a PDAG under the Meek rules orients exactly the compelled edges."""
from itertools import permutations

from mc import impl, ref
from mc.core import Space, Violation

PROPERTY = 'C06'
TITLE = 'Orientation rules orient exactly the edges every consistent extension agrees on'
ASSUMPTIONS = ['every PDAG up to 4 nodes, patterns with background knowledge of 5 (all PDAGs thorough), families up to 24 (40 thorough)']


def size(code):
    return {0: 1, 1: 2, 3: 3, 6: 4, 10: 5, 15: 6}[len(code)]


def check(case, rec):
    """full closure."""
    from cdmir.graph import PDAG
    code, variants = case
    code = tuple(code)
    n = size(code)
    exts = ref.extensions(n, code)
    want = ref.union_code(n, exts) if exts else None
    for style, node_order, flip in variants:
        names = impl.names_for(n, style)
        g = impl.build(PDAG, n, code, names, node_order, None, flip)
        order = list(g.nodes)
        loud = bool((style + sum(node_order)) % 2) != flip
        g.orient_by_meek_rules(verbose=True) if loud else g.orient_by_meek_rules()
        rec.step()
        got = impl.read(g, names)
        where = f'{impl.show(n, code, names)} (nodes listed {order})'
        for (i, j), a, b in zip(ref.pairs(n), code, got):
            if bool(a) != bool(b):
                raise Violation(f'{where}: the rules changed the skeleton at {names[i]}, {names[j]}')
            if a in (1, 2) and b != a:
                raise Violation(f'{where}: the rules changed the directed edge {names[i]}, {names[j]}')
            if b not in (0, 1, 2, 3):
                raise Violation(f'{where}: the rules left a bidirected or odd edge {names[i]}, {names[j]}')
        if list(g.nodes) != order:
            raise Violation(f'{where}: the rules changed the nodes')
        if want is not None:
            for (i, j), b, w in zip(ref.pairs(n), got, want):
                if b != w:
                    kind = 'left undirected although every extension agrees on it' if b == 3 else \
                        'oriented although the extensions disagree or say otherwise'
                    raise Violation(f'{where}: edge {names[i]}, {names[j]} {kind}; got {impl.show(n, got, names)}; '
                                    f'expected {impl.show(n, want, names)}')
            g.orient_by_meek_rules(not loud)
            if impl.read(g, names) != got:
                raise Violation(f'{where}: a second application changes the graph again')
            rec.step()
    rec.state()
    rec.trace()
    if exts and n >= 4:
        rec.sample(dict(pdag=impl.show(n, code), closed=impl.show(n, want)))


def check_rules(case, rec):
    """each rule on its own: sound, and its reported flag is truthful."""
    from cdmir.graph import PDAG
    code, style, node_order, flip = case
    code = tuple(code)
    n = size(code)
    exts = ref.extensions(n, code)
    if not exts:
        return
    want = ref.union_code(n, exts)
    names = impl.names_for(n, style)
    for r in ('rule1', 'rule2', 'rule3', 'rule4'):
        g = impl.build(PDAG, n, code, names, node_order, None, flip)
        flag = getattr(g, r)()
        h = impl.build(PDAG, n, code, names, node_order, None, flip)
        loud = getattr(h, r)(verbose=True)
        rec.step(2)
        got = impl.read(g, names)
        if impl.read(h, names) != got or bool(loud) != bool(flag):
            raise Violation(f'{impl.show(n, code, names)}: {r} gives {impl.show(n, got, names)} ({flag!r}), '
                            f'verbosely {impl.show(n, impl.read(h, names), names)} ({loud!r})')
        for (i, j), a, b, w in zip(ref.pairs(n), code, got, want):
            if b != a and not (a == 3 and b == w):
                raise Violation(f'{impl.show(n, code, names)}: {r} turned {names[i]}, {names[j]} into mark {b}, '
                                f'the extensions say {w}')
        if bool(flag) != (got != code):
            raise Violation(f'{impl.show(n, code, names)}: {r} reports changed={flag!r} but '
                            f'{"did" if got != code else "did not"} change the graph')
    rec.state()
    rec.trace()


def check_rule0(case, rec):
    """collider orientation from separating sets, then closure, recovers the class."""
    from cdmir.graph import PDAG
    par, style, node_order, fat = case
    par = tuple(par)
    n = len(par)
    names = impl.names_for(n, style)
    code = tuple(3 if c else 0 for c in ref.parents_to_code(par))
    adj = ref.skeleton(par)
    sep = {}
    for x, y in permutations(range(n), 2):
        s = set()
        if x < y and not adj[x] >> y & 1:
            rest = [v for v in range(n) if v not in (x, y)]
            good = [z for z in ref.subsets(rest) if ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z))]
            s = {names[v] for v in (good[-1] if fat else good[0])}
            sep[(names[x], names[y])] = set(s)
            sep[(names[y], names[x])] = set(s)
        else:
            sep.setdefault((names[x], names[y]), set())
            sep.setdefault((names[y], names[x]), set())
    g = impl.build(PDAG, n, code, names, node_order)
    keep = {k: set(v) for k, v in sep.items()}
    g.rule0(sep)
    h = impl.build(PDAG, n, code, names, node_order)
    h.rule0(sep, verbose=True)
    rec.step(2)
    got = impl.read(g, names)
    if impl.read(h, names) != got:
        raise Violation(f'{impl.show(n, code, names)}: the verbose collider rule gives {impl.show(n, impl.read(h, names), names)}, '
                        f'the silent one {impl.show(n, got, names)}')
    want = list(code)
    vs = ref.vstructs(par)
    ps = ref.pairs(n)
    for a, w, b in vs:
        for u in (a, b):
            i, j = min(u, w), max(u, w)
            want[ps.index((i, j))] = 1 if w == j else 2
    if got != tuple(want):
        raise Violation(f'{impl.show(n, ref.parents_to_code(par), names)}: collider orientation gave '
                        f'{impl.show(n, got, names)}, expected {impl.show(n, tuple(want), names)}')
    if sep != keep:
        raise Violation('collider orientation changed the separating sets')
    rec.state()
    rec.trace()


def check_collider(case, rec):
    """the collider rule on any undirected graph and any separating sets: an edge end on which the triples do not
    contradict each other gets exactly what they say."""
    from cdmir.graph import PDAG
    code, style, node_order, flip = case
    code = tuple(code)
    n = size(code)
    ps = ref.pairs(n)
    names = impl.names_for(n, style)
    apart = [p for p, c in zip(ps, code) if not c]
    adj = [[False] * n for _ in range(n)]
    for (i, j), c in zip(ps, code):
        adj[i][j] = adj[j][i] = bool(c)
    middles = [[w for w in range(n) if adj[i][w] and adj[w][j]] for i, j in apart]
    triples = [(i, w, j) for (i, j), m in zip(apart, middles) for w in m]
    for bits in range(1 << len(triples)):
        chosen = [t for b, t in enumerate(triples) if bits >> b & 1]       # middle node missing from the set
        sep = {}
        for i, j in permutations(range(n), 2):
            sep[(names[i], names[j])] = {names[w] for a, w, b in triples if {a, b} == {i, j} and (a, w, b) not in chosen}
        into = {(u, w) for a, w, b in chosen for u in (a, b)}
        g = impl.build(PDAG, n, code, names, node_order, None, flip)
        g.rule0(sep, bool((bits + flip) % 2))
        rec.step()
        got = impl.read(g, names)
        for (i, j), c, m in zip(ps, code, got):
            up, down = (i, j) in into, (j, i) in into
            want = (c,) if not (up or down) else (1, 2) if up and down else (1,) if up else (2,)
            if m not in want:
                raise Violation(f'{impl.show(n, code, names)} (nodes listed {list(g.nodes)}) with '
                                f'{[tuple(names[x] for x in t) for t in chosen]} lacking their middle node in the separating '
                                f'set: collider orientation gave {impl.show(n, got, names)}')
        # conflicting triples: the outcome is what orienting them one after another can give
        dirs = {}
        for (i, j), m in zip(ps, got):
            dirs[i, j], dirs[j, i] = m == 1, m == 2
        todo, covered = list(chosen), set()
        while todo:
            last = [t for t in todo if all(frozenset(e) in covered or dirs[e] for e in ((t[0], t[1]), (t[2], t[1])))]
            if not last:
                raise Violation(f'{impl.show(n, code, names)} (nodes listed {list(g.nodes)}) with '
                                f'{[tuple(names[x] for x in t) for t in chosen]} lacking their middle node: '
                                f'{impl.show(n, got, names)} orients none of {[tuple(names[x] for x in t) for t in todo]} as a collider')
            for t in last:
                todo.remove(t)
                covered |= {frozenset(t[:2]), frozenset(t[1:])}
    rec.state()
    rec.trace()


def check_big(case, rec):
    """a larger structured class, one or two edges known besides its colliders; the class is enumerated."""
    from cdmir.graph import PDAG
    par, seed, st = case
    par = tuple(par)
    n = len(par)
    members = [ref.parents_to_code(p) for p in ref.class_members(par)]
    ps = ref.pairs(n)
    into = {(u, w) for a, w, b in ref.vstructs(par) for u in (a, b)}
    base = tuple(c if c and ((i, j) in into or (j, i) in into) else 3 if c else 0
                 for (i, j), c in zip(ps, ref.parents_to_code(par)))
    free = [i for i, c in enumerate(base) if c == 3]
    known = [()] + [(i,) for i in free] + [(i, j) for i in free for j in free if i < j]
    k = 0
    for ks in known:
        for marks in sorted({tuple(m[i] for i in ks) for m in members}):
            k += 1
            if len(ks) == 2 and (k + seed) % st:
                continue
            left = [m for m in members if all(m[i] == c for i, c in zip(ks, marks))]
            start = list(base)
            for i, c in zip(ks, marks):
                start[i] = c
            want = tuple(a[0] if len(set(a)) == 1 else 3 for a in zip(*left))
            names = impl.names_for(n, k + seed)
            g = impl.build(PDAG, n, start, names, ref.shuffled(n, k + seed), None, bool(k % 2))
            # what is known may spoil what an unshielded arrow pair says: only starts that mean the class members
            if any(ref.pdag_vstructs(n, start) != ref.vstructs(ref.code_to_parents(n, m)) for m in left[:1]):
                continue
            g.orient_by_meek_rules(verbose=bool(k // 2 % 2))
            rec.step()
            got = impl.read(g, names)
            rec.state()
            if got != want:
                raise Violation(f'{impl.show(n, start, names)} (nodes listed {list(g.nodes)}): the rules gave '
                                f'{impl.show(n, got, names)}; the {len(left)} extensions agree on {impl.show(n, want, names)}')
    rec.trace()


def check_far(case, rec):
    """a long structure without triangles, from its colliders and any one known direction: only rule 1 can act."""
    from cdmir.graph import PDAG
    par, seed = case
    par = tuple(par)
    n = len(par)
    ps = ref.pairs(n)
    base = ref.collider_arrows(par)
    done = ref.spread(par, base)
    skel = ref.parents_to_code(par)
    for k, e in enumerate([None] + [e for e in ref.edges_of(par) if e not in done]):
        start = base | ({e} if e else set())
        end = ref.spread(par, start)
        code, want = [tuple(0 if not c else 1 if (i, j) in s else 2 if (j, i) in s else 3 for (i, j), c in zip(ps, skel)) for s in (start, end)]
        if k % 3 == 2:      # a rule may find the structure half done
            half = start | set(sorted(end)[::2])
            code = tuple(0 if not c else 1 if (i, j) in half else 2 if (j, i) in half else 3 for (i, j), c in zip(ps, skel))
        names = impl.names_for(n, k + seed)
        g = impl.build(PDAG, n, code, names, ref.shuffled(n, k + seed), None, bool(k % 2))
        g.orient_by_meek_rules()
        rec.step()
        rec.state()
        got = impl.read(g, names)
        if got != want:
            raise Violation(f'{impl.show(n, code, names)} (nodes listed {list(g.nodes)}): the rules gave '
                            f'{impl.show(n, got, names)}; the extensions agree on {impl.show(n, want, names)}')
    rec.trace()


def knowledge(n, seed, cap=None):
    """patterns with background knowledge: every CPDAG, and every way of adding
    one or two edge orientations from one of its members."""
    out = set()
    for p in ref.topo_dags(n):
        vs = ref.vstructs(p)
        ps = ref.pairs(n)
        base = [3 if c else 0 for c in ref.parents_to_code(p)]
        for a, w, b in vs:
            for u in (a, b):
                i, j = min(u, w), max(u, w)
                base[ps.index((i, j))] = 1 if w == j else 2
        out.add(tuple(base))
        full = ref.parents_to_code(p)
        free = [k for k in range(len(ps)) if base[k] == 3]
        for k in free:
            c = list(base)
            c[k] = full[k]
            out.add(tuple(c))
        for a in range(len(free)):
            for b in range(a):
                c = list(base)
                c[free[a]] = full[free[a]]
                c[free[b]] = full[free[b]]
                out.add(tuple(c))
    return sorted(out)


def spaces(tier, seed):
    import cdmir.graph  # noqa
    thorough = tier == 'thorough'
    sp = []
    for n in range(2, 5):
        perms = list(permutations(range(n)))
        cases, single = [], []
        for k, code in enumerate(ref.pdag_codes(n)):
            r = len(perms) if (thorough or n < 4) else 6
            vs = [[(k + j + seed) % 6, perms[(k * 5 + j * 7 + seed) % len(perms)], bool((k + j) % 2)] for j in range(r)]
            cases.append([code, vs])
            single.append([code, (k + seed) % 6, perms[(k * 11 + seed) % len(perms)], bool(k % 2)])
        sp.append(Space(f'closure, PDAGs of {n} nodes', cases, check, limit=20,
                        note='every PDAG (cyclic and non-extendable ones too: termination) under several node orders'))
        sp.append(Space(f'single rules, PDAGs of {n} nodes', single, check_rules, limit=20,
                        note='every extendable PDAG, each rule alone'))
    perms = list(permutations(range(5)))
    cases = []
    kn = knowledge(5, seed)
    for k, c in enumerate(kn):
        q = ref.perm_code(5, c, perms[(k * 31 + seed) % 120])
        cases.append([q, [[(k + j + seed) % 6, perms[(k * 17 + j * 41 + seed) % 120], bool(j)] for j in range(2)]])
    sp.append(Space('closure, 5 nodes with background knowledge', cases, check, limit=20,
                    note='every pattern of 5 nodes plus <= 2 known orientations'))
    r0 = []
    for n in (3, 4):
        ps = list(permutations(range(n)))
        for k, p in enumerate(ref.dags(n)):
            for fat in (False, True):
                r0.append([p, (k + seed) % 6, ps[(k * 5 + seed + fat) % len(ps)], fat])
    for k, p in enumerate(ref.topo_dags(5)):
        q = ref.relabel(p, perms[(k * 37 + seed) % 120])
        r0.append([q, (k + seed) % 6, perms[(k * 11 + seed) % 120], bool(k % 2)])
    sp.append(Space('collider rule', r0, check_rule0, limit=20, note='every DAG <= 4 nodes and every shape of 5'))
    col = []
    for n in (3, 4) + ((5,) if thorough else ()):
        ps = list(permutations(range(n)))
        from itertools import product
        for k, code in enumerate(product((0, 3), repeat=n * (n - 1) // 2)):
            for r in range(1 if n == 5 else 3):
                col.append([code, (k + r + seed) % 6, ps[(k * 5 + r * 7 + seed) % len(ps)], bool((k + r) % 2)])
    if not thorough:
        pick = []
        for code in product((0, 3), repeat=10):
            adj = {frozenset(p) for p, c in zip(ref.pairs(5), code) if c}
            nt = sum(frozenset((i, w)) in adj and frozenset((w, j)) in adj for i, j in ref.pairs(5) if frozenset((i, j)) not in adj
                     for w in range(5) if w not in (i, j))
            if 1 < nt < 6:
                pick.append(code)
        for k, code in enumerate(pick[::3]):
            col.append([code, (k + seed) % 6, perms[(k * 13 + seed) % 120], bool(k % 2)])
    sp.append(Space('collider rule, any separating sets', col, check_collider, limit=60,
                    note='every undirected graph on 3 and 4 nodes (5 thorough; quick: a third of those with 2-5 unshielded triples) x every choice of the unshielded triples'))
    big = []
    for n in (6, 7, 8) + ((9, 10) if thorough else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            m = ref.class_members(par)
            if m is None or len(m) > (5000 if thorough else 720 if n == 6 else 400):
                continue
            big.append([ref.relabel(par, ref.shuffled(n, k + seed)), k + seed, 1 if n == 6 or thorough else 5])
    sp.append(Space('closure, structures of 6 to 8 nodes', big, check_big, chunk=1, limit=400,
                    note='18 families x every one known orientation and (every, from 7 nodes strided) two'))
    far = [[ref.relabel(par, ref.shuffled(n, k + seed + s)), k + seed + s] for n in (12, 24) + ((40,) if thorough else ())
           for k, par in enumerate(ref.sparse(n)) for s in range(2)]
    sp.append(Space('closure, sparse structures of 12 and 24 nodes', far, check_far, chunk=1, limit=200,
                    note='the families without hubs and triangles x every one known orientation'))
    r0b = [[ref.relabel(par, ref.shuffled(n, k + seed)), (k + seed) % 6, ref.shuffled(n, k + 2), bool(k % 2)]
           for n in (6, 7, 8) for k, (_, par) in enumerate(ref.families(n))]
    sp.append(Space('collider rule, structures of 6 to 8 nodes', r0b, check_rule0, limit=60))
    if thorough:
        cases = []
        for k, code in enumerate(ref.pdag_codes(5)):
            cases.append([code, [[(k + seed) % 6, perms[(k * 7 + seed) % 120], bool(k % 2)]]])
        sp.append(Space('closure, PDAGs of 5 nodes', cases, check, limit=20, note='every PDAG of 5 nodes under one node order'))
    return sp
