"""Boring reference semantics used as the model side of every check.

Nothing here imports the code under test.  Graphs on nodes 0..n-1 are tuples:
  dag   : tuple of parent bitmasks, dag[v] has bit u set iff u -> v
  pdag  : dict-free code, a tuple over pairs (i<j) in lexicographic order with
          0 = no edge, 1 = i -> j, 2 = j -> i, 3 = i -- j
"""
from functools import lru_cache
from itertools import combinations, permutations, product


def pairs(n):
    return list(combinations(range(n), 2))


def bits(mask):
    out = []
    i = 0
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return out


def subsets(items):
    items = list(items)
    for r in range(len(items) + 1):
        for c in combinations(items, r):
            yield c


# ----------------------------------------------------------------- digraphs
def code_to_parents(n, code):
    """pdag code without 3s -> parent bitmasks."""
    par = [0] * n
    for (i, j), c in zip(pairs(n), code):
        if c == 1:
            par[j] |= 1 << i
        elif c == 2:
            par[i] |= 1 << j
    return tuple(par)


def parents_to_code(par):
    n = len(par)
    out = []
    for i, j in pairs(n):
        if par[j] >> i & 1:
            out.append(1)
        elif par[i] >> j & 1:
            out.append(2)
        else:
            out.append(0)
    return tuple(out)


def acyclic(par):
    n = len(par)
    left = (1 << n) - 1
    progress = True
    while left and progress:
        progress = False
        for v in range(n):
            if left >> v & 1 and not par[v] & left:
                left &= ~(1 << v)
                progress = True
    return left == 0


@lru_cache(None)
def oriented_codes(n):
    """every digraph without 2-cycles on n labelled nodes."""
    return tuple(product((0, 1, 2), repeat=n * (n - 1) // 2))


@lru_cache(None)
def dags(n):
    """every labelled DAG on n nodes (parent bitmasks); few edges first."""
    out = []
    for code in oriented_codes(n):
        p = code_to_parents(n, code)
        if acyclic(p):
            out.append(p)
    out.sort(key=lambda p: (sum(bin(x).count('1') for x in p), p))
    return tuple(out)


@lru_cache(None)
def topo_dags(n):
    """every DAG whose edges all go from a smaller to a larger label (covers
    every isomorphism class)."""
    out = []
    ps = pairs(n)
    for code in product((0, 1), repeat=len(ps)):
        out.append(code_to_parents(n, code))
    return tuple(out)


def canonical(par):
    n = len(par)
    best = None
    for perm in permutations(range(n)):
        q = relabel(par, perm)
        if best is None or q < best:
            best = q
    return best


def relabel(par, perm):
    """node v becomes perm[v]."""
    n = len(par)
    q = [0] * n
    for v in range(n):
        m = 0
        for u in range(n):
            if par[v] >> u & 1:
                m |= 1 << perm[u]
        q[perm[v]] = m
    return tuple(q)


@lru_cache(None)
def unlabelled_dags(n):
    seen = {}
    for p in topo_dags(n):
        # cheap invariant first
        seen.setdefault(canonical(p), p)
    return tuple(sorted(seen.values(), key=lambda p: (sum(bin(x).count('1') for x in p), p)))


def edges_of(par):
    return [(u, v) for v in range(len(par)) for u in bits(par[v])]


def children_of(par):
    n = len(par)
    ch = [0] * n
    for u, v in edges_of(par):
        ch[u] |= 1 << v
    return tuple(ch)


def skeleton(par):
    n = len(par)
    adj = [0] * n
    for u, v in edges_of(par):
        adj[u] |= 1 << v
        adj[v] |= 1 << u
    return tuple(adj)


def descendants(par):
    """mask of descendants including the node itself."""
    n = len(par)
    ch = children_of(par)
    out = []
    for v in range(n):
        seen = 1 << v
        todo = [v]
        while todo:
            x = todo.pop()
            for y in bits(ch[x]):
                if not seen >> y & 1:
                    seen |= 1 << y
                    todo.append(y)
        out.append(seen)
    return tuple(out)


def ancestors(par, mask):
    seen = mask
    todo = bits(mask)
    while todo:
        x = todo.pop()
        for y in bits(par[x]):
            if not seen >> y & 1:
                seen |= 1 << y
                todo.append(y)
    return seen


# -------------------------------------------------------------- d-separation
def dsep_paths(par, x, y, zmask):
    """Textbook definition: x and y are d-separated by Z iff every simple path
    of the skeleton is blocked."""
    adj = skeleton(par)
    desc = descendants(par)

    def edge(u, v):
        return par[v] >> u & 1

    def walk(path):
        last = path[-1]
        if last == y:
            for a, b, c in zip(path, path[1:], path[2:]):
                if edge(a, b) and edge(c, b):
                    if not desc[b] & zmask:
                        return False
                elif zmask >> b & 1:
                    return False
            return True
        for w in bits(adj[last]):
            if w not in path and walk(path + [w]):
                return True
        return False

    return not walk([x])


def dsep_moral(par, xmask, ymask, zmask):
    """Independent second definition: separation in the moralised ancestral graph."""
    n = len(par)
    anc = ancestors(par, xmask | ymask | zmask)
    adj = [0] * n
    for v in bits(anc):
        ps = bits(par[v])
        for u in ps:
            adj[u] |= 1 << v
            adj[v] |= 1 << u
        for a, b in combinations(ps, 2):
            adj[a] |= 1 << b
            adj[b] |= 1 << a
    seen = xmask & ~zmask
    todo = bits(seen)
    while todo:
        v = todo.pop()
        for w in bits(adj[v] & ~zmask):
            if not seen >> w & 1:
                seen |= 1 << w
                todo.append(w)
    return not (seen & ymask)


# ------------------------------------------------------- Markov equivalence
def vstructs(par):
    adj = skeleton(par)
    out = set()
    for w in range(len(par)):
        for a, b in combinations(bits(par[w]), 2):
            if not adj[a] >> b & 1:
                out.add((a, w, b))
    return frozenset(out)


def pattern_key(par):
    return skeleton(par), vstructs(par)


@lru_cache(None)
def mec_table(n):
    """pattern key -> list of all labelled DAGs in the class."""
    t = {}
    for p in dags(n):
        t.setdefault(pattern_key(p), []).append(p)
    return t


def union_code(n, members):
    code = None
    for p in members:
        c = parents_to_code(p)
        if code is None:
            code = list(c)
        else:
            code = [a | b for a, b in zip(code, c)]
    return tuple(code)


@lru_cache(None)
def cpdag_table(n):
    """dag -> essential graph, straight from the definition (union of all the
    DAGs with the same skeleton and v-structures)."""
    out = {}
    for members in mec_table(n).values():
        c = union_code(n, members)
        for p in members:
            out[p] = c
    return out


def cpdag(par):
    """essential graph of one DAG (brute force over orientations of its skeleton)."""
    n = len(par)
    vs = vstructs(par)
    code = tuple(3 if c else 0 for c in parents_to_code(par))
    ext = extensions(n, code, vs)
    return union_code(n, ext)


# -------------------------------------------------------------------- PDAGs
def pdag_codes(n, marks=(0, 1, 2, 3)):
    return product(marks, repeat=n * (n - 1) // 2)


def pdag_directed(n, code):
    par = [0] * n
    for (i, j), c in zip(pairs(n), code):
        if c == 1:
            par[j] |= 1 << i
        elif c == 2:
            par[i] |= 1 << j
    return tuple(par)


def pdag_adj(n, code):
    adj = [0] * n
    for (i, j), c in zip(pairs(n), code):
        if c:
            adj[i] |= 1 << j
            adj[j] |= 1 << i
    return tuple(adj)


def pdag_vstructs(n, code):
    par = pdag_directed(n, code)
    adj = pdag_adj(n, code)
    out = set()
    for w in range(n):
        for a, b in combinations(bits(par[w]), 2):
            if not adj[a] >> b & 1:
                out.add((a, w, b))
    return frozenset(out)


def extensions(n, code, vs=None):
    """all consistent extensions: acyclic, same skeleton, every directed edge
    kept, and exactly the given v-structures (those of the PDAG by default)."""
    if vs is None:
        vs = pdag_vstructs(n, code)
    choices = [(1, 2) if c == 3 else (c,) for c in code]
    out = []
    for pick in product(*choices):
        p = code_to_parents(n, pick)
        if acyclic(p) and vstructs(p) == vs:
            out.append(p)
    return out


def perm_code(n, code, perm):
    """relabel a pdag code, node v becomes perm[v]."""
    d = {}
    for (i, j), c in zip(pairs(n), code):
        a, b = perm[i], perm[j]
        if a < b:
            d[(a, b)] = c
        else:
            d[(b, a)] = {0: 0, 1: 2, 2: 1, 3: 3}[c]
    return tuple(d[p] for p in pairs(n))


# ------------------------------------------------------------ larger structures
def class_members(par, cap=5000):
    """the Markov equivalence class of a DAG: everything reachable by reversing covered edges (None if larger than cap)."""
    seen, todo = {par}, [par]
    while todo:
        p = todo.pop()
        for v in range(len(p)):
            for u in bits(p[v]):
                if p[u] == p[v] & ~(1 << u):
                    q = list(p)
                    q[v] &= ~(1 << u)
                    q[u] |= 1 << v
                    q = tuple(q)
                    if q not in seen:
                        if len(seen) >= cap:
                            return None
                        seen.add(q)
                        todo.append(q)
    return sorted(seen)


@lru_cache(None)
def essential(par):
    """essential graph by enumerating the class."""
    n = len(par)
    if len(edges_of(par)) == n * (n - 1) // 2:
        return (3,) * (n * (n - 1) // 2)
    m = class_members(par)
    return None if m is None else union_code(n, m)


def from_edges(n, edges):
    par = [0] * n
    for u, v in edges:
        par[v] |= 1 << u
    return tuple(par)


@lru_cache(None)
def families(n):
    """structured DAGs on n >= 4 nodes: [(name, parents)], every edge from a smaller to a larger label or as named."""
    r = range(n)
    h = n // 2
    out = [('empty', []), ('chain', [(i, i + 1) for i in r[:-1]]),
           ('zigzag', [(i, i + 1) if i % 2 else (i + 1, i) for i in r[:-1]]),
           ('fork', [(0, i) for i in r[1:]]), ('sink', [(i, n - 1) for i in r[:-1]]),
           ('meeting chains', [(i, i + 1) for i in range(h)] + [(i + 1, i) for i in range(h, n - 1)]),
           ('out tree', [((i - 1) // 2, i) for i in r[1:]]), ('in tree', [(i, (i - 1) // 2) for i in r[1:]]),
           ('two parts', [(i, i + 1) for i in r[:-1] if i != h - 1]),
           ('bipartite', [(i, j) for i in range(2) for j in r[2:]]), ('bipartite in', [(i, j) for i in r[:-2] for j in (n - 2, n - 1)]),
           ('ring, one collider', [(i, i + 1) for i in r[:-1]] + [(0, n - 1)]),
           ('ladder', [(i, i + 2) for i in r[:-2]] + [(i, i + 1) for i in range(0, n - 1, 2)]),
           ('band of width 2', [(i, j) for i in r for j in (i + 1, i + 2) if j < n]),
           ('wheel', [(0, i) for i in r[1:]] + [(i, i + 1) for i in r[1:-1]]),
           ('collider pairs', [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)])]
    if n <= 9:
        out.append(('complete', [(i, j) for i, j in combinations(r, 2)]))
        out.append(('complete but one', [(i, j) for i, j in combinations(r, 2) if (i, j) != (0, n - 1)]))
    seen, res = set(), []
    for name, es in out:
        p = from_edges(n, es)
        assert acyclic(p)
        if p not in seen:
            seen.add(p)
            res.append((name, p))
    return tuple(res)


def shuffled(n, k):
    """k-th of a family of fixed relabellings of 0..n-1."""
    from math import gcd
    a = [x for x in range(1, n) if gcd(x, n) == 1] or [1]
    return [(a[(3 * k + 1) % len(a)] * i + k) % n for i in range(n)]


def triangle_free(par):
    adj = skeleton(par)
    return not any(adj[u] & adj[v] for u, v in edges_of(par))


def spread(par, start):
    """closure of a set of known arrows (u, v) of a triangle-free DAG: no arrow may meet an undirected edge head-on."""
    adj = skeleton(par)
    known, todo = set(start), list(start)
    while todo:
        u, v = todo.pop()
        for w in bits(adj[v]):
            if w != u and (v, w) not in known and (w, v) not in known:
                known.add((v, w))
                todo.append((v, w))
    return known


def collider_arrows(par):
    return {(u, w) for a, w, b in vstructs(par) for u in (a, b)}


def essential_sparse(par):
    """essential graph of a DAG without triangles, in linear time."""
    known = spread(par, collider_arrows(par))
    return tuple(0 if not c else 1 if (i, j) in known else 2 if (j, i) in known else 3
                 for (i, j), c in zip(pairs(len(par)), parents_to_code(par)))


def sparse(n):
    """the families whose nodes have few neighbours and that contain no triangle."""
    names = ('empty', 'chain', 'zigzag', 'meeting chains', 'out tree', 'in tree', 'two parts', 'ring, one collider', 'ladder', 'collider pairs')
    return [p for name, p in families(n) if name in names and triangle_free(p)]
