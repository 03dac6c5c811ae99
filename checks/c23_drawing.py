"""C23: the drawing of a graph shows exactly the graph."""
from itertools import combinations, permutations, product

from mc.core import Space, Violation, close

PROPERTY = 'C23'
TITLE = 'Drawings show exactly the nodes, edges and marks of the graph'
ASSUMPTIONS = ['the figure is read as matplotlib artists (patches and texts), not as pixels']

NAMES = [['a', 'b', 'c', 'd', 'e'], [3, 0, 2, 1, 10], ['x', 1, '1', 2.5, ('t', 0)], ['X10', 'X2', 'X1', '?', 'L3'],
         ['n%d' % (i * 7 % 17) for i in range(17)], [i * 5 % 17 for i in range(17)]]


def build(names, edges, cls='Graph'):
    from cdmir import graph as G
    g = getattr(G, cls)(list(names))
    for (i, j), (mu, mv) in edges:
        g.add_edge(G.Edge(names[i], names[j], G.Mark(mu), G.Mark(mv)))
    return g


def read(fig):
    """circles with labels, lines with the marks at their ends."""
    from matplotlib import patches
    ax, = fig.axes
    circles, arrows = [], []
    for p in ax.patches:
        if isinstance(p, patches.FancyArrowPatch):
            (a, b) = p._posA_posB
            st = p.get_arrowstyle()
            form = type(st).arrow
            arrows.append((tuple(map(float, a)), tuple(map(float, b)), form[0] == '<', form[-1] == '>'))
        elif isinstance(p, patches.Circle):
            circles.append((tuple(map(float, p.center)), float(p.radius), tuple(p.get_facecolor())))
        else:
            raise Violation(f'unexpected artist {p}')
    texts = [((float(t.get_position()[0]), float(t.get_position()[1])), t.get_text()) for t in ax.texts]
    return circles, arrows, texts


def dist(a, b):
    return ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5


def check_plot(case, rec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from functools import partial
    from cdmir.visual import circular_layout, plot_graph
    cls, style, n, edges, latent, layout, radius, ratio = case
    names = NAMES[style][:n]
    g = build(names, [((e[0], e[1]), e[2]) for e in edges], cls)
    before = sorted(map(repr, g.edges))
    lat = [names[i] for i in latent]
    form = (lat, [str(x) for x in lat], set(lat), None if not lat else tuple(lat))[(n + len(edges) + sum(latent)) % 4]
    pts = [(0.3, 0.1), (-0.2, 0.35), (0.05, -0.4), (-0.45, -0.1), (0.44, -0.3)]
    pts += [(((k * 38) % 97 - 48) / 100, ((k * 61) % 89 - 44) / 100) for k in range(5, n)]
    if layout == 'circle':
        lay = circular_layout
    elif layout == 'sorted':
        lay = partial(circular_layout, sort_node=True, scale=0.3)
    else:
        lay = lambda gr: {x: pts[k] for k, x in enumerate(gr.nodes)}
    kw = {}
    if radius is not None:
        kw = dict(node_radius=radius, edge_circle_mark_ratio=ratio)
    size = (None, (3, 3), (5, 2), None)[(n + 2 * len(edges)) % 4]
    if size is not None:
        kw['figsize'] = size
    dpi = 50 + 10 * (len(edges) % 2)
    fig = plot_graph(g, lay, is_latent=form, dpi=dpi, **kw)
    try:
        circles, arrows, texts = read(fig)
        rec.expect(fig.dpi == dpi and (size is None or close(fig.get_size_inches(), size)),
                   f'figure of size {fig.get_size_inches()} and resolution {fig.dpi}, requested {size} and {dpi}')
    finally:
        plt.close(fig)
    r = 0.04 if radius is None else radius
    small = r * (1 / 6 if ratio is None else ratio)
    pos = {x: (p[0] + .5, p[1] + .5) for x, p in lay(g).items()}
    what = f'{cls} on {names} with {edges}, latent {lat}, layout {layout}'
    rec.step(len(circles) + len(arrows))
    # nodes
    nodes = [c for c in circles if abs(c[1] - r) < 1e-9]
    marks = [c for c in circles if abs(c[1] - small) < 1e-9]
    if len(nodes) != n or len(nodes) + len(marks) != len(circles) or len(texts) != n:
        raise Violation(f'{what}: {len(nodes)} node circles, {len(marks)} end circles and {len(texts)} labels are drawn')
    # with equal labels, several nodes may own a label; every node must find a circle and a text at its own place
    for i, x in enumerate(names):
        at = [c for c in nodes if dist(c[0], pos[x]) < 1e-9]
        tx = [t for t in texts if dist(t[0], pos[x]) < 1e-9]
        if len(at) != 1 or len(tx) != 1 or tx[0][1] != str(x):
            raise Violation(f'{what}: node {x!r} at {pos[x]} has circles {at} and labels {tx}')
        white = close(at[0][2][:3], (1, 1, 1))
        isl = i in latent or (form is not None and any(str(x) == y for y in form if isinstance(y, str)))
        if white != isl:
            raise Violation(f'{what}: node {x!r} is drawn {"as latent" if white else "as observed"}')
    # edges
    want = []
    used = []
    for i, j, (mu, mv) in edges:
        a, b = pos[names[i]], pos[names[j]]
        d = dist(a, b)
        ux, uy = (b[0] - a[0]) / d, (b[1] - a[1]) / d
        s = r + (2 * small if mu == 2 else 0)
        t = r + (2 * small if mv == 2 else 0)
        ends = ((a[0] + ux * s, a[1] + uy * s), (b[0] - ux * t, b[1] - uy * t))
        if mu == 2:
            used.append((a[0] + ux * (r + small), a[1] + uy * (r + small)))
        if mv == 2:
            used.append((b[0] - ux * (r + small), b[1] - uy * (r + small)))
        want.append((ends[0], ends[1], mu == 1, mv == 1))
    if len(arrows) != len(want):
        raise Violation(f'{what}: {len(arrows)} lines are drawn')
    free = list(arrows)
    for w in want:
        hit = [f for f in free if (dist(f[0], w[0]) < 1e-9 and dist(f[1], w[1]) < 1e-9 and f[2:] == w[2:])
               or (dist(f[1], w[0]) < 1e-9 and dist(f[0], w[1]) < 1e-9 and (f[3], f[2]) == w[2:])]
        if not hit:
            raise Violation(f'{what}: no line from {w[0]} to {w[1]} with arrowheads {w[2:]}; drawn are {free}')
        free.remove(hit[0])
    if len(used) != len(marks) or any(not any(dist(m[0], u) < 1e-9 for m in marks) for u in used):
        raise Violation(f'{what}: end circles are drawn at {[m[0] for m in marks]}, expected at {used}')
    rec.expect(sorted(map(repr, g.edges)) == before, what + ': drawing changed the graph')
    rec.state()
    rec.trace()


def plot_cases(tier):
    out = []
    marks = [m for m in product((-1, 1, 2), repeat=2)]
    k = 0
    for n in (0, 1, 2, 3):
        pairs = list(combinations(range(n), 2))
        for ms in product([None] + marks, repeat=len(pairs)):
            edges = [[p[0], p[1], list(m)] if (k + q) % 2 else [p[1], p[0], list(m)] for q, (p, m) in enumerate(zip(pairs, ms)) if m]
            k += 1
            if n == 3 and tier == 'quick' and k % 2:
                continue
            for st in (range(4) if n < 3 else [k // 2 % 4]):
                lat = [i for i in range(n) if (k >> i) & 1] if st != 2 else []
                r, q = ((None, None), (0.05, 0.25), (0.02, 0.1))[k % 3]
                out.append(['Graph', st, n, edges, lat, ('circle', 'sorted', 'own')[k // 2 % 3], r, q])
    for n in (4, 5):
        pairs = list(combinations(range(n), 2))
        for q in range(100 if tier == 'quick' else 1500):
            code = (q * 7919 + 13 * n) % (10 ** 6)
            edges = []
            for p in pairs:
                c, code = code % 10, code // 3 + q + 17 * p[0] + p[1]
                if c:
                    edges.append([p[0], p[1], list(marks[c - 1])])
            out.append(['Graph', q % 4, n, edges, [q % n] if q % 4 != 2 else [], ('circle', 'sorted', 'own')[q % 3], None, None])
    for cls, ms in (('DiGraph', [(-1, 1), (1, -1)]), ('PDAG', [(-1, 1), (1, -1), (-1, -1)])):
        for st in range(4):
            for c in product([None] + ms, repeat=3):
                e = [[p[0], p[1], list(m)] for p, m in zip(combinations(range(3), 2), c) if m]
                if cls == 'DiGraph':
                    e = [[i, j, m] if m == [-1, 1] else [j, i, [-1, 1]] for i, j, m in e]
                    if len(e) == 3 and len({x[0] for x in e}) == 3:
                        continue
                if cls == 'PDAG':
                    e = [[i, j, m] if m != [1, -1] else [j, i, [-1, 1]] for i, j, m in e]
                    if len(e) == 3 and all(x[2] == [-1, 1] for x in e) and len({x[0] for x in e}) == 3:
                        continue
                out.append([cls, st, 3, e, [], 'circle', None, None])
    return out


def large_cases(tier, seed):
    """drawings of larger graphs: 18 families of edge sets with every kind of end mark."""
    from mc import ref
    marks = [list(m) for m in product((-1, 1, 2), repeat=2)]
    out = []
    for n in (6, 9, 13) + ((17,) if tier == 'thorough' else ()):
        for k, (_, par) in enumerate(ref.families(n)):
            es = ref.edges_of(ref.relabel(par, ref.shuffled(n, k + seed)))
            lay = ('circle', 'sorted', 'own')[(k + n) % 3]
            out.append(['Graph', 4 + k % 2, n, [[u, v, marks[(q + k) % 9]] for q, (u, v) in enumerate(es)], [i for i in range(n) if (i + k) % 4 == 0],
                        lay, *((None, None), (0.02, 0.2))[k % 2]])
            out.append(['DiGraph', 4 + k % 2, n, [[u, v, [-1, 1]] for u, v in es], [k % n], lay, None, None])
            out.append(['PDAG', 5 - k % 2, n, [[u, v, [-1, 1 if (q + k) % 2 else -1]] for q, (u, v) in enumerate(es)], [], lay, 0.01, 1 / 3])
    return out


def check_layout(case, rec):
    from math import atan2, hypot, pi
    from cdmir.graph import Graph
    from cdmir.visual import circular_layout
    style, order, scale, srt = case
    names = [NAMES[style][i] for i in order]
    g = Graph(names)
    kw = {} if scale is None else dict(scale=scale)
    pos = circular_layout(g, sort_node=srt, **kw)
    rec.step(len(pos))
    n = len(names)
    what = f'circular_layout of {names} (scale {scale}, sorted {srt})'
    if set(pos) != set(names):
        raise Violation(f'{what} places {list(pos)}')
    R = 0.45 if scale is None else scale
    want = sorted(names, key=str) if srt else names
    ang = []
    for x in want:
        if abs(hypot(*pos[x]) - R) > 1e-9:
            raise Violation(f'{what}: {x!r} is not on the circle: {pos[x]}')
        ang.append((pi / 2 - atan2(pos[x][1], pos[x][0])) % (2 * pi))
    if n and not (min(ang[0], 2 * pi - ang[0]) < 1e-9):
        raise Violation(f'{what}: the first node is not at the top: {pos[want[0]]}')
    strs = [str(x) for x in want]
    if not srt or len(set(strs)) == n:
        for i in range(1, n):
            if abs(ang[i] - 2 * pi * i / n) > 1e-9:
                raise Violation(f'{what}: node {i} of the order {want} is at angle {ang[i]}, expected {2 * pi * i / n} clockwise from the top')
    rec.state()


def layout_cases(tier):
    out = []
    for n in (6, 7, 8, 10, 11, 12, 16, 17):
        for st in (4, 5):
            for k in range(1, 4):
                for sc, srt in ((None, False), (None, True), (1.0, False), (0.2, True)):
                    out.append([st, [(i * (k + 1) + k) % 17 for i in range(n)], sc, srt])
    for st in range(4):
        for n in range(0, 5 if tier == 'quick' else 6):
            for o in permutations(range(5), n):
                for sc, srt in ((None, False), (None, True), (1.0, False), (0.2, True)):
                    out.append([st, list(o), sc, srt])
    return out


def init():
    import matplotlib
    matplotlib.use('Agg')
    import cdmir.visual  # noqa


def spaces(tier, seed):
    return [Space('plot', plot_cases(tier), check_plot, limit=60, init=init, note='all mark pairs on <= 3 nodes, strided on 4 and 5; four naming styles'),
            Space('plot, 6 to 13 nodes', large_cases(tier, seed), check_plot, limit=120, init=init, note='18 families of edge sets, all mark pairs, three classes'),
            Space('layout', layout_cases(tier), check_layout, limit=30, note='every node order of <= 4 (5) of 5 nodes')]
