"""C18: continuous structure learners: penalty, reported adjacency, bounds, optimiser and returned graphs."""
from itertools import product

from mc import ref
from mc.core import Space, Violation, close
from checks.c16_random import acyclic

PROPERTY = 'C18'
TITLE = 'Continuous structure learning penalises exactly cycles and returns DAGs'
ASSUMPTIONS = ['double precision is the default number type, as in the shipped drivers',
               'recovery of the generating graph is required on exact second moments of equal-variance linear models on at most three variables']
PKG = 'cdmir.discovery.score_based.entropy_based.entropy_based_discovery.'


def mod(name):
    import importlib
    import torch
    torch.set_default_dtype(torch.double)
    torch.set_num_threads(1)
    return importlib.import_module(PKG + name)


def penalty(B, d):
    """sum over cycle lengths, from the definition; B non-negative."""
    import numpy as np
    from math import comb
    P = np.eye(d)
    t = 0.0
    for k in range(1, d + 1):
        P = P @ B
        t += comb(d, k) / d ** k * np.trace(P)
    return t


def matrices(n, group):
    import numpy as np
    for code in group:
        k = np.arange(n * n)
        b = np.array([(code >> i) & 1 for i in range(n * n)], dtype=float)
        yield (b * (0.35 + ((k * 7 + code % 90009) % 9) / 6.0) * np.where((k * (code % 100004) + k // 2) % 2, -1, 1)).reshape(n, n)


def put(lin_pos, lin_neg, Wt, split):
    """Wt in the layer's own layout; split decides how it is divided into the two parts."""
    import torch
    W = torch.tensor(Wt)
    extra = 0.25 * split
    with torch.no_grad():
        lin_pos.weight.copy_(torch.clamp(W, min=0) + extra)
        lin_neg.weight.copy_(torch.clamp(-W, min=0) + extra)


def data(n, rows=5):
    import numpy as np
    return np.array([[((r * 5 + c * 3 + r * r * (c + 1)) % 7) / 3.0 - 1 for c in range(n)] for r in range(rows)])


def sig(x):
    import numpy as np
    return 1 / (1 + np.exp(-x))


def check_linear_model(case, rec):
    import numpy as np
    import torch
    L = mod('linear_ent')
    n, group, split = case
    X = data(n)
    for W in matrices(n, group):
        m = L.linear_nonGauss(n)
        put(m.linear_pos, m.linear_neg, W.T, split)
        txt = f'linear model with weights {W.tolist()}'
        h = float(m.h_func())
        cyc = not acyclic((W != 0).tolist())
        want = penalty(W * W, n)
        if not close(h, want, 1e-10, 1e-12) or (h > 1e-14) != cyc and want > 1e-9:
            raise Violation(f'{txt}: penalty {h}, expected {want}')
        if not cyc and abs(h) > 1e-12:
            raise Violation(f'{txt}: acyclic, but the penalty is {h}')
        if not close(m.weight_test(), W, 1e-12, 1e-12):
            raise Violation(f'{txt}: reported weights {m.weight_test().tolist()}')
        out = m(torch.tensor(X)).detach().numpy()
        if not close(out, X @ W, 1e-10, 1e-10):
            raise Violation(f'{txt}: output {out.tolist()} for {X.tolist()}')
        if not close(float(m.abs_L1()), np.abs(W).sum(), 1e-10) or not close(float(m.L1()), W.sum(), 1e-9, 1e-12) \
                or not close(float(m.L2()), (X ** 2).sum() / len(X), 1e-10):
            raise Violation(f'{txt}: regularisers {float(m.abs_L1())}, {float(m.L1())}, {float(m.L2())}')
        # the gradient of the penalty: zero on every edge of an acyclic graph
        m.zero_grad()
        m.h_func().backward()
        g = m.linear_pos.weight.grad.numpy().T
        num = np.zeros((n, n))
        for i, j in product(range(n), repeat=2):
            e = np.zeros((n, n))
            e[i, j] = 1e-6
            num[i, j] = (penalty((W + e) ** 2, n) - penalty((W - e) ** 2, n)) / 2e-6
        if not close(g, num, 1e-5, 1e-6) or not close(m.linear_neg.weight.grad.numpy().T, -num, 1e-5, 1e-6):
            raise Violation(f'{txt}: gradient of the penalty {g.tolist()}, expected {num.tolist()}')
        rep = m.weight_test()
        rep[:] = 9
        if not close(m.weight_test(), W, 1e-12, 1e-12):
            raise Violation(f'{txt}: writing to the reported weights changes the model')
        rec.step(6)
        rec.state()
    rec.trace()
    rec.sample(dict(nodes=n, matrices=len(group)))


def check_mlp(case, rec):
    import numpy as np
    import torch
    which, dims, group, split = case
    L = mod(which)
    n = dims[0]
    X = data(n)
    for code, W in zip(group, matrices(n, group)):
        torch.manual_seed(code % 11)
        m = L.NotearsMLP(dims=list(dims), bias=bool(code % 3))
        m1 = dims[1]
        F = np.zeros((n * m1, n))       # [j * m1, i]
        unit = np.array([[0.3 + ((j * 5 + a * 3 + code) % 7) / 5 for a in range(m1)] for j in range(n)])
        for i, j, a in product(range(n), range(n), range(m1)):
            F[j * m1 + a, i] = W[i, j] * unit[j, a] * (-1) ** (a + j)
        put(m.fc1_pos, m.fc1_neg, F, split)
        txt = f'{which} network {dims} with dependence {W.tolist()}'
        A = W ** 2 * (unit ** 2).sum(1)[None, :]
        h = float(m.h_func())
        if not close(h, penalty(A, n), 1e-9, 1e-12):
            raise Violation(f'{txt}: penalty {h}, expected {penalty(A, n)}')
        if not close(m.fc1_to_adj(), np.sqrt(A), 1e-10, 1e-12):
            raise Violation(f'{txt}: adjacency {m.fc1_to_adj().tolist()}, expected {np.sqrt(A).tolist()}')
        out = m(torch.tensor(X)).detach().numpy()
        z = X @ F.T
        if m.fc1_pos.bias is not None:
            z = z + (m.fc1_pos.bias - m.fc1_neg.bias).detach().numpy()
        z = z.reshape(len(X), n, m1)
        for layer in m.fc2:
            w = layer.weight.detach().numpy()
            b = layer.bias.detach().numpy() if layer.bias is not None else 0
            z = np.stack([sig(z[:, j, :]) @ w[j] for j in range(n)], axis=1) + b
        if not close(out, z[:, :, 0], 1e-9, 1e-10):
            raise Violation(f'{txt}: output {out.tolist()}, expected {z[:, :, 0].tolist()}')
        if not close(float(m.fc1_l1_reg()), np.abs(F).sum() + 2 * 0.25 * split * F.size, 1e-9, 1e-10):
            raise Violation(f'{txt}: l1 term {float(m.fc1_l1_reg())}')
        l2 = (F ** 2).sum() + sum((layer.weight.detach().numpy() ** 2).sum() for layer in m.fc2)
        if not close(float(m.l2_reg()), l2, 1e-9, 1e-10):
            raise Violation(f'{txt}: l2 term {float(m.l2_reg())}, expected {l2}')
        # output j moves with input i exactly if the adjacency says so
        if len(dims) > 2:
            base = z[:, :, 0]
            for i in range(n):
                Y = X.copy()
                Y[:, i] += 0.7
                o = m(torch.tensor(Y)).detach().numpy()
                rec.step()
                for j in range(n):
                    if (np.abs(o[:, j] - base[:, j]).max() > 1e-12) and W[i, j] == 0:
                        raise Violation(f'{txt}: input {i} moves output {j}')
        if code == group[0]:
            bounds(m, [m.fc1_pos, m.fc1_neg], n, X, txt, rec)
            repr(m)
        rec.step(5)
        rec.state()
    rec.trace()
    rec.sample(dict(module=which, dims=list(dims), matrices=len(group)))


def bounds(m, layers, n, X, txt, rec):
    """the entries fixed to zero are exactly those that let an output see its own input."""
    import numpy as np
    import torch
    for layer in layers:
        b = layer.weight.bounds
        size = layer.weight.numel()
        if len(b) != size:
            raise Violation(f'{txt}: {len(b)} bounds for {size} weights')
        for k in range(size):
            with torch.no_grad():
                for other in layers:
                    other.weight.zero_()
                layer.weight.view(-1)[k] = 1.0
            moves = set()
            base = m(torch.tensor(X)).detach().numpy()
            for i in range(n):
                Y = X.copy()
                Y[:, i] += 0.31
                o = m(torch.tensor(Y)).detach().numpy()
                moves |= {(i, j) for j in range(n) if np.abs(o[:, j] - base[:, j]).max() > 1e-9}
            rec.step()
            own = any(i == j for i, j in moves)
            if tuple(b[k]) != ((0, 0) if own else (0, None)) or len(moves) != 1:
                raise Violation(f'{txt}: weight {k} connects {sorted(moves)} and has the bounds {b[k]}')


def check_sobolev(case, rec):
    import numpy as np
    import torch
    which, n, k, group, split = case
    L = mod(which)
    X = data(n)
    for code, W in zip(group, matrices(n, group)):
        m = L.NotearsSobolev(n, k)
        unit = np.array([[0.3 + ((j * 5 + a * 3 + code) % 7) / 5 for a in range(k)] for j in range(n)])
        F = np.zeros((n, n, k))
        for i, j, a in product(range(n), range(n), range(k)):
            F[j, i, a] = W[i, j] * unit[j, a] * (-1) ** (a + j)
        put(m.fc1_pos, m.fc1_neg, F.reshape(n, n * k), split)
        txt = f'{which} basis network of {n} nodes, {k} functions, dependence {W.tolist()}'
        A = W ** 2 * (unit ** 2).sum(1)[None, :]
        if not close(float(m.h_func()), penalty(A, n), 1e-9, 1e-12):
            raise Violation(f'{txt}: penalty {float(m.h_func())}, expected {penalty(A, n)}')
        if not close(m.fc1_to_adj(), np.sqrt(A), 1e-10, 1e-12):
            raise Violation(f'{txt}: adjacency {m.fc1_to_adj().tolist()}, expected {np.sqrt(A).tolist()}')
        out = m(torch.tensor(X)).detach().numpy()
        mu = [2.0 / (2 * a + 1) / np.pi for a in range(k)]
        want = np.zeros_like(X)
        for i, j, a in product(range(n), range(n), range(k)):
            want[:, j] += F[j, i, a] * mu[a] * np.sin(X[:, i] / mu[a])
        if not close(out, want, 1e-9, 1e-10):
            raise Violation(f'{txt}: output {out.tolist()}, expected {want.tolist()}')
        if not close(float(m.fc1_l1_reg()), np.abs(F).sum() + 2 * 0.25 * split * F.size, 1e-9, 1e-10) \
                or not close(float(m.l2_reg()), (want ** 2).sum() / len(X), 1e-9, 1e-10):
            raise Violation(f'{txt}: regularisers {float(m.fc1_l1_reg())}, {float(m.l2_reg())}')
        if code == group[0]:
            bounds(m, [m.fc1_pos, m.fc1_neg], n, X, txt, rec)
        rec.step(5)
        rec.state()
    rec.trace()
    rec.sample(dict(module=which, nodes=n, basis=k, matrices=len(group)))


def check_linear_bounds(case, rec):
    L = mod('linear_ent')
    m = L.linear_nonGauss(case)
    if (m.weight_test() != 0).any():
        raise Violation(f'a new linear model of {case} nodes has the weights {m.weight_test().tolist()}')
    bounds(m, [m.linear_pos, m.linear_neg], case, data(case), f'linear model of {case} nodes', rec)
    rec.state()
    rec.trace()


def check_local(case, rec):
    import numpy as np
    import torch
    L = mod('locally_connected')
    d, a, b, rows, bias = case
    torch.manual_seed(3)
    m = L.LocallyConnected(d, a, b, bias=bias)
    w = m.weight.detach().numpy()
    if w.shape != (d, a, b) or (np.abs(w) > 1 / np.sqrt(a) + 1e-12).any() or (m.bias is None) == bias:
        raise Violation(f'locally connected layer {case}: weights {w.shape}, bias {m.bias}')
    X = np.arange(rows * d * a, dtype=float).reshape(rows, d, a) ** 1.5 % 3 - 1
    keep = X.copy()
    T = torch.tensor(X)
    out = m(T).detach().numpy()
    for j in range(d):
        want = X[:, j] @ w[j] + (m.bias.detach().numpy()[j] if bias else 0)
        if not close(out[:, j], want, 1e-10, 1e-12):
            raise Violation(f'locally connected layer {case}: output {j} is {out[:, j].tolist()}, expected {want.tolist()}')
    if not (T.numpy() == keep).all():
        raise Violation(f'locally connected layer {case} changes its input')
    repr(m)
    rec.step()
    rec.state()
    rec.trace()


def check_lbfgs(case, rec):
    """separable quadratics: the minimiser inside the bounds is known."""
    import numpy as np
    import torch
    L = mod('lbfgsb_scipy')
    shapes, kinds, start = case
    sizes = [int(np.prod(s)) for s in shapes]
    total = sum(sizes)
    target = np.array([1.5, -2.0, 0.5, -0.25, 3.0, -1.0, 0.75, -0.5])[:total]
    curv = np.array([1.0, 2.0, 0.5, 4.0, 1.0, 3.0, 2.0, 1.0])[:total]
    allb = [{0: (None, None), 1: (0, None), 2: (0, 0), 3: (None, -0.5), 4: (-1, 1)}[kinds[k % len(kinds)]] for k in range(total)]
    params = []
    o = 0
    want = []
    for p, (s, size) in enumerate(zip(shapes, sizes)):
        w = torch.nn.Parameter(torch.full(tuple(s), float(start)))
        mine = allb[o:o + size]
        if all(x == (None, None) for x in mine) and p % 2:
            pass          # no bounds attribute at all
        else:
            w.bounds = mine
        for k in range(o, o + size):
            lo, hi = allb[k]
            v = target[k]
            v = max(v, lo) if lo is not None else v
            v = min(v, hi) if hi is not None else v
            want.append(v)
        params.append(w)
        o += size
    # parameters the objective does not use stay where they are
    idle = [torch.nn.Parameter(torch.tensor([[0.5, -3.0]])), torch.nn.Parameter(torch.tensor([2.0]))]
    idle[1].bounds = [(1, None)]
    opt = L.LBFGSBScipy([params[0], idle[0]] + params[1:] + [idle[1]] if sum(kinds) % 2 else params)

    def closure():
        opt.zero_grad()
        o = 0
        loss = 0.0
        for w, size in zip(params, sizes):
            loss = loss + (torch.tensor(curv[o:o + size]) * (w.reshape(-1) - torch.tensor(target[o:o + size])) ** 2).sum()
            o += size
        loss.backward()
        return loss
    opt.step(closure)
    got = np.concatenate([w.detach().numpy().ravel() for w in params])
    rec.step()
    txt = f'bounded minimisation, shapes {shapes}, bounds {allb}, start {start}'
    if [tuple(w.shape) for w in params] != [tuple(s) for s in shapes]:
        raise Violation(f'{txt}: the shapes changed')
    if not close(got, want, 1e-3, 1e-3):
        raise Violation(f'{txt}: minimiser {got.tolist()}, expected {want}')
    for g, (lo, hi) in zip(got, allb):
        if lo is not None and g < lo - 1e-12 or hi is not None and g > hi + 1e-12:
            raise Violation(f'{txt}: {got.tolist()} leaves the bounds')
    opt.step(closure)
    again = np.concatenate([w.detach().numpy().ravel() for w in params])
    if not close(again, want, 1e-3, 1e-3):
        raise Violation(f'{txt}: a second step moves the minimiser to {again.tolist()}')
    if idle[0].tolist() != [[0.5, -3.0]] or idle[1].tolist() != [2.0]:
        raise Violation(f'{txt}: parameters the objective does not use became {idle[0].tolist()} and {idle[1].tolist()}')
    # other bounds from here on
    allb = allb[1:] + allb[:1]
    o = 0
    for w, size in zip(params, sizes):
        w.bounds = allb[o:o + size]
        o += size
    want = [min(max(v, -np.inf if lo is None else lo), np.inf if hi is None else hi) for v, (lo, hi) in zip(target, allb)]
    opt.step(closure)
    rec.step(2)
    again = np.concatenate([w.detach().numpy().ravel() for w in params])
    if not close(again, want, 1e-3, 1e-3):
        raise Violation(f'{txt}: after the bounds were changed to {allb} a step ends at {again.tolist()}, expected {want}')
    rec.state()
    rec.trace()


# ------------------------------------------------------------ learning
def basis(n, m):
    """exactly orthogonal, centred, unit variance columns (cosines)."""
    import numpy as np
    return np.array([[np.cos(np.pi * (k + .5) * (j + 1) / m) for j in range(n)] for k in range(m)]) * np.sqrt(2)


def weights(par, kind):
    import numpy as np
    n = len(par)
    W = np.zeros((n, n))
    k = kind
    for u, v in ref.edges_of(par):
        k += 1
        W[u, v] = (0.8 + .3 * (k % 4)) * (-1) ** (k * (k + 1) // 2)
    return W


def graph_ok(W, thr, txt):
    import numpy as np
    n = len(W)
    if W.shape != (n, n) or not np.isfinite(W).all() or np.diag(W).any():
        raise Violation(f'{txt}: result {W.tolist()}')
    if ((W != 0) & (np.abs(W) < thr)).any():
        raise Violation(f'{txt}: result {W.tolist()} has entries below the threshold {thr}')
    if not acyclic((W != 0).tolist()):
        raise Violation(f'{txt}: result {W.tolist()} has a cycle')


def check_notears(case, rec):
    import numpy as np
    N = mod('linear')
    par, kind, lam, offset = case
    par = tuple(par)
    n = len(par)
    W = weights(par, kind)
    X = basis(n, 48) @ np.linalg.inv(np.eye(n) - W) + offset
    keep = X.copy()
    txt = f'NOTEARS with penalty {lam} on exact data from {W.tolist()}'
    got = N.notears_linear(X, lam, 'l2')
    rec.step()
    if not (X == keep).all():
        raise Violation(f'{txt}: the data were changed')
    graph_ok(got, 0.3, txt)
    if n <= 3 and not ((got != 0) == (W != 0)).all():
        raise Violation(f'{txt}: result {got.tolist()}')
    if n <= 3 and lam <= 0.02 and not close(got, W, 0.12, 0.12):
        raise Violation(f'{txt}: weights {got.tolist()}')
    if not close(N.notears_linear(X, lam, 'l2'), got, 1e-12, 1e-12):
        raise Violation(f'{txt}: a second run gives another result')
    rec.step()
    full = N.notears_linear(X, lam, 'l2', w_threshold=0.0)
    cut = full.copy()
    cut[np.abs(cut) < 0.3] = 0
    if not close(cut, got, 1e-9, 1e-9):
        raise Violation(f'{txt}: with threshold 0 the result is {full.tolist()}, with 0.3 {got.tolist()}')
    rec.step()
    rec.state()
    rec.trace()
    rec.sample(dict(graph=[list(e) for e in ref.edges_of(par)], penalty=lam))


def stationarity(X, W, loss, lam):
    """on its support the result minimises the penalised loss: the gradient there is -lam sign(W)."""
    import numpy as np
    M = X @ W
    if loss == 'l2':
        G = -X.T @ (X - M) / len(X)
    elif loss == 'logistic':
        G = X.T @ (sig(M) - X) / len(X)
    else:
        G = X.T @ (np.exp(M) - X) / len(X)
    S = np.abs(W) > 0.05
    return float(np.abs(G + lam * np.sign(W))[S].max()) if S.any() else 0.0


def check_losses(case, rec):
    """all small data sets: the result is a DAG whose weights solve the penalised regression on the chosen parents."""
    import numpy as np
    N = mod('linear')
    loss, rows, lam = case
    X = np.array(rows, dtype=float)
    keep = X.copy()
    txt = f'NOTEARS, {loss} loss, penalty {lam}, data {rows}'
    W = N.notears_linear(X, lam, loss, w_threshold=0.0)
    rec.step()
    if not (X == keep).all():
        raise Violation(f'{txt}: the data were changed')
    V = np.where(np.abs(W) > 0.05, W, 0)
    graph_ok(V, 0.05, txt)
    if np.diag(W).any():
        raise Violation(f'{txt}: diagonal {np.diag(W).tolist()}')
    Y = X - X.mean(0) if loss == 'l2' else X
    s = stationarity(Y, W, loss, lam)
    if s > 0.02:
        raise Violation(f'{txt}: the result {W.tolist()} is not stationary on its support (gradient off by {s:.4f})')
    # not adding anything is always possible
    def value(A):
        M = Y @ A
        if loss == 'l2':
            v = 0.5 / len(Y) * ((Y - M) ** 2).sum()
        elif loss == 'logistic':
            v = (np.logaddexp(0, M) - Y * M).sum() / len(Y)
        else:
            v = (np.exp(M) - Y * M).sum() / len(Y)
        return v + lam * np.abs(A).sum()
    if value(W) > value(np.zeros_like(W)) + 1e-3:
        raise Violation(f'{txt}: the result {W.tolist()} has the objective {value(W)}, the empty graph {value(np.zeros_like(W))}')
    rec.state()
    rec.trace()


def check_ent(case, rec):
    import numpy as np
    import torch
    L = mod('linear_ent')
    par, kind, beta, gama = case
    par = tuple(par)
    n = len(par)
    W = weights(par, kind)
    X = basis(n, 48) @ np.linalg.inv(np.eye(n) - W)
    keep = X.copy()
    txt = f'linear model trained with entropy weight {beta}, square weight {gama} on exact data from {W.tolist()}'
    m = L.linear_nonGauss(n)
    got = L.train_LBFGSB(m, X, lambda1=0.01, lambda2=0.0, beta=beta, gama=gama)
    rec.step()
    if not (X == keep).all():
        raise Violation(f'{txt}: the data were changed')
    graph_ok(got, 0.3, txt)
    if beta == 0 and not ((got != 0) == (W != 0)).all():
        raise Violation(f'{txt}: result {got.tolist()}')
    raw = m.weight_test()
    cut = np.where(np.abs(raw) < 0.3, 0, raw)
    if not close(cut, got, 1e-9, 1e-9) or (m.linear_pos.weight < 0).any() or (m.linear_neg.weight < 0).any() or np.diag(raw).any():
        raise Violation(f'{txt}: the model holds {raw.tolist()}, the result is {got.tolist()}')
    again = L.train_LBFGSB(L.linear_nonGauss(n), X, lambda1=0.01, lambda2=0.0, beta=beta, gama=gama)
    rec.step()
    if not close(again, got, 1e-9, 1e-9):
        raise Violation(f'{txt}: a second run gives {again.tolist()}, the first {got.tolist()}')
    rec.state()
    rec.trace()


def check_nonlinear(case, rec):
    import numpy as np
    import torch
    which, model, par, kind = case
    L = mod(which)
    par = tuple(par)
    n = len(par)
    E = basis(n, 40)
    X = np.zeros((40, n))
    done = set()
    while len(done) < n:
        for v in range(n):
            if v not in done and all(u in done for u in ref.bits(par[v])):
                X[:, v] = E[:, v] * (1.0 if par[v] == 0 else 0.3) + sum(2 * np.tanh(1.5 * X[:, u] + 0.3 * kind) for u in ref.bits(par[v]))
                done.add(v)
    keep = X.copy()
    txt = f'{which} {model} trained on data from {ref.edges_of(par)}'

    def fit():
        torch.manual_seed(kind)
        m = L.NotearsMLP([n, 3, 1]) if model == 'mlp' else L.NotearsSobolev(n, 2)
        return m, L.notears_nonlinear(m, X, lambda1=0.02, lambda2=0.01)
    m, got = fit()
    rec.step()
    if not (X == keep).all():
        raise Violation(f'{txt}: the data were changed')
    graph_ok(got, 0.3, txt)
    if (got < 0).any():
        raise Violation(f'{txt}: negative strength {got.tolist()}')
    raw = m.fc1_to_adj()
    if not close(np.where(raw < 0.3, 0, raw), got, 1e-9, 1e-9) or (m.fc1_pos.weight < 0).any() or (m.fc1_neg.weight < 0).any():
        raise Violation(f'{txt}: the model holds {raw.tolist()}, the result is {got.tolist()}')
    if which == 'nonlinear' and n == 2 and model == 'mlp':
        joined = bool(got.any())
        if joined != bool(any(par)):
            raise Violation(f'{txt}: result {got.tolist()}')
    if kind == 0:
        again = fit()[1]
        rec.step()
        if not close(again, got, 1e-9, 1e-9):
            raise Violation(f'{txt}: the same start gives {again.tolist()} and {got.tolist()}')
    rec.state()
    rec.trace()


def check_threshold(case, rec):
    """exactly the strengths below the threshold are dropped, whatever their sign and wherever the threshold lies."""
    import numpy as np
    import torch
    which, scale, kind = case
    par = [(0, 1), (0, 1, 0), (0, 1, 3), (0, 0, 3)][kind % 4]
    n = len(par)
    W = np.zeros((n, n))
    for k, (u, v) in enumerate(ref.edges_of(par)):
        W[u, v] = scale * (1 + 0.21 * k) * (-1) ** (k + kind // 4)
    X = basis(n, 36) @ np.linalg.inv(np.eye(n) - W)
    txt = f'{which} on exact data from {W.tolist()}'

    def fit(**kw):
        torch.manual_seed(kind)
        rec.step()
        if which == 'NOTEARS':
            return mod('linear').notears_linear(X, 0.01, 'l2', max_iter=2, **kw)
        if which == 'linear entropy':
            L = mod('linear_ent')
            return L.train_LBFGSB(L.linear_nonGauss(n), X, lambda1=0.01, beta=0.0, gama=1.0, max_iter=2, **kw)
        name, model = which.split()
        L = mod(name)
        m = L.NotearsMLP([n, 2, 1]) if model == 'mlp' else L.NotearsSobolev(n, 2)
        return L.notears_nonlinear(m, X, lambda1=0.01, lambda2=0.01, max_iter=1, **kw)
    full = fit(w_threshold=0.0)
    sizes = sorted({abs(x) for x in full.ravel().tolist() if abs(x) > 1e-6})
    marks = [t for e in sizes for t in (e * (1 - 1e-7), e * (1 + 1e-7))]
    for thr in [None] + marks:
        got = fit() if thr is None else fit(w_threshold=thr)
        want = np.where(np.abs(full) < (0.3 if thr is None else thr), 0.0, full)
        if not close(got, want, 1e-9, 1e-9):
            raise Violation(f'{txt}: without threshold the strengths are {full.tolist()}, with threshold '
                            f'{"0.3 (default)" if thr is None else thr} {got.tolist()}')
    rec.state()
    rec.trace()


def check_stop(case, rec):
    """the dual ascent ends at the first round whose penalty is within the tolerance, and the entropy weight anneals by a tenth per round."""
    import numpy as np
    import torch
    which, kind = case
    par = [(0, 1), (0, 1, 0), (0, 1, 3), (0, 0, 3)][kind % 4]
    n = len(par)
    W = np.zeros((n, n))
    for k, (u, v) in enumerate(ref.edges_of(par)):
        W[u, v] = (0.5 + 0.3 * k) * (-1) ** (k + kind // 4)
    X = basis(n, 36) @ np.linalg.inv(np.eye(n) - W)
    txt = f'{which} on exact data from {W.tolist()}'

    def fit(**kw):
        torch.manual_seed(kind)
        rec.step()
        kw.setdefault('w_threshold', 0.0)
        if which == 'NOTEARS':
            return mod('linear').notears_linear(X, 0.01, 'l2', **kw)
        if which == 'linear entropy':
            L = mod('linear_ent')
            kw.setdefault('beta', 0.0)
            return L.train_LBFGSB(L.linear_nonGauss(n), X, lambda1=0.01, gama=1.0, **kw)
        name, model = which.split()
        L = mod(name)
        m = L.NotearsMLP([n, 2, 1]) if model == 'mlp' else L.NotearsSobolev(n, 2)
        return L.notears_nonlinear(m, X, lambda1=0.01, lambda2=0.01, **kw)
    rounds = 14 if which in ('NOTEARS', 'linear entropy') else 3
    seq = [fit(max_iter=k, h_tol=0.0) for k in range(1, rounds + 1)]
    h = [penalty(w ** 2, n) for w in seq]
    if not close(fit(max_iter=rounds, h_tol=1e30), seq[0], 1e-9, 1e-9):
        raise Violation(f'{txt}: any penalty is tolerated and still more than one round was made')
    for a, b in zip(sorted(h), sorted(h)[1:]):
        if b < 1e-12 or b < a * 1.5:
            continue
        tol = max(a, b * 1e-3) * 0.5 + b * 0.5
        k = next(i for i, x in enumerate(h) if x <= tol)
        got = fit(max_iter=rounds, h_tol=tol)
        if not close(got, seq[k], 1e-9, 1e-9):
            raise Violation(f'{txt}: the penalties per round are {h}; with tolerance {tol} round {k + 1} should be the last '
                            f'({seq[k].tolist()}), the result is {got.tolist()}')
        rec.state()
    for tol in ((1e-9, 1e-10) if rounds > 3 else ()):
        t = penalty(fit(max_iter=60, h_tol=tol) ** 2, n)
        if not t <= tol * 1.001 + 1e-14:
            raise Violation(f'{txt}: the result has the penalty {t}, requested was at most {tol}')
    for w, r in (((1.0, 1), (0.5, 2), (0.35, 1), (0.1, 2), (0.04, 1)) if which == 'linear entropy' else ()):
        if r == 1:
            got, want = fit(max_iter=1, beta=w, anneal=True), fit(max_iter=1, beta=w - 0.1 if w > 0.1 else w)
        else:
            got, want = fit(max_iter=1, beta=w, anneal=False), fit(max_iter=1, beta=w)
        if not close(got, want, 1e-6, 1e-6):
            raise Violation(f'{txt}: entropy weight {w}, annealed: {r == 1}: {got.tolist()}, expected {want.tolist()}')
        rec.state()
    rec.trace()


# ------------------------------------------------------------ entropy
def ref_entropy(r):
    import numpy as np
    s = r.std(ddof=1)
    u = (r - r.mean()) / s
    k1 = 36 / (8 * np.sqrt(3) - 9)
    k2 = 24 / (16 * np.sqrt(3) - 27)
    return 0.5 + 0.5 * np.log(2 * np.pi) + np.log(s) - k1 * np.mean(u * np.exp(-u * u / 2)) ** 2 \
        - k2 * (np.mean(np.exp(-u * u / 2)) - np.sqrt(0.5)) ** 2


def ref_cumulant(r):
    import numpy as np
    s = r.std(ddof=1)
    u = (r - r.mean()) / s
    m2, m3, m4 = (np.mean(u ** k) for k in (2, 3, 4))
    return 0.5 * np.log(s * s) - (m3 / m2 ** 1.5) ** 2 / 12 - (m4 / m2 ** 2) ** 2 / 48, np.mean(np.log(np.cosh(u))) ** 2


def check_entropy(case, rec):
    import numpy as np
    import torch
    U = mod('utils')
    for cells in case:
        r = np.array(cells, dtype=float).reshape(-1, 2 if len(cells) % 2 == 0 else 1)
        if r.std() == 0:
            continue
        base = data(r.shape[1], len(r))
        t = torch.tensor

        def loss(name, res):
            return float(getattr(U, name)(t(base), t(base + res)))
        hc, g1 = ref_cumulant(r)
        want = {'entropy_loss_mentappr': ref_entropy(r), 'entropy_loss_high_order': hc, 'entropy_loss_G1': -g1,
                'entropy_loss_G1_high_order': hc - g1, 'variance_loss': r.std(ddof=1)}
        for name, w in want.items():
            v = loss(name, r)
            rec.step()
            if not close(v, w, 1e-7, 1e-7):
                raise Violation(f'{name} of the residual {r.tolist()}: {v}, expected {w}')
            a = 2.5
            slope = np.log(a) if name in ('entropy_loss_mentappr', 'entropy_loss_high_order', 'entropy_loss_G1_high_order') else 0.0
            v2 = loss(name, a * r + 3)
            w2 = w * a if name == 'variance_loss' else w + slope
            if not close(v2, w2, 1e-6, 1e-6):
                raise Violation(f'{name}: {v} for {r.tolist()}, {v2} after scaling by {a} and shifting')
            if name != 'variance_loss' and not close(loss(name, -r), w, 1e-6, 1e-6):
                raise Violation(f'{name} changes with the sign of the residual {r.tolist()}')
            if not close(loss(name, r[::-1].copy()), v, 1e-7, 1e-7):
                raise Violation(f'{name} depends on the order of the rows of {r.tolist()}')
            rec.step(3)
        # nearest neighbours, per variable
        if (r.std(0) > 0).all():
            z = (r - r.mean(0)) / r.std(0, ddof=1)
            tot = 0.0
            for c in range(r.shape[1]):
                for k in range(len(r)):
                    tot += np.log(min((z[k, c] - z[l, c]) ** 2 for l in range(len(r)) if l != k) + 1e-5)
            v = loss('entropy_loss_knn', r)
            rec.step()
            if not close(v, tot, 1e-6, 1e-6):
                raise Violation(f'entropy_loss_knn of {r.tolist()}: {v}, expected {tot}')
        for name in ('linear_ent', 'nonlinear_ent', 'nonlinear'):
            q = float(mod(name).squared_loss(t(base), t(base + r)))
            if not close(q, 0.5 / len(r) * (r ** 2).sum(), 1e-9, 1e-12):
                raise Violation(f'{name}.squared_loss of the residual {r.tolist()}: {q}')
        rec.step(3)
        rec.state()
    rec.trace()


def check_pairwise(case, rec):
    import numpy as np
    U = mod('utils')
    dist, direct, w, seed = case
    txt = f'pairwise data, {dist} noise, direction {direct}, weight {w}, seed {seed}'

    def sim(weight, linear=True, vc=1.0, ve=1.0, d=direct):
        U.set_seed(seed)
        return U.simulate_pariwise(weight, 6, linear, dist, d, vc, ve)
    a, b = (0, 1) if direct == 0 else (1, 0)
    X, Z = sim(w), sim(0.0)
    rec.step(2)
    if X.shape != (6, 2) or not (X[:, a] == Z[:, a]).all() or not close(X[:, b], Z[:, b] + w * X[:, a], 1e-12, 1e-12):
        raise Violation(f'{txt}: {X.tolist()}, without influence {Z.tolist()}')
    if not (sim(w, d=1 - direct)[:, [1, 0]] == X).all():
        raise Violation(f'{txt}: the other direction is not the same data with exchanged columns')
    if not (sim(w) == X).all():
        raise Violation(f'{txt}: not reproducible')
    N = sim(0.0, linear=False)
    f = np.tanh(Z[:, a]) + np.cos(Z[:, a]) + np.sin(Z[:, a])
    if not close(N[:, b], Z[:, b] + f, 1e-12, 1e-12) or not (N[:, a] == Z[:, a]).all():
        raise Violation(f'{txt}: nonlinear effect {N.tolist()}, noise {Z.tolist()}')
    rec.step(3)
    if dist in ('gauss', 'uniform', 'exp', 'gumbel'):
        S = sim(0.0, vc=4.0, ve=0.25)
        if not close(S[:, a], 2 * Z[:, a], 1e-9, 1e-9) or not close(S[:, b], 0.5 * Z[:, b], 1e-9, 1e-9):
            raise Violation(f'{txt}: with variances 4 and 0.25 the noise is {S.tolist()}, with 1 and 1 {Z.tolist()}')
        if (X[:, a] == Z[:, b]).all():
            raise Violation(f'{txt}: both variables share their noise')
    elif not (Z == np.round(Z)).all() or (Z < 0).any() or dist == 'logistic' and (Z > 1).any():
        raise Violation(f'{txt}: noise {Z.tolist()}')
    rec.step()
    rec.state()
    rec.trace()


def groups(items, k):
    items = list(items)
    return [items[i:i + k] for i in range(0, len(items), k)]


def larger(n, seed):
    """codes of 0/1 patterns on more nodes: 18 families of DAGs, each also with an edge closing a cycle, and rings."""
    out = []
    for k, (_, par) in enumerate(ref.families(n)):
        es = ref.edges_of(ref.relabel(par, ref.shuffled(n, k + seed)))
        c = sum(1 << (u * n + v) for u, v in es)
        out.append(c)
        if es:
            u, v = es[(k * 5) % len(es)]
            out.append(c | 1 << (v * n + u))
            d = ref.descendants(par)
            src = max(range(n), key=lambda v: bin(d[v]).count('1'))
            far = max(ref.bits(d[src] & ~(1 << src)), key=lambda v: (bin(d[v]).count('1') == 1, v))
            p = ref.shuffled(n, k + seed)
            out.append(c | 1 << (p[far] * n + p[src]))
    for m in range(2, n + 1):
        out.append(sum(1 << (i * n + (i + 1) % m) for i in range(m)))
    out.append(1 << (n - 1) * (n + 1))
    return out


def spaces(tier, seed):
    big = tier != 'quick'
    out = []
    all2, all3 = list(range(16)), list(range(512))
    four = [c for c in range(0, 1 << 16, 1 if big else 23)]
    lin = [(1, [0, 1], 0), (2, all2, 0), (2, all2, 1)] + [(3, g, s) for g in groups(all3, 64) for s in (0, 1)]
    lin += [(4, g, 0) for g in groups(four[::3 if big else 5], 120)]
    lin += [(n, larger(n, seed), s) for n in (5, 6, 9) + ((7, 12, 15) if big else ()) for s in (0, 1)]
    out.append(Space('linear model', lin, check_linear_model, chunk=1, note='every 0/1 pattern on at most 3 nodes; 4 nodes strided'))
    nl = ('nonlinear_ent', 'nonlinear')
    mlp = []
    for which in nl:
        for dims in ([2, 1, 1], [2, 3, 1], [2, 2, 2, 1], [2, 1]):
            mlp += [(which, dims, all2, s) for s in (0, 1)]
        for dims in ([3, 2, 1], [3, 1, 3, 1]):
            mlp += [(which, dims, g, 0) for g in groups(all3, 64)]
    mlp += [(nl[0], [4, 2, 1], g, 0) for g in groups(four[::9 if big else 25], 60)]
    mlp += [(nl[k % 2], [n] + hid, larger(n, seed)[k % 3::3], k % 2) for n in (5, 7) for k, hid in enumerate(([2, 1], [3, 1], [2, 2, 1]))]
    out.append(Space('network model', mlp, check_mlp, chunk=1))
    sob = [(which, 2, k, all2, s) for which in nl for k in (1, 2, 3) for s in (0, 1)]
    sob += [(which, 3, 2, g, 0) for which in nl for g in groups(all3, 64)]
    sob += [(nl[k % 2], n, k, larger(n, seed)[k % 3::3], k % 2) for n in (5, 7) for k in (1, 2, 3)]
    out.append(Space('basis model', sob, check_sobolev, chunk=1))
    out.append(Space('bounds of the linear model', [1, 2, 3, 4], check_linear_bounds))
    out.append(Space('locally connected layers', [(d, a, b, r, bias) for d in (1, 2, 3) for a in (1, 2, 3) for b in (1, 2) for r in (1, 2, 4)
                                                  for bias in (True, False)], check_local, chunk=20))
    shapes = [[[3]], [[2, 2]], [[2], [3]], [[1, 2], [2, 1], [2]], [[1], [1], [1]]]
    kinds = list(product(range(5), repeat=3)) if big else [k for k in product(range(5), repeat=3) if sum(k) % 2 == 0 or k[0] == k[1] == k[2]]
    out.append(Space('bounded minimisation', [(s, k, st) for s in shapes for k in kinds for st in (0, 0.4)], check_lbfgs, chunk=40))

    nt = [(p, kd, lam, off) for n in (1, 2, 3) for p in ref.dags(n) for kd, off in ((0, 0.0), (1, 2.0)) for lam in (0.01, 0.1)]
    nt += [(p, 0, 0.05, 0.0) for p in ref.dags(4)[::2 if big else 23]]
    nt += [(ref.relabel(p, ref.shuffled(n, k + seed)), k % 2, 0.1, 0.0) for n in (5, 6) + ((8, 10) if big else ())
           for k, (_, p) in enumerate(ref.families(n)) if big or (k + n) % 3 == 0]
    out.append(Space('NOTEARS on exact data', nt, check_notears, chunk=2, note='every DAG on at most 3 nodes recovered; 4 nodes: form only'))
    th = [(w, sc, k) for w in ('NOTEARS', 'linear entropy', 'nonlinear mlp', 'nonlinear_ent mlp', 'nonlinear basis', 'nonlinear_ent basis')
          for sc in (0.28, 0.33, 0.4, 0.6) for k in range(8 if big or w == 'NOTEARS' else 2 if w == 'linear entropy' else 1)]
    out.append(Space('thresholds', th, check_threshold, chunk=1, note='every learner; thresholds just below and above every strength'))
    st = [(w, k) for w in ('NOTEARS', 'linear entropy', 'nonlinear mlp', 'nonlinear_ent mlp', 'nonlinear basis', 'nonlinear_ent basis')
          for k in range(8 if big or w == 'NOTEARS' else 4 if w == 'linear entropy' else 2)]
    out.append(Space('stopping rule', st, check_stop, chunk=1, note='every learner; tolerances between the penalties of successive rounds'))
    grid = [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1)]
    ls = []
    from itertools import combinations_with_replacement
    for k, rows in enumerate(combinations_with_replacement(grid, 5)):
        loss = ('l2', 'logistic', 'poisson')[k % 3]
        if loss == 'logistic':
            rows = [tuple(min(v, 1) for v in r) for r in rows]
        ls.append((loss, rows, (0.05, 0.15)[k % 2]))
    g3 = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 2), (2, 1, 0), (0, 2, 2)]
    for k, rows in enumerate(list(combinations_with_replacement(g3, 6))[::1 if big else 5]):
        loss = ('l2', 'logistic', 'poisson')[k % 3]
        if loss == 'logistic':
            rows = [tuple(min(v, 1) for v in r) for r in rows]
        ls.append((loss, rows, (0.05, 0.15)[k % 2]))
    out.append(Space('NOTEARS losses on small data', ls, check_losses, chunk=3))
    en = [(p, k, b, g) for n in (1, 2) for p in ref.dags(n) for k in (0, 1) for b, g in ((0, 1), (1, 0), (1, 1))]
    en += [(p, k, b, g) for i, p in enumerate(ref.dags(3)) for k in ((0, 1) if big else (i % 2,)) for b, g in (((0, 1), (1, 0), (1, 1)) if big else ((0, 1),))]
    out.append(Space('linear model trained', en, check_ent, chunk=1))
    nn = [(w, m, p, k) for w in nl for m in ('mlp', 'basis') for p in ref.dags(2) for k in range(6 if big else 2)]
    nn += [(w, m, p, k) for w in nl for m in ('mlp', 'basis') for p in ref.dags(3)[::1 if big else 6] for k in range(2 if big else 1)]
    out.append(Space('networks trained', nn, check_nonlinear, chunk=1))
    ent = groups([c for c in product((-1, 0, 0.5, 2), repeat=4)], 32) + groups([c for c in product((-1, 0, 2), repeat=6)], 60) \
        + groups([c for c in product((0, 1, 3), repeat=5)], 40)
    out.append(Space('entropy estimates', ent, check_entropy, chunk=1, note='every residual over the grid: 2x2, 3x2, 5x1'))
    out.append(Space('pairwise data', [(d, k, w, s) for d in ('gauss', 'uniform', 'gumbel', 'exp', 'logistic', 'poisson') for k in (0, 1)
                                       for w in (0.7, -2.0) for s in range(20 if big else 4)], check_pairwise, chunk=8))
    return out
