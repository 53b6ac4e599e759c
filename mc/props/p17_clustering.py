"""Clustering: label utilities, k-means, spectral and sparse subspace clustering."""
import itertools
import math
import numpy as np
from mc.core import Task

ID = 'P17'
RULE = ('Label utilities: all label vectors up to the stated length over up to 4 labels (all pairs of true/predicted labellings), the reference maximises the overlap over all injections of labels. '
        'k-means: every history (prefix 0..T of the iteration) for all point sets of the grid family x k x keys is checked to be a run of Lloyd\'s iteration with the documented stopping rule and the returned run to be one of them. '
        'Spectral clustering: every partition of n vertices into blocks, with unit and generic weights: assignments must be that partition. '
        'SSC: every point set of the family x every sparsity: every selection step, coefficient and residual is checked; angle, neighbour and subspace preservation statistics on all listed point sets and all compositions of n into clusters. A state is a distinct result.')
ASSUME = ['centroids of empty clusters are not constrained', 'graphs have no isolated vertices for the normalised variants; components are not bipartite for the SVD based fast variants',
          'the unspecified number of clusters is claimed where the largest spectral gap is at the kernel', 'columns of representation matrices are non-zero',
          'clusters of one point have no inside neighbour', 'coefficients are zero or above the threshold 1e-3', 'the Lanczos based (fast) spectral clustering is explored for components of equal size only']


def tasks(tier):
    th = tier == 'thorough'
    ts = [Task('sizes', 'sizes', dict(th=th), cost=20)]
    for n in (2, 3, 4, 5) + ((6,) if th else ()):
        for part in range(1 if n < 5 else 4):
            ts.append(Task(f'best_map n={n} part={part}', 'bestmap', dict(n=n, part=part, parts=1 if n < 5 else 4, th=th), cost=30 if n < 5 else 60))
    ts.append(Task('best_map labels', 'bestmap_odd', dict(th=th), cost=20))
    for k in (1, 2, 3):
        for n in (4, 5, 6):
            ts.append(Task(f'kmeans n={n} k={k}', 'kmeans', dict(n=n, k=k, th=th), cost=40))
    ts.append(Task('kmeans best', 'kmeans_best', dict(th=th), cost=50))
    for f in ('unnormalized_k_jit', 'normalized_random_walk_k_jit'):
        for n in (3, 4, 5, 6) + ((7,) if th else ()):
            ts.append(Task(f'{f} n={n}', 'spectral', dict(f=f, n=n, th=th), cost=30 + n ** 2))
    for f in ('unnormalized', 'normalized_random_walk'):
        ts.append(Task(f'{f} auto', 'spectral_auto', dict(f=f, th=th), cost=70))
    for f in ('normalized_symmetric_fast_k_jit', 'normalized_symmetric_sparse_fast_k_jit'):
        ts.append(Task(f'{f}', 'spectral_fast', dict(f=f, th=th), cost=60))
    ts.append(Task('laplacians', 'laplacians', dict(th=th), cost=20))
    for n in (3, 4, 5, 6, 8):
        ts.append(Task(f'ssc-omp n={n}', 'ssc_omp', dict(n=n, th=th), cost=40 + 10 * n))
    ts.append(Task('ssc rep', 'ssc_rep', dict(th=th), cost=30))
    ts.append(Task('ssc angles', 'ssc_angles', dict(th=th), cost=40))
    ts.append(Task('ssc spr', 'ssc_spr', dict(th=th), cost=40))
    return ts


def sizes(ctx, th):
    import cr.sparse.cluster as cl
    for k in (1, 2, 3, 4):
        for n in range(1, 6):
            for lab in itertools.product(range(k), repeat=n):
                with ctx.case(f'sizes k={k} labels={lab}') as c:
                    s = np.asarray(cl.sizes_from_labels_jit(np.array(lab), k))
                    c.close(s, [lab.count(i) for i in range(k)], 'cluster sizes', tol=0)
                    c.state(s)
                    ctx.n_exec += 1
    for k in (1, 2, 3, 4):
        for sz in itertools.product(range(0 if k > 1 else 1, 4), repeat=k):
            if sum(sz) == 0:
                continue
            with ctx.case(f'start_end sizes={sz}') as c:
                st, en = (np.asarray(t) for t in cl.start_end_indices(np.array(sz)))
                cum = np.concatenate([[0], np.cumsum(sz)])
                c.close(st, cum[:-1], 'start of every cluster', tol=0)
                c.close(en, cum[1:], 'end of every cluster', tol=0)
                lab = np.asarray(cl.labels_from_sizes(np.array(sz)))
                c.close(lab, np.repeat(np.arange(k), sz), 'labels from sizes', tol=0)
                c.close(np.asarray(cl.sizes_from_labels(lab, k)), sz, 'sizes of labels of sizes', tol=0)
                ctx.n_exec += 3


def overlap_opt(t, p):
    """largest number of matches over all injective relabellings"""
    T, P = sorted(set(t)), sorted(set(p))
    G = {(a, b): sum(1 for x, y in zip(t, p) if x == a and y == b) for a in T for b in P}
    if len(T) <= len(P):
        return max(sum(G[a, b] for a, b in zip(T, s)) for s in itertools.permutations(P, len(T)))
    return max(sum(G[a, b] for a, b in zip(s, P)) for s in itertools.permutations(T, len(P)))


def check_map(c, cl, t, p, k=None):
    import jax.numpy as jnp
    ta, pa = jnp.array(t), jnp.array(p)
    m, cols, G = cl.best_map(ta, pa) if k is None else cl.best_map_k(ta, pa, k)
    m = np.asarray(m)
    c.expect(m.shape == (len(t),), 'one label per point')
    mp = {}
    for a, b in zip(p, m.tolist()):
        c.expect(mp.setdefault(a, b) == b, 'points with the same predicted label get the same mapped label')
    c.expect(len(set(mp.values())) == len(mp), 'different predicted labels get different mapped labels', mapping=mp)
    opt = overlap_opt(t, p)
    hit = int(np.sum(m == np.array(t)))
    c.expect(hit == opt, 'number of matches is the largest over all relabellings', got=hit, want=opt)
    e = cl.clustering_error(ta, pa) if k is None else cl.clustering_error_k(ta, pa, k)
    c.expect(int(e.num_missed) == len(t) - opt, 'number of missed points', got=int(e.num_missed))
    c.close(float(e.error), (len(t) - opt) / len(t), 'relative error', tol=1e-6)
    c.close(float(e.error_perc), 100 * (len(t) - opt) / len(t), 'error percentage', tol=1e-4)
    c.close(np.asarray(e.true_labels), t, 'true labels', tol=0)
    c.close(np.asarray(e.pred_labels), p, 'pred labels', tol=0)
    c.close(np.asarray(e.mapped_labels), m, 'mapped labels', tol=0)


def canonical(n, kmax):
    """labellings up to renaming: first occurrences in increasing order"""
    def rec(pre, mx):
        if len(pre) == n:
            yield tuple(pre)
            return
        for v in range(min(mx + 1, kmax)):
            yield from rec(pre + [v], max(mx, v + 1))
    yield from rec([], 0)


def bestmap(ctx, n, part, parts, th):
    import cr.sparse.cluster as cl
    q = 0
    for t in canonical(n, 4):
        for p in canonical(n, 4):
            q += 1
            if q % parts != part:
                continue
            with ctx.case(f'best_map true={t} pred={p}') as c:
                check_map(c, cl, t, p)
                k = max(max(t), max(p)) + 1
                check_map(c, cl, t, p, k)
                c.state(overlap_opt(t, p), t, p)
                ctx.n_exec += 4


def bestmap_odd(ctx, th):
    """labels that are not 0..k-1, renamed clusters, unused labels"""
    import cr.sparse.cluster as cl
    base = (0, 0, 1, 1, 1, 2)
    for perm in itertools.permutations((0, 1, 2)):
        for noise in range(len(base)):
            p = [perm[x] for x in base]
            p[noise] = (p[noise] + 1) % 3
            with ctx.case(f'best_map perm={perm} noise={noise}') as c:
                check_map(c, cl, base, tuple(p))
                check_map(c, cl, base, tuple(p), 3)
                check_map(c, cl, base, tuple(p), 5)
            with ctx.case(f'best_map values perm={perm} noise={noise}') as c:
                check_map(c, cl, tuple(10 * x + 3 for x in base), tuple(7 * x + 2 for x in p))
            ctx.n_exec += 4
    with ctx.case('best_map length mismatch') as c:
        import jax.numpy as jnp
        for f in (lambda: cl.best_map(jnp.array([0, 1]), jnp.array([0])), lambda: cl.best_map_k(jnp.array([0, 1]), jnp.array([0]), 2)):
            try:
                f()
                c.fail('different lengths are refused')
            except ValueError:
                pass


# ---- k-means ------------------------------------------------------------------

def near_ok(points, cent, a):
    d = np.linalg.norm(points[:, None, :] - cent[None, :, :], axis=2)
    return np.all(d[np.arange(len(points)), a] <= d.min(1) + 1e-9), d[np.arange(len(points)), a].mean()


def lloyd_history(c, run, points, k, T, thresh):
    n = len(points)
    prev = None
    prevd = np.inf
    for t in range(T + 1):
        s = run(t)
        cent, a, d, it = np.asarray(s.centroids), np.asarray(s.assignment), float(s.distortion), int(s.iterations)
        c.expect(it <= t, 'iterations within the budget', it=it, budget=t)
        ok, md = near_ok(points, cent, a)
        c.expect(a.shape == (n,) and a.min() >= 0 and a.max() < k, 'assignment in range')
        c.expect(ok, 'every point is assigned to a nearest centroid')
        c.close(d, md, 'distortion is the mean distance', tol=1e-9)
        if t == 0:
            idx = [int(np.argmin(np.linalg.norm(points - x, axis=1))) for x in cent]
            c.expect(all(np.allclose(points[i], x) for i, x in zip(idx, cent)), 'initial centroids are data points')
            # as many copies of a point as there are in the data at most
            for x in cent:
                c.expect(np.sum(np.all(np.isclose(cent, x), 1)) <= np.sum(np.all(np.isclose(points, x), 1)), 'initial centroids are different data points')
        elif it == t:
            pc, pa, pd = prev
            for j in range(k):
                if np.any(pa == j):
                    c.close(cent[j], points[pa == j].mean(0), 'centroids are the means of the previous assignment', tol=1e-9)
            c.expect(prevgap > thresh, 'iterates only while the distortion decreases by more than the threshold')
        else:
            c.expect(it == previt and np.allclose(cent, prev[0]) and np.array_equal(a, prev[1]), 'a larger budget does not change a finished run')
            c.expect(not prevgap > thresh, 'does not stop before the threshold is met', gap=prevgap)
            break
        prevgap = (np.inf if t == 0 else prev[2] - d)
        prev, previt = (cent, a, d), it
    c.state(np.round(prev[0], 6))


def kmeans(ctx, n, k, th):
    import jax
    from jax import random
    import cr.sparse.cluster.vq as vq
    grid = [np.array(p, float) for p in itertools.product((0., 1., 3.), repeat=2)]
    sets_ = list(itertools.combinations(range(9), n))
    if not th:
        sets_ = sets_[::3]
    # families with repeated points
    sets_ += [tuple(sorted((i, j) * (n // 2) + (i,) * (n % 2))) for i in range(0, 9, 2) for j in range(1, 9, 3)]
    for st in sets_:
        P = np.stack([grid[i] for i in st]) + np.array([0.25, -1.])
        for key in range(1 if not th else 3):
            for thresh in (1e-5, 0.2):
                if thresh == .2 and key:
                    continue
                with ctx.case(f'kmeans n={n} k={k} points={st} key={key} thresh={thresh}') as c:
                    run = lambda t: vq.kmeans_with_seed_jit(random.PRNGKey(key + 11 * k), P, k, thresh, t)
                    lloyd_history(c, run, P, k, 6, thresh)
                    ctx.n_exec += 7


def kmeans_best(ctx, th):
    import jax
    from jax import random
    import cr.sparse.cluster.vq as vq
    # the pieces
    g = np.random.RandomState(0)
    for n, k, d in itertools.product((3, 5), (1, 2, 4), (1, 2, 3)):
        for s in range(6):
            P, C = np.round(g.randn(n, d), 2), np.round(g.randn(k, d), 2)
            with ctx.case(f'find_assignment n={n} k={k} d={d} s={s}') as c:
                a, dist = (np.asarray(t) for t in vq.find_assignment_jit(P, C))
                D = np.linalg.norm(P[:, None] - C[None], axis=2)
                c.close(a, D.argmin(1), 'nearest centroid', tol=0)
                c.close(dist, D.min(1), 'distance to the nearest centroid', tol=1e-9)
                c.close(int(vq.find_nearest_jit(P[0], C)), D[0].argmin(), 'find_nearest', tol=0)
                nc = np.asarray(vq.find_new_centroids_jit(a, P, k))
                for j in range(k):
                    if np.any(a == j):
                        c.close(nc[j], P[a == j].mean(0), 'new centroid is the mean of its points', tol=1e-9)
                ctx.n_exec += 3
    # separated clusters: the best of the restarts is the global optimum
    km = jax.jit(vq.kmeans, static_argnums=(2, 3, 4, 5))
    for szs in [s for k in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=k)]:
        k = len(szs)
        for s in range(2 if not th else 6):
            g = np.random.RandomState(s)
            cen = np.array([[0., 0.], [10., 1.], [-3., 12.]])[:k]
            lab = np.repeat(np.arange(k), szs)
            lab = lab[g.permutation(len(lab))]
            P = cen[lab] + 0.3 * g.randn(len(lab), 2)
            with ctx.case(f'kmeans separated sizes={szs} s={s}') as c:
                r = vq.kmeans_jit(random.PRNGKey(s), P, k, 20)
                a, cent = np.asarray(r.assignment), np.asarray(r.centroids)
                c.expect(all((a[i] == a[j]) == (lab[i] == lab[j]) for i in range(len(a)) for j in range(len(a))), 'separated groups are found')
                ok, md = near_ok(P, cent, a)
                c.expect(ok, 'nearest assignment')
                c.close(float(r.distortion), md, 'distortion is the mean distance', tol=1e-9)
                for j in range(k):
                    if np.any(a == j):
                        c.close(cent[j], P[a == j].mean(0), 'centroids are means', tol=1e-6)
                one = vq.kmeans_with_seed_jit(r.key, P, k)
                c.close(float(one.distortion), float(r.distortion), 'the reported key reproduces the run', tol=1e-9)
                c.close(np.asarray(one.assignment), a, 'the reported key reproduces the run', tol=0)
                c.close(int(one.iterations), int(r.iterations), 'iterations of the reported run', tol=0)
                # more restarts never do worse than any single restart with the reported keys
                c.state(a)
                ctx.n_exec += 2
    # restarts matter: best of many is the best single run over the same keys
    for s in range(8 if not th else 40):
        g = np.random.RandomState(100 + s)
        P = g.randn(9, 2)
        with ctx.case(f'kmeans restarts s={s}') as c:
            ds = []
            for it in (1, 2, 5, 15):
                r = vq.kmeans_jit(random.PRNGKey(s), P, 3, it)
                one = vq.kmeans_with_seed_jit(r.key, P, 3)
                c.close(float(one.distortion), float(r.distortion), 'the reported key reproduces the run', tol=1e-9)
                c.close(np.asarray(one.centroids), np.asarray(r.centroids), 'the reported key reproduces the run', tol=1e-9)
                keys = random.split(random.PRNGKey(s), it)
                best = min(float(vq.kmeans_with_seed_jit(kk, P, 3).distortion) for kk in keys)
                c.close(float(r.distortion), best, 'least distortion over the restarts', tol=1e-9)
                ctx.n_exec += 2 + it


# ---- spectral ------------------------------------------------------------------

def weights(lab, w, self_loops=False):
    n = len(lab)
    lab = np.array(lab)
    W = (lab[:, None] == lab[None, :]).astype(float)
    if w:
        V = np.array([[0.5 + abs(math.sin(3. * (i + 1) * (j + 1) + i + j)) for j in range(n)] for i in range(n)])
        W = W * (V + V.T)
    np.fill_diagonal(W, 0)
    return W


def same(a, lab):
    return all((a[i] == a[j]) == (lab[i] == lab[j]) for i in range(len(a)) for j in range(len(a)))


def check_lap(c, sol, W, kind, k):
    d = W.sum(0)
    L = np.diag(d) - W
    if kind != 'unnormalized':
        L = np.eye(len(d)) - W / d[:, None]
    c.close(np.asarray(sol.laplancian), L, 'Laplacian', tol=1e-9)
    S = np.linalg.svd(L, compute_uv=False)
    c.close(np.asarray(sol.singular_values), S, 'singular values of the Laplacian', tol=1e-7)
    c.close(float(sol.connectivity), S[-2], 'connectivity is the second smallest singular value', tol=1e-7)
    c.expect(int(sol.num_clusters) == k, 'number of clusters')


def spectral(ctx, f, n, th):
    from jax import random
    import cr.sparse.cluster.spectral as sp
    fn = getattr(sp, f)
    norm = f.startswith('normalized')
    for lab in canonical(n, 3):
        k = max(lab) + 1
        if norm and min(lab.count(i) for i in range(k)) < 2:
            continue
        for w in (0, 1):
            with ctx.case(f'{f} labels={lab} w={w}') as c:
                W = weights(lab, w)
                sol = fn(random.PRNGKey(1), W, k)
                c.expect(same(np.asarray(sol.assignment), lab), 'the clusters are the connected components', got=np.asarray(sol.assignment))
                check_lap(c, sol, W, 'rw' if norm else 'unnormalized', k)
                c.state(np.round(np.asarray(sol.singular_values), 6))
                ctx.n_exec += 1


def spectral_auto(ctx, f, th):
    from jax import random
    import cr.sparse.cluster.spectral as sp
    fn = getattr(sp, f)
    norm = f.startswith('normalized')
    cnt = 0
    for n in (4, 5, 6) + ((7,) if th else ()):
        for lab in canonical(n, 3):
            k = max(lab) + 1
            if k == 1 or (norm and min(lab.count(i) for i in range(k)) < 2):
                continue
            W = weights(lab, 0)
            d = W.sum(0)
            L = (np.diag(d) - W) if not norm else np.eye(n) - W / d[:, None]
            S = np.linalg.svd(L, compute_uv=False)
            gaps = -np.diff(S[:-1])
            best = np.argmax(gaps)
            if n - best - 1 != k or np.sort(gaps)[-2:][0] > gaps[best] - 1e-6:
                continue
            if n == 6 and not th:
                cnt += 1
                if cnt % 6:
                    continue
            with ctx.case(f'{f} labels={lab}') as c:
                sol = fn(random.PRNGKey(2), W)
                c.expect(same(np.asarray(sol.assignment), lab), 'the clusters are the connected components', got=np.asarray(sol.assignment))
                check_lap(c, sol, W, 'rw' if norm else 'unnormalized', k)
                c.state(lab)
                ctx.n_exec += 1


def spectral_fast(ctx, f, th):
    from jax import random
    from jax.experimental.sparse import BCOO
    import cr.sparse.cluster.spectral as sp
    fn = getattr(sp, f)
    sparse = 'sparse' in f
    # equal components: the Lanczos SVD of the dependency cr.nimble is inexact otherwise
    layouts = [(5, 5), (6, 6), (5, 5, 5), (8, 8), (10, 10)] + ([(5, 5, 5, 5), (7, 7), (6, 6, 6)] if th else [])
    for szs in layouts:
        k, n = len(szs), sum(szs)
        for order in range(2 if not th else 5):
            lab = np.repeat(np.arange(k), szs)
            if order:
                lab = lab[np.random.RandomState(order).permutation(n)]
            for w in (0, 1):
                with ctx.case(f'{f} sizes={szs} order={order} w={w}') as c:
                    W = weights(lab, w)
                    key = random.PRNGKey(order)
                    sol = fn(key, BCOO.fromdense(W) if sparse else W, k)
                    c.expect(same(np.asarray(sol.assignment), lab), 'the clusters are the connected components', got=np.asarray(sol.assignment))
                    c.expect(int(sol.num_clusters) == k, 'number of clusters')
                    d = W.sum(0)
                    Wn = W / np.sqrt(np.outer(d, d))
                    got = sol.laplancian
                    got = np.asarray(got.todense()) if sparse else np.asarray(got)
                    c.close(got, Wn, 'normalised weights', tol=1e-9)
                    c.state(lab)
                    ctx.n_exec += 1


def laplacians(ctx, th):
    from jax.experimental.sparse import BCOO
    import cr.sparse.cluster.spectral as sp
    try:
        from cr.sparse._src.cluster.spectral import unnormalized_laplacian
    except ImportError:      # not a public name
        unnormalized_laplacian = None
    for n in (2, 3, 4):
        edges = list(itertools.combinations(range(n), 2))
        for wts in itertools.product((0., 1., 2.5), repeat=len(edges)):
            if n == 4 and not th and 0. in wts and 2.5 in wts:
                continue
            W = np.zeros((n, n))
            for (i, j), w in zip(edges, wts):
                W[i, j] = W[j, i] = w
            d = W.sum(0)
            with ctx.case(f'laplacian n={n} w={wts}') as c:
                if unnormalized_laplacian is not None:
                    c.close(np.asarray(unnormalized_laplacian(W)), np.diag(d) - W, 'unnormalised Laplacian')
                if np.all(d > 0):
                    c.close(np.asarray(sp.normalized_random_walk_laplacian_jit(W)), np.eye(n) - W / d[:, None], 'random walk Laplacian')
                    Wn = W / np.sqrt(np.outer(d, d))
                    c.close(np.asarray(sp.normalized_symmetric_w(W)), Wn, 'symmetric normalisation')
                    c.close(np.asarray(sp.normalized_symmetric_sparse_w(BCOO.fromdense(W)).todense()), Wn, 'sparse symmetric normalisation')
                ctx.n_exec += 4


# ---- sparse subspace clustering ------------------------------------------------

def point_sets(n, th):
    """(label, X) columns are points"""
    for s in range(3 if not th else 12):
        g = np.random.RandomState(10 * n + s)
        yield f'generic d=3 s={s}', g.randn(3, n)
        yield f'scaled s={s}', g.randn(4, n) * np.array([10. ** ((i % 5) - 2) for i in range(n)])
        B = g.randn(5, 2)
        yield f'plane s={s}', B @ g.randn(2, n)
        h = n // 2
        B1, B2 = np.linalg.qr(g.randn(6, 4))[0][:, :2], np.linalg.qr(g.randn(6, 4))[0][:, 2:]
        yield f'two planes s={s}', np.hstack([B1 @ g.randn(2, h), B2 @ g.randn(2, n - h)])
    base = np.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 2, 0], [0, 0, -1], [-3, 0, 0], [1, 1, 0]]).T
    yield 'repeated', base[:, :n]
    yield 'repeated rev', base[:, ::-1][:, :n]
    yield 'all equal', np.tile(np.array([[1.], [2.], [3.]]), (1, n))
    yield 'orthogonal', np.eye(n + 1)[:, :n]


def ssc_omp(ctx, n, th):
    import cr.sparse.cluster.ssc as ssc
    for lab, X in point_sets(n, th):
        Xn = X / np.linalg.norm(X, axis=0)
        G0 = Xn.T @ Xn
        prevI = None
        for K in range(1, min(n - 1, 4) + 1):
            full = None
            for variant in ['plain'] + [f'batch{b}' for b in ((1, 2, 3, n, n + 2) if th or n < 5 else (2, n + 1))]:
                with ctx.case(f'ssc-omp n={n} {lab} K={K} {variant}') as c:
                    if variant == 'plain':
                        Z, I, R = ssc.build_representation_omp_jit(X, K)
                    else:
                        Z, I, R = ssc.batch_build_representation_omp_jit(X, K, int(variant[5:]))
                    Z, I, R = np.asarray(Z), np.asarray(I), np.asarray(R)
                    c.expect(Z.shape == (K, n) and I.shape == (K, n) and R.shape == X.shape, 'shapes')
                    c.expect(I.min() >= 0 and I.max() < n, 'indices in range')
                    sc = np.linalg.norm(X, axis=0)
                    amb = False
                    for i in range(n):
                        sup = I[:, i].tolist()
                        c.expect(i not in sup, 'a point never represents itself', point=i, support=sup)
                        c.expect(len(set(sup)) == K, 'the selected neighbours are distinct', point=i, support=sup)
                        A = Xn[:, sup]
                        c.close(A @ (Z[:, i] / sc[i]) + R[:, i] / sc[i], Xn[:, i], 'representation plus residual is the point', tol=1e-7)
                        # least squares on the support
                        c.close(A.T @ R[:, i] / sc[i], np.zeros(K), 'the residual is orthogonal to the selected points', tol=1e-7)
                        # every selection step is greedy
                        r = Xn[:, i]
                        for t in range(K):
                            h = np.abs(Xn.T @ r)
                            h[i] = -1
                            h[sup[:t]] = -1
                            if np.linalg.norm(r) > 1e-7:
                                c.expect(h[sup[t]] >= h.max() - 1e-9, 'selects the point with the largest correlation', point=i, step=t, support=sup)
                                if np.sum(h > h.max() - 1e-9) > 1:
                                    amb = True
                            else:
                                amb = True
                            As = Xn[:, sup[:t + 1]]
                            r = Xn[:, i] - As @ np.linalg.lstsq(As, Xn[:, i], rcond=None)[0]
                    if variant == 'plain':
                        full = (Z, I, R)
                    elif not amb and full is not None:
                        c.close(I, full[1], 'batches do not change the selection', tol=0)
                        c.close(Z / sc, full[0] / sc, 'batches do not change the coefficients', tol=1e-7)
                    # two disjoint planes with enough neighbours: representations stay in the plane
                    c.state(I)
                    ctx.n_exec += 1


def ssc_rep(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.cluster.ssc as ssc
    for n in (2, 3, 4, 5):
        for K in range(1, min(3, n - 1) + 1):
            supp = []
            for s in range(8 if not th else 40):
                g = np.random.RandomState(s + 10 * n + K)
                I = np.stack([g.permutation([j for j in range(n) if j != i])[:K] for i in range(n)], 1)
                Z = np.round(g.randn(K, n), 2)
                with ctx.case(f'rep n={n} K={K} s={s}') as c:
                    C = np.zeros((n, n))
                    for j in range(n):
                        for t in range(K):
                            C[I[t, j], j] = Z[t, j]
                    full = np.asarray(ssc.sparse_to_full_rep(Z, I))
                    c.close(full, C, 'full representation matrix', tol=0)
                    B = ssc.sparse_to_bcoo(Z, I)
                    c.close(np.asarray(B.todense()), C, 'sparse representation matrix', tol=1e-12)
                    Z2, I2 = ssc.bcoo_to_sparse_jit(B, K)
                    c.close(np.asarray(Z2), Z, 'round trip of the values', tol=0)
                    c.close(np.asarray(I2), I, 'round trip of the indices', tol=0)
                    A = np.abs(C) + np.abs(C).T
                    c.close(np.asarray(ssc.rep_to_affinity(jnp.asarray(C))), A, 'affinity is |C| + |C|^T', tol=1e-12)
                    c.close(np.asarray(ssc.rep_to_affinity(B).todense()), A, 'sparse affinity', tol=1e-12)
                    c.state(C)
                    ctx.n_exec += 6


def compositions(n):
    if n == 0:
        yield ()
    for f in range(1, n + 1):
        for r in compositions(n - f):
            yield (f,) + r


def ssc_angles(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.cluster.ssc as ssc
    V = [np.array(v, float) for v in itertools.product((-1, 0, 1), repeat=2) if any(v)] + [np.array([.1, .7]), np.array([-.3, .4])]
    for tri in itertools.combinations_with_replacement(range(len(V)), 3):
        X = np.stack([V[i] for i in tri], 1) * np.array([1., 2.5, 0.1])
        with ctx.case(f'angles {tri}') as c:
            A = np.asarray(ssc.angles_between_points(X))
            Xn = X / np.linalg.norm(X, axis=0)
            ang = np.degrees(2 * np.arctan2(np.linalg.norm(Xn[:, :, None] - Xn[:, None, :], axis=0), np.linalg.norm(Xn[:, :, None] + Xn[:, None, :], axis=0)))
            c.close(A, ang, 'angle in degrees', tol=1e-4)
            c.state(np.round(A, 3))
            ctx.n_exec += 1
    for n in (3, 4, 5, 6):
        for s in range(2 if not th else 6):
            g = np.random.RandomState(n + 10 * s)
            X = g.randn(3, n)
            if s == 1:
                X[:, -1] = 2 * X[:, 0]     # a repeated direction
            Xn = X / np.linalg.norm(X, axis=0)
            ang = np.degrees(np.arccos(np.clip(Xn.T @ Xn, -1, 1)))
            A0j = ssc.angles_between_points(X)
            A0 = np.asarray(A0j)
            with ctx.case(f'angles n={n} s={s}') as c:
                c.close(A0, ang, 'angles', tol=1e-4)
                nb = np.asarray(ssc.sorted_neighbors(A0j))
                c.expect(nb.shape == (n, n - 1), 'shape')
                for i in range(n):
                    c.expect(sorted(nb[i].tolist()) == [j for j in range(n) if j != i], 'neighbours are all other points', row=nb[i], point=i)
                    c.expect(np.all(np.diff(A0[i, nb[i]]) >= -1e-9), 'neighbours are sorted by angle')
            for sz in compositions(n):
                if max(sz) == n:
                    continue
                lab = np.repeat(np.arange(len(sz)), sz)
                st = np.concatenate([[0], np.cumsum(sz)])
                with ctx.case(f'angles n={n} s={s} sizes={sz}') as c:
                    mi = np.asarray(ssc.min_angles_inside_cluster(A0j, np.array(sz)))
                    mo = np.asarray(ssc.min_angles_outside_cluster(A0j, np.array(sz)))
                    ni = np.asarray(ssc.nearest_neighbors_inside_cluster(A0j, np.array(sz)))
                    no = np.asarray(ssc.nearest_neighbors_outside_cluster(A0j, np.array(sz)))
                    nlab = lab[np.asarray(ssc.sorted_neighbors(A0j))]
                    ip = np.asarray(ssc.inn_positions(jnp.asarray(lab), jnp.asarray(nlab)))
                    for i in range(n):
                        ins = [j for j in range(n) if lab[j] == lab[i] and j != i]
                        out = [j for j in range(n) if lab[j] != lab[i]]
                        c.close(mo[i], min(A0[i, j] for j in out), 'smallest angle to other clusters', tol=1e-9)
                        c.expect(int(no[i]) in out and abs(A0[i, int(no[i])] - mo[i]) < 1e-9, 'nearest neighbour in other clusters', point=i)
                        if ins:
                            c.close(mi[i], min(A0[i, j] for j in ins), 'smallest angle inside the cluster', tol=1e-9)
                            c.expect(int(ni[i]) in ins and abs(A0[i, int(ni[i])] - mi[i]) < 1e-9, 'nearest neighbour inside the cluster', point=i)
                            c.expect(int(ip[i]) == int(np.argmax(nlab[i] == lab[i])), 'position of the first inside neighbour')
                    ctx.n_exec += 6


def ssc_spr(ctx, th):
    import cr.sparse.cluster.ssc as ssc
    vals = (0., 0.5, -2., 0.002)
    for n, labs in ((3, [(0, 0, 1), (0, 1, 1), (0, 1, 2), (0, 0, 0)]), (4, [(0, 0, 1, 1), (0, 1, 0, 1), (0, 0, 0, 1)])):
        cols = [x for x in itertools.product(vals, repeat=n) if any(x)]
        for lab in labs:
            lab = np.array(lab)
            # every column occurs at every position
            for off in range(len(cols)):
                C = np.stack([np.array(cols[(off + 7 * j) % len(cols)]) for j in range(n)], 1)
                with ctx.case(f'spr labels={lab.tolist()} off={off}') as c:
                    s = ssc.subspace_preservation_stats_jit(C, lab)
                    aC = np.abs(C)
                    err = np.array([1 - aC[lab == lab[i], i].sum() / aC[:, i].sum() for i in range(n)])
                    fl = np.array([np.all(aC[lab != lab[i], i] == 0) for i in range(n)])
                    c.close(np.asarray(s.spr_errors), err, 'subspace preservation error of every point', tol=1e-9)
                    c.close(np.asarray(s.spr_flags), fl, 'preserved flags', tol=0)
                    c.close(float(s.spr_error), err.mean(), 'mean error', tol=1e-9)
                    c.expect(bool(s.spr_flag) == bool(fl.all()), 'all preserved')
                    c.close(float(s.spr_perc), 100 * fl.mean(), 'percentage of preserved points', tol=1e-4)
                    # the same from the sparse form
                    K = n
                    I = np.tile(np.arange(n)[:, None], (1, n))
                    s2 = ssc.sparse_subspace_preservation_stats_jit(C, I, lab)
                    # sparse form: only the non-zeros
                    c.close(np.asarray(s2.spr_errors), err, 'sparse form: errors', tol=1e-9)
                    c.close(np.asarray(s2.spr_flags), fl, 'sparse form: flags', tol=0)
                    c.close(float(s2.spr_error), err.mean(), 'sparse form: mean error', tol=1e-9)
                    c.expect(bool(s2.spr_flag) == bool(fl.all()), 'sparse form: all preserved')
                    c.close(float(s2.spr_perc), 100 * fl.mean(), 'sparse form: percentage', tol=1e-4)
                    perm = [(i * (3 if n == 4 else 2) + 1) % n for i in range(n)]
                    s3 = ssc.sparse_subspace_preservation_stats_jit(C[perm], I[perm], lab)
                    c.close(np.asarray(s3.spr_errors), err, 'sparse form: order of the entries does not matter', tol=1e-9)
                    c.state(np.round(err, 6), fl)
                    ctx.n_exec += 3
