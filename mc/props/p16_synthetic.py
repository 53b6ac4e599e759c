"""Synthetic data and test problems satisfy the model they are documented to be drawn from."""
import itertools
import math
import numpy as np
from mc.core import Task

ID = 'P16'
RULE = ('Every generator of synthetic data x every size in the listed grid (all sparsity levels up to the dimension, all numbers of signals, all block layouts, '
        'ranges, angles) x keys 0..K-1 is executed and the result is compared with the documented model (support, values outside the support, value range, norms, orthogonality, '
        'principal angles); all generators must be functions of the key. Every bundled test problem is generated for every listed size and key, '
        'and b = A x, A = Phi Psi (forwards and adjointly, on the standard basis for small sizes), the sparsity of x, reconstruct and the printed analysis are checked. A state is a distinct data set.')
ASSUME = ['random generators are explored for the listed keys; moments are compared at 6 standard deviations over all keys', 'prob401 needs downloaded audio and is not run',
          'sizes of 1 (where results are squeezed) are excluded where the shape is concerned']


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for kind in ('normal', 'biuniform', 'spikes'):
        ts.append(Task(f'sparse {kind}', 'sparse', dict(kind=kind, th=th), cost=40))
    ts.append(Task('index_sets', 'index', dict(th=th), cost=20))
    ts.append(Task('orthogonal', 'orth', dict(th=th), cost=20))
    for cor in (0., 0.5, 0.95, -0.6):
        ts.append(Task(f'blocks cor={cor}', 'blocks', dict(th=th, cor=cor), cost=90))
    for N in (2, 3, 5, 8):
        ts.append(Task(f'subspaces N={N}', 'subspaces', dict(th=th, N=N), cost=20 + 10 * N))
    ts.append(Task('angles2', 'angles', dict(th=th, k=2), cost=50))
    ts.append(Task('angles3', 'angles', dict(th=th, k=3), cost=50))
    for p in ('heavi-sine:fourier:heavi-side', 'blocks:haar', 'cosine-spikes:dirac-dct', 'complex:sinusoid-spikes:dirac-fourier', 'cosine-spikes:dirac-dct:gaussian',
              'piecewise-cubic-poly:daubechies:gaussian', 'signed-spikes:dirac:gaussian', 'complex:signed-spikes:dirac:gaussian', 'blocks:heavi-side',
              'blocks:normalized-heavi-side', 'gaussian-spikes:dirac:gaussian'):
        ts.append(Task(f'problem {p}', 'problem', dict(name=p, th=th), cost=60))
    ts.append(Task('problem names', 'names', {}, cost=5))
    return ts


def as2d(X, n, S):
    return np.asarray(X).reshape(n, S)


def sparse(ctx, kind, th):
    import jax
    from jax import random
    import cr.sparse.data as crdata
    K0 = 4 if not th else 20
    if kind == 'normal':
        f = jax.jit(crdata.sparse_normal_representations, static_argnums=(1, 2, 3))
        gens = [('', lambda k, D, K, S: f(k, D, K, S))]
        rng = None
    elif kind == 'biuniform':
        f2 = jax.jit(crdata.sparse_biuniform_representations, static_argnums=(3, 4, 5))
        gens = [(f' [{a},{b}]', lambda k, D, K, S, a=a, b=b: f2(k, a, b, D, K, S)) for a, b in ((1., 2.), (0.5, 0.75), (3., 10.))]
    else:
        f3 = jax.jit(crdata.sparse_spikes, static_argnums=(1, 2, 3))
        gens = [('', lambda k, D, K, S: f3(k, D, K, S))]
    for lab, gen in gens:
        ab = {' [1.0,2.0]': (1., 2.), ' [0.5,0.75]': (.5, .75), ' [3.0,10.0]': (3., 10.)}.get(lab)
        pool = []
        differ = []
        supports = {}
        for D in (2, 3, 5, 8):
            for K in range(1, D + 1):
                for S in (1, 2, 5):
                    for k in range(K0):
                        with ctx.case(f'{kind}{lab} D={D} K={K} S={S} key={k}') as c:
                            key = random.PRNGKey(k)
                            X, om = gen(key, D, K, S)
                            X, om = np.asarray(X), np.asarray(om)
                            c.expect(X.shape == ((D, S) if S > 1 else (D,)), 'shape', shape=X.shape)
                            c.expect(om.shape == (K,) and np.all(np.diff(om) > 0) and om.min() >= 0 and om.max() < D, 'support is sorted, distinct and in range', omega=om)
                            X2 = as2d(X, D, S)
                            mask = np.zeros(D, bool)
                            mask[om] = True
                            c.expect(np.all(X2[~mask] == 0), 'zero off the support')
                            c.expect(np.all(X2[mask] != 0) and np.all(np.isfinite(X2)), 'non-zero on the support')
                            v = X2[mask]
                            if kind == 'spikes':
                                c.expect(np.all(np.abs(v) == 1), 'spikes are +1 or -1')
                            if ab:
                                c.expect(np.all(np.abs(v) >= ab[0] - 1e-9) and np.all(np.abs(v) <= ab[1] + 1e-9), 'magnitudes within [a, b]')
                            X3, om3 = gen(key, D, K, S)
                            c.expect(np.array_equal(X3, X) and np.array_equal(om3, om), 'function of the key')
                            pool.append(v.ravel())
                            if S > 1 and K > 3:
                                differ.append(bool(np.any(np.sign(v) != np.sign(v[:, :1]))))
                            supports.setdefault((D, K, S), set()).add(tuple(om))
                            c.state(X)
                            ctx.n_exec += 2
        z = np.concatenate(pool)
        with ctx.case(f'{kind}{lab} distribution') as c:
            n = z.size
            c.expect(abs(np.sign(z).mean()) < 8 / math.sqrt(n), 'both signs equally likely', mean=float(np.sign(z).mean()))
            c.expect(any(len(s) > 1 for s in supports.values()), 'supports depend on the key')
            c.expect(np.mean(differ) > 0.5, 'the signals of one call are different signals', got=float(np.mean(differ)))
            if kind == 'normal':
                # values of different signals/keys of one shape share random bits, hence a generous bound
                c.expect(0.6 < z.std() < 1.4, 'unit variance', std=float(z.std()))
            if ab:
                u = (np.abs(z) - ab[0]) / (ab[1] - ab[0])
                c.expect(abs(u.mean() - .5) < 0.1 and u.min() < 0.1 and u.max() > 0.9, 'magnitudes fill the range', mean=float(u.mean()))
        # every position is reachable: over many keys all supports of size 2 out of 4 occur
        seen = set()
        for k in range(100):
            seen.add(tuple(np.asarray(gen(random.PRNGKey(k), 4, 2, 1)[1])))
        with ctx.case(f'{kind}{lab} all supports') as c:
            c.expect(len(seen) == 6, 'every support of size 2 out of 4 occurs within 100 keys', seen=len(seen))


def index(ctx, th):
    import jax
    from jax import random
    import cr.sparse.data as crdata
    f = jax.jit(crdata.index_sets, static_argnums=(1, 2, 3, 4))
    for N in range(1, 9 if th else 7):
        for K in range(1, N + 1):
            for S in (1, 2, 6):
                for ax in (0, 1):
                    for k in range(2 if not th else 10):
                        with ctx.case(f'index_sets N={N} K={K} S={S} axis={ax} key={k}') as c:
                            I = np.asarray(f(random.PRNGKey(k), N, K, S, ax))
                            c.expect(I.shape == ((S, K) if ax == 0 else (K, S)), 'shape', shape=I.shape)
                            J = I if ax == 0 else I.T
                            c.expect(all(len(set(r.tolist())) == K for r in J) and J.min() >= 0 and J.max() < N, 'distinct indices in range')
                            if ax == 1:
                                c.close(J, np.asarray(f(random.PRNGKey(k), N, K, S, 0)), 'axis only transposes', tol=0)
                            c.state(I)
                            ctx.n_exec += 1
    with ctx.case('index_sets varied') as c:
        I = np.asarray(f(random.PRNGKey(3), 4, 2, 200, 0))
        c.expect(len({tuple(sorted(r)) for r in I.tolist()}) == 6, 'all sets occur among 200 sets')
    for S in (7, 12, 30):
        with ctx.case(f'index_sets independent S={S}') as c:
            I = np.asarray(f(random.PRNGKey(5), 40, 8, S, 0))
            c.expect(len({tuple(sorted(r)) for r in I.tolist()}) == S, 'the sets of one call are different sets')


def orth(ctx, th):
    import jax
    from jax import random
    import cr.sparse.data as crdata
    f = jax.jit(crdata.points_orthogonal_to, static_argnums=2)
    for n in (2, 3, 4):
        for t in itertools.product((-2., 0., 1., 3e-3, 5e2), repeat=n):
            x = np.array(t)
            if not x.any() or (n == 4 and not th and hash(t) % 7):
                continue
            for S in (1, 4):
                with ctx.case(f'orthogonal x={t} S={S}') as c:
                    P = np.asarray(f(random.PRNGKey(7), x, S))
                    c.expect(P.shape == (S, n), 'shape')
                    c.close(P @ x / np.linalg.norm(x), np.zeros(S), 'orthogonal to x', tol=1e-9)
                    c.expect(np.all(np.linalg.norm(P, axis=1) > 1e-6), 'not the zero vector')
                    c.state(P)
                    ctx.n_exec += 1
    for n in (3, 5):
        with ctx.case(f'orthogonal span n={n}') as c:
            x = np.arange(1., n + 1)
            P = np.asarray(f(random.PRNGKey(1), x, 3 * n))
            c.expect(np.linalg.matrix_rank(P) == n - 1, 'points fill the orthogonal complement')
            # projections of standard normal vectors: covariance is the projector
            P = np.asarray(f(random.PRNGKey(2), x, 4000))
            C = P.T @ P / 4000
            u = x / np.linalg.norm(x)
            c.close(C, np.eye(n) - np.outer(u, u), 'isotropic in the orthogonal complement', tol=0.12)


def blocks(ctx, th, cor):
    import jax
    from jax import random
    import cr.sparse.data as crdata
    f = jax.jit(crdata.sparse_normal_blocks, static_argnums=(1, 2, 3, 4, 5, 6))
    for B in (1, 2, 3, 4):
        for C in (1, 2, 3, 5) if th else (1, 2, 4):
            D = B * C
            if D < 2:
                continue
            for K in range(1, C + 1):
                for S in (1, 3):
                    for nz in (False, True):
                        if nz and S == 3 and K == 1 and not th:
                            continue
                        for k in range(1 if not th else 5):
                            with ctx.case(f'blocks D={D} K={K} B={B} S={S} cor={cor} normalize={nz} key={k}') as c:
                                x, bl, ind = (np.asarray(t) for t in f(random.PRNGKey(k), D, K, B, S, cor, nz))
                                c.expect(x.shape == ((D, S) if S > 1 else (D,)), 'shape', shape=x.shape)
                                X = as2d(x, D, S)
                                c.expect(bl.shape == (K,) and np.all(np.diff(bl) > 0) and bl.min() >= 0 and bl.max() < C, 'blocks sorted, distinct, in range', blocks=bl)
                                want = np.concatenate([np.arange(b * B, b * B + B) for b in bl])
                                c.close(ind, want, 'indices are those of the active blocks', tol=0)
                                mask = np.zeros(D, bool)
                                mask[want] = True
                                c.expect(np.all(X[~mask] == 0), 'zero off the blocks')
                                c.expect(np.all(X[mask] != 0), 'non-zero on the blocks')
                                if nz:
                                    nr = np.linalg.norm(X[mask].reshape(K, B, S), axis=1)
                                    c.close(nr, np.ones((K, S)), 'unit norm blocks', tol=1e-9)
                                c.state(x)
                                ctx.n_exec += 1
    for B in (2, 3, 5):
        with ctx.case(f'blocks B={B} cor={cor} correlation') as c:
            X = np.asarray(crdata.sparse_normal_blocks(random.PRNGKey(5), 4 * B, 2, B, S=2000, cor=cor)[0])
            V = X[np.abs(X).sum(1) > 0].reshape(2, B, 2000).transpose(0, 2, 1).reshape(-1, B)
            C = V.T @ V / len(V)
            want = np.array([[cor ** abs(i - j) for j in range(B)] for i in range(B)])
            c.close(C, want, 'intra-block covariance is cor^|i-j|', tol=0.13, rtol=0)
            a, b = V[:2000], V[2000:]
            c.expect(np.max(np.abs(a.T @ b / 2000)) < 0.13, 'different blocks are uncorrelated')
            c.expect(np.max(np.abs(V[:-1].T @ V[1:] / len(V))) < 0.13, 'different signals are uncorrelated')
            ctx.n_exec += 1
    with ctx.case('blocks refuses D not a multiple of B') as c:
        try:
            crdata.sparse_normal_blocks(random.PRNGKey(0), 7, 1, 3)
            c.fail('D which is not a multiple of B is refused')
        except ValueError:
            pass


def subspaces(ctx, th, N):
    from jax import random
    import cr.sparse.data as crdata
    if True:
        for D in range(1, N + 1):
            for K in (1, 2, 4) if th else (1, 3):
                for k in range(2 if not th else 6):
                    with ctx.case(f'random_subspaces N={N} D={D} K={K} key={k}') as c:
                        key = random.PRNGKey(k)
                        bs = [np.asarray(b) for b in crdata.random_subspaces_jit(key, N, D, K)]
                        c.expect(len(bs) == K, 'number of subspaces')
                        for b in bs:
                            c.expect(b.shape == (N, D), 'shape')
                            c.close(b.T @ b, np.eye(D), 'orthonormal basis')
                        for i in range(K):
                            for j in range(i):
                                if D < N:
                                    c.expect(np.linalg.norm(bs[i] @ bs[i].T - bs[j] @ bs[j].T) > 1e-6, 'subspaces differ')
                        ctx.n_exec += 1
                        for n in (1, 3):
                            X = np.asarray(crdata.uniform_points_on_subspaces_jit(random.PRNGKey(k + 10), bs, n))
                            c.expect(X.shape == (N, K * n), 'points shape', shape=X.shape)
                            c.close(np.linalg.norm(X, axis=0), np.ones(K * n), 'points have unit norm')
                            for i in range(K):
                                P = X[:, i * n:(i + 1) * n]
                                c.close(bs[i] @ (bs[i].T @ P), P, 'points of a group lie in its subspace')
                            if D > 1 and n > 1:
                                G = np.abs(X.T @ X) - np.eye(K * n)
                                c.expect(G.max() < 1 - 1e-9, 'points differ')
                            c.state(X)
                            ctx.n_exec += 1
    # subspaces of different dimensions
    for dims in itertools.product((1, 2, 3), repeat=3) if N == 2 else ():
        with ctx.case(f'uniform points dims={dims}') as c:
            bs = [np.linalg.qr(np.random.RandomState(i + 7).randn(6, d))[0] for i, d in enumerate(dims)]
            X = np.asarray(crdata.uniform_points_on_subspaces(random.PRNGKey(0), bs, 4))
            c.close(np.linalg.norm(X, axis=0), np.ones(12), 'points have unit norm')
            for i in range(3):
                P = X[:, 4 * i:4 * i + 4]
                c.expect(np.linalg.matrix_rank(P, tol=1e-6) == dims[i], 'points span their subspace')
                c.close(bs[i] @ (bs[i].T @ P), P, 'points of a group lie in its subspace')
            ctx.n_exec += 1


def angles(ctx, th, k):
    from jax import random
    import cr.sparse.data as crdata
    f = crdata.two_subspaces_at_angle_jit if k == 2 else crdata.three_subspaces_at_angle_jit
    for D in (1, 2, 3):
        for N in (k * D, k * D + 1, k * D + 4):
            if N < k:
                continue
            for theta in (1., 10., 30., 45., 60., 89., 90.):
                for s in range(1 if not th else 5):
                    with ctx.case(f'{k} subspaces N={N} D={D} theta={theta} key={s}') as c:
                        bs = [np.asarray(b) for b in f(random.PRNGKey(s), N, D, theta)]
                        c.expect(len(bs) == k, 'number of subspaces')
                        for b in bs:
                            c.expect(b.shape == (N, D), 'shape', shape=b.shape)
                            c.close(b.T @ b, np.eye(D), 'orthonormal basis')
                        for i in range(k):
                            for j in range(i):
                                sv = np.linalg.svd(bs[i].T @ bs[j], compute_uv=False)
                                want = np.zeros(D)
                                want[0] = math.cos(math.radians(theta))
                                c.close(sv, want, 'one principal angle is theta, the others are right angles', tol=1e-7)
                        c.state(*bs)
                        ctx.n_exec += 1


def names(ctx):
    import cr.sparse.problems as prob
    with ctx.case('names') as c:
        n = prob.names()
        c.expect(list(n) == sorted(n) and len(set(n)) == len(n), 'sorted distinct names')
        want = {t.name.split(' ', 1)[1] for t in tasks('quick') if t.name.startswith('problem ') and t.name != 'problem names'}
        c.expect(want <= set(n), 'all problems are listed')
        try:
            prob.generate('no-such-problem')
            c.fail('unknown problems are refused')
        except AssertionError:
            pass


CFG = {
    'heavi-sine:fourier:heavi-side': [dict(n=n) for n in (16, 64, 100, 1024)],
    'blocks:haar': [dict(n=n) for n in (32, 64, 1024)],
    'cosine-spikes:dirac-dct': [dict(c=c, k=k, n=n) for n in (16, 50) for c in (1, 3) for k in (1, 6)] + [{}],
    'complex:sinusoid-spikes:dirac-fourier': [dict(c=c, k=k, n=n) for n in (16, 50) for c in (1, 3) for k in (1, 6)] + [{}],
    'cosine-spikes:dirac-dct:gaussian': [dict(c=c, k=k, n=n, m=n // 2) for n in (16, 50) for c in (1, 3) for k in (1, 6)] + [{}],
    'piecewise-cubic-poly:daubechies:gaussian': [dict(p=p, m=m, n=n, level=lev) for p in (1, 2, 5) for n, m, lev in ((32, 10, 1), (64, 30, 2))] + [{}],
    'signed-spikes:dirac:gaussian': [dict(k=k, m=m, n=n) for k in (1, 4) for m, n in ((6, 12), (20, 20))] + [dict(scale=s) for s in (0.01, 0.05, 0.5, 1)],
    'complex:signed-spikes:dirac:gaussian': [dict(k=k, m=m, n=n) for k in (1, 4) for m, n in ((6, 12), (20, 20))] + [dict(scale=s) for s in (0.01, 0.05, 0.5, 1)],
    'blocks:heavi-side': [dict(n=n) for n in (16, 50, 128)],
    'blocks:normalized-heavi-side': [dict(n=n) for n in (16, 50, 1024)],
    'gaussian-spikes:dirac:gaussian': [dict(k=k, m=m, n=n) for k in (1, 4) for m, n in ((6, 12), (20, 20))] + [dict(scale=s) for s in (0.01, 0.05, 0.5, 1)],
}
# documented sizes and sparsity (k, m, n) of the spike problems
DEF = {'signed-spikes:dirac:gaussian': (20, 600, 2560), 'complex:signed-spikes:dirac:gaussian': (20, 600, 2560), 'gaussian-spikes:dirac:gaussian': (32, 256, 1024)}


def problem(ctx, name, th):
    import contextlib
    import io
    from types import SimpleNamespace
    import jax
    from jax import random
    import jax.numpy as jnp
    import cr.sparse.problems as prob
    for cfg in CFG[name]:
        for k in range((2 if cfg else 1) if not th else 5):
            with ctx.case(f'{name} {cfg} key={k}') as c:
                p = prob.generate(name, key=random.PRNGKey(k), **cfg)
                c.expect(p.name == name, 'name')
                m, n = p.A.shape
                b, x = np.asarray(p.b), np.asarray(p.x)
                c.expect(b.shape == (m,) and x.shape == (n,), 'shapes of b and x match A')
                c.expect(p.Phi.shape[1] == p.Psi.shape[0] and p.A.shape == (p.Phi.shape[0], p.Psi.shape[1]), 'shapes of A, Phi and Psi')
                c.expect(np.all(np.isfinite(b)) and np.all(np.isfinite(x)) and np.linalg.norm(b) > 0, 'finite non-zero data')
                sc = max(1., np.linalg.norm(b))
                c.close(np.asarray(p.A.times(jnp.asarray(x))) / sc, b / sc, 'b = A x', tol=1e-6)
                complex_p = 'complex' in name or 'fourier' in name
                g = np.random.RandomState(k)
                v = g.randn(n) + (1j * g.randn(n) if complex_p else 0)
                w = g.randn(m) + (1j * g.randn(m) if complex_p else 0)
                c.close(np.asarray(p.A.times(v)), np.asarray(p.Phi.times(p.Psi.times(v))), 'A = Phi Psi', tol=1e-8)
                c.close(np.asarray(p.A.trans(w)), np.asarray(p.Psi.trans(p.Phi.trans(w))), 'adjoint of A = Phi Psi', tol=1e-8)
                y = np.asarray(p.reconstruct(jnp.asarray(x)))
                c.close(np.asarray(p.Phi.times(y)) / sc, b / sc, 'the reconstruction from x measures to b', tol=1e-6)
                z = v if complex_p and name.startswith('complex') else v.real
                rr = np.asarray(p.Psi.times(z))
                c.close(np.asarray(p.reconstruct(z)), rr if name.startswith('complex') else rr.real, 'reconstruct synthesises with Psi')
                if p.y is not None:
                    c.close(y / sc, np.asarray(p.y) / sc, 'y is the reconstruction of x', tol=1e-6)
                nz = int(np.sum(np.abs(x) > 1e-9))
                if 'spikes:dirac-' in name:
                    kk = (cfg.get('k', 120 if ':gaussian' not in name else 60), cfg.get('c', 2))
                    N = n // 2
                    c.expect(nz == sum(kk) and int(np.sum(np.abs(x[:N]) > 0)) == kk[0], 'number of spikes and of cosines/sinusoids', nz=nz)
                if name in DEF:
                    kd, md, nd = DEF[name]
                    s = cfg.get('scale', 1)
                    want = tuple(max(1, round(s * q)) for q in (cfg.get('k', kd), cfg.get('m', md), cfg.get('n', nd)))
                    c.expect((nz, m, n) == want, 'sparsity and dimensions', got=(nz, m, n), want=want)
                    if 'signed' in name:
                        sup = x[np.abs(x) > 0]
                        c.close(np.abs(sup.real), np.ones(nz), 'signed spikes', tol=0)
                        if 'complex' in name:
                            c.close(np.abs(sup.imag), np.ones(nz), 'signed spikes', tol=0)
                if name.startswith('blocks') or name.startswith('heavi'):
                    c.expect(nz < n or n <= 64, 'x is not full')
                # deterministic in the key
                q = prob.generate(name, key=random.PRNGKey(k), **cfg)
                c.expect(np.array_equal(np.asarray(q.b), b) and np.array_equal(np.asarray(q.x), x), 'function of the key')
                # printed analysis of the exact solution and of a solution with half the energy missing
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    prob.analyze_solution(p, SimpleNamespace(x=jnp.asarray(x) * (1 + 1e-6), iterations=3, n_times=1, n_trans=2))
                txt = out.getvalue()
                c.expect('ratio: 1.000' in txt and f'm: {m}, n: {n}' in txt and 'Iterations: 3' in txt, 'analysis of the exact solution', text=txt[:300])
                c.state(b)
                ctx.n_exec += 10
    with ctx.case(f'{name} keys') as c:
        if not name.startswith('blocks') and not name.startswith('heavi'):
            cfg = CFG[name][-2 if CFG[name][-1] == {} else 0]
            a, b = (np.asarray(prob.generate(name, key=random.PRNGKey(k), **cfg).b) for k in (0, 1))
            c.expect(not np.allclose(a, b), 'different keys give different problems')
    with ctx.case(f'{name} figures') as c:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        cfg = CFG[name][0]
        p = prob.generate(name, key=random.PRNGKey(0), **cfg)
        fig, ax = prob.plot(p)
        c.expect([a.get_title() for a in np.ravel(ax)] == list(p.figures), 'one titled figure per entry of figures')
        c.expect(all(len(a.lines) + len(a.collections) + len(a.containers) > 0 for a in np.ravel(ax)), 'every figure shows something')
        plt.close('all')
