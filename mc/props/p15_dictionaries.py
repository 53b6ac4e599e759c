"""Dictionaries have their documented structure and their measures equal their definitions."""
import itertools
import math
import numpy as np
from mc.core import Task

ID = 'P15'
RULE = ('Measures (Gram and frame matrices, coherence with atom pair, Babel function, frame bounds, mutual coherence, matching atoms) are executed on every '
        'matrix of the listed shapes over the alphabets {-1,0,1} and {0,1,-1,i,1+i}, raw and column-normalised, and on generic real and complex matrices, and '
        'compared with the definition (Babel: maximum over all atoms and all sets of k other atoms, enumerated). Constructors are executed for every size '
        'of the list x every key 0..K-1 x every option and compared with their definition or defining identities. A state is a distinct measured value.')
ASSUME = ['random constructors are explored for the listed keys', 'the Babel function is claimed for unit norm atoms',
          'the pair of most correlated atoms may be any maximising pair']
WAVELETS = ('haar', 'db2', 'db3', 'db4', 'sym4', 'coif1')


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for m, n in [(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(2, 4)] if th else []):
        ts.append(Task(f'measures int {m}x{n}', 'measures', dict(m=m, n=n, kind='int', lim=None if th else 4000), cost=40))
    for m, n in [(1, 2), (1, 3), (2, 2), (2, 3)] + ([(3, 2)] if th else []):
        ts.append(Task(f'measures complex {m}x{n}', 'measures', dict(m=m, n=n, kind='cplx', lim=None if th else 4000), cost=40))
    ts.append(Task('measures generic', 'measures_generic', dict(th=th), cost=40))
    ts.append(Task('mutual', 'mutual', dict(th=th), cost=30))
    ts.append(Task('random', 'random_mtx', dict(th=th), cost=40))
    ts.append(Task('random f32', 'random_mtx', dict(th=th), x64=False, cost=40))
    ts.append(Task('onb', 'random_onb', dict(th=th), cost=30))
    ts.append(Task('fixed', 'fixed', dict(th=th), cost=30))
    ts.append(Task('wavelet', 'wavelet', dict(th=th), cost=60))
    ts.append(Task('grass', 'grass', dict(th=th), cost=40))
    return ts


def normalise(A):
    return A / np.linalg.norm(A, axis=0)


def babel_ref(A):
    G = np.abs(A.conj().T @ A)
    n = G.shape[0]
    out = []
    for k in range(1, n):
        best = 0.
        for i in range(n):
            others = [j for j in range(n) if j != i]
            for S in itertools.combinations(others, k):
                best = max(best, sum(G[i, j] for j in S))
        out.append(best)
    return np.array(out)


def check_measures(ctx, D, A, key, unit):
    """A is a dictionary, unit: columns have unit norm"""
    m, n = A.shape
    with ctx.case(key) as c:
        H = A.conj().T
        G = H @ A
        c.close(D['gram'](A), G, 'gram is A^H A')
        c.close(D['frame'](A), A @ H, 'frame is A A^H')
        off = np.abs(G) * (1 - np.eye(n))
        mu = off.max() if n > 1 else 0.
        v, (i, j) = D['coherence_with_index'](A)
        i, j = int(i), int(j)
        c.close(v, mu, 'coherence is the largest off-diagonal correlation')
        c.expect(0 <= i < n and 0 <= j < n and (i != j or mu < 1e-12) and abs(np.abs(np.vdot(A[:, i], A[:, j])) * (i != j) - mu) < 1e-8, 'pair attains the coherence', pair=(i, j))
        c.close(D['coherence'](A), mu, 'coherence')
        if unit and n > 1:
            b = np.asarray(D['babel'](A))
            c.close(b, babel_ref(A), 'babel function')
            c.state(np.round(b, 6))
        s = np.linalg.svd(A, compute_uv=False)
        c.close(D['frame_bounds'](A), [s[0], s[-1]], 'frame bounds are the extreme singular values', tol=1e-7)
        c.close(D['upper'](A), s[0], 'upper frame bound', tol=1e-7)
        c.close(D['lower'](A), s[-1], 'lower frame bound', tol=1e-7)
        c.state(np.round(float(v), 8), np.round(s, 6))
        ctx.n_exec += 8


def funcs():
    import jax
    import cr.sparse.dict as crdict
    j = jax.jit
    return dict(gram=j(crdict.gram), frame=j(crdict.frame), coherence_with_index=j(crdict.coherence_with_index), coherence=crdict.coherence,
                babel=crdict.babel, frame_bounds=j(crdict.frame_bounds), upper=j(crdict.upper_frame_bound), lower=j(crdict.lower_frame_bound))


def measures(ctx, m, n, kind, lim):
    D = funcs()
    alpha = (-1., 0., 1.) if kind == 'int' else (0., 1., -1., 1j, 1 + 1j)
    size = len(alpha) ** (m * n)
    # below the limit everything, above it the matrices whose columns are in lexicographic order (one per class of column permutations)
    cols = [np.array(x) for x in itertools.product(alpha, repeat=m)]
    it = itertools.product(range(len(cols)), repeat=n) if lim is None or size <= lim else itertools.combinations_with_replacement(range(len(cols)), n)
    for t in it:
        A = np.stack([cols[i] for i in t], 1)
        if kind == 'cplx':
            A = A.astype(complex)
        check_measures(ctx, D, A, f'{kind} {m}x{n} cols={t}', False)
        if np.all(np.linalg.norm(A, axis=0) > 0):
            check_measures(ctx, D, normalise(A), f'{kind} {m}x{n} cols={t} unit', True)


def measures_generic(ctx, th):
    D = funcs()
    for m in (2, 3, 5, 8):
        for n in (2, 4, 6, 8):
            for s in range(3 if not th else 8):
                g = np.random.RandomState(100 * m + n + 1000 * s)
                A = g.randn(m, n)
                check_measures(ctx, D, A, f'generic {m}x{n} s={s}', False)
                check_measures(ctx, D, normalise(A), f'generic {m}x{n} s={s} unit', True)
                A = g.randn(m, n) + 1j * g.randn(m, n)
                check_measures(ctx, D, A, f'generic complex {m}x{n} s={s}', False)
                check_measures(ctx, D, normalise(A), f'generic complex {m}x{n} s={s} unit', True)


def mutual(ctx, th):
    import jax
    import jax.numpy as jnp
    import cr.sparse.dict as crdict
    cols = [np.array(x) for x in itertools.product((-1., 0., 1.), repeat=2)]
    ccols = [np.array(x) for x in itertools.product((0., 1., 1j, 1 - 1j), repeat=2)]
    jits = (jax.jit(crdict.mutual_coherence_with_index), jax.jit(crdict.mutual_coherence))

    def one(A, B, key):
        with ctx.case(key) as c:
            G = np.abs(A.conj().T @ B)
            v, (i, j) = jits[0](A, B)
            c.close(v, G.max(), 'mutual coherence')
            c.close(G[int(i), int(j)], G.max(), 'pair attains the mutual coherence')
            c.close(jits[1](A, B), G.max(), 'mutual_coherence')
            c.state(np.round(G.max(), 8))
            ctx.n_exec += 2
    prs = list(itertools.product(range(9), repeat=2))
    for a in prs:
        for b in prs:
            if th or (a[0] + 2 * a[1] + 3 * b[0] + b[1]) % 3 == 0:
                one(np.stack([cols[i] for i in a], 1), np.stack([cols[i] for i in b], 1), f'mutual {a} {b}')
    for a in itertools.product(range(1, 16), repeat=2):
        for b in range(1, 16):
            one(np.stack([ccols[i] for i in a], 1).astype(complex), ccols[b][:, None].astype(complex), f'mutual complex {a} {b}')
            if b % 3 == 0:
                one(ccols[b][:, None].astype(complex), np.stack([ccols[i] for i in a], 1).astype(complex), f'mutual complex {b} {a}')
    # matching atoms: B is a signed/phased permutation of some of A's atoms, the others replaced
    match = jax.jit(crdict.matching_atoms_ratio, static_argnums=2)
    for n in (2, 3, 4):
        g = np.random.RandomState(n)
        for cplx in (0, 1):
            Q = np.linalg.qr(g.randn(2 * n, 2 * n) + (1j * g.randn(2 * n, 2 * n) if cplx else 0))[0]
            A, rest = Q[:, :n], Q[:, n:]
            for keep in itertools.product((0, 1), repeat=n):
                for perm in itertools.permutations(range(n)):
                    for ph in ((1., -1.) if not cplx else (1., 1j, np.exp(.7j))):
                        B = np.stack([(ph * A[:, i]) if keep[i] else rest[:, i] for i in perm], 1)
                        with ctx.case(f'matching n={n} cplx={cplx} keep={keep} perm={perm} phase={ph}') as c:
                            c.close(match(A, B, 0.01), sum(keep) / n, 'ratio of atoms which have a match up to sign')
                            ctx.n_exec += 1
            # dictionaries in which several atoms of one match a single atom of the other
            for idx in itertools.product(range(n), repeat=n):
                B = A[:, list(idx)]
                with ctx.case(f'matching repeated n={n} cplx={cplx} atoms={idx}') as c:
                    c.close(match(A, B, 0.01), len(set(idx)) / n, 'ratio of atoms of the first dictionary with a match in the second')
                    c.close(match(B, A, 0.01), 1., 'every repeated atom has a match')
                    ctx.n_exec += 2
            # threshold: angular distance 1 - |<a, b>| below the threshold
            for d in (0.001, 0.005, 0.02, 0.1, 0.3):
                ct = 1 - d
                B = ct * A + math.sqrt(1 - ct * ct) * rest
                for thr in (0.0025, 0.01, 0.05, 0.2):
                    with ctx.case(f'matching distance n={n} cplx={cplx} d={d} thr={thr}') as c:
                        c.close(match(A, B, thr), 1. if d < thr else 0., 'match decided by 1 - |<a,b>| < threshold')
                        ctx.n_exec += 1


def random_mtx(ctx, th):
    import jax
    from jax import random
    import cr.sparse.dict as crdict
    x64 = jax.config.read('jax_enable_x64')
    tol = 1e-9 if x64 else 2e-6
    K = 8 if not th else 64
    shapes = [(1, 1), (1, 4), (2, 3), (3, 2), (4, 4), (5, 9), (8, 16), (16, 8)]
    gauss = jax.jit(crdict.gaussian_mtx, static_argnums=(1, 2, 3))
    rad = jax.jit(crdict.rademacher_mtx, static_argnums=(1, 2, 3))
    spb = jax.jit(crdict.sparse_binary_mtx, static_argnums=(1, 2, 3, 4, 5))
    for (m, n) in shapes:
        seen = {}
        pool, pos = [], []
        for k in range(K):
            key = random.PRNGKey(k)
            with ctx.case(f'gaussian {m}x{n} key={k} x64={x64}') as c:
                A = np.asarray(gauss(key, m, n, True))
                B = np.asarray(gauss(key, m, n, False))
                c.expect(A.shape == (m, n) and B.shape == (m, n), 'shape')
                c.expect(np.all(np.isfinite(A)), 'finite')
                c.close(np.linalg.norm(A, axis=0), np.ones(n), 'unit norm atoms', tol=tol)
                # the normalised matrix is the column normalisation of the other
                c.close(A, normalise(B), 'normalisation only scales the atoms', tol=10 * tol)
                c.close(np.asarray(gauss(key, m, n, True)), A, 'same key same matrix', tol=0)
                pool.append(B)
                if k == 0:
                    c.close(np.asarray(crdict.gaussian_mtx(key, m, n)), A, 'normalised by default', tol=10 * tol)
                seen.setdefault(A.tobytes(), []).append(k)
                c.state(A)
            with ctx.case(f'rademacher {m}x{n} key={k} x64={x64}') as c:
                A = np.asarray(rad(key, m, n, True))
                B = np.asarray(rad(key, m, n, False))
                c.expect(A.shape == (m, n) and B.shape == (m, n), 'shape')
                c.close(np.abs(B), np.ones((m, n)), 'entries are +1 or -1', tol=0)
                c.close(A, B / math.sqrt(m), 'unit norm atoms', tol=tol)
                pos.append(B)
                if k == 0:
                    c.close(np.asarray(crdict.rademacher_mtx(key, m, n)), A, 'normalised by default', tol=tol)
                c.state(A)
            for d in list(range(1, min(m, 4) + 1)) + sorted({q for q in (6, 8, m - 1, m) if 4 < q <= m and k < 3}):
                with ctx.case(f'sparse_binary {m}x{n} d={d} key={k} x64={x64}') as c:
                    A = np.asarray(spb(key, m, n, d, True, True))
                    B = np.asarray(spb(key, m, n, d, False, True))
                    c.expect(A.shape == (m, n) and B.shape == (m, n), 'shape')
                    c.expect(set(np.unique(B).tolist()) <= {0, 1}, 'binary')
                    c.expect(np.all(B.sum(0) == d), 'exactly d ones per column')
                    c.close(A, B / math.sqrt(d), 'unit norm atoms', tol=tol)
                    if k < 2:
                        S = crdict.sparse_binary_mtx(key, m, n, d)
                        c.expect(type(S).__name__ == 'BCOO', 'sparse by default')
                        c.close(np.asarray(S.todense()), A, 'sparse form equals the dense form', tol=tol)
                        c.close(np.asarray(crdict.sparse_binary_mtx(key, m, n, d, normalize_atoms=False).todense()), B, 'sparse form equals the dense form', tol=tol)
                    c.state(B)
            ctx.n_exec += 6
        if m > 1:
            with ctx.case(f'gaussian {m}x{n} x64={x64} keys') as c:
                c.expect(len(seen) == K, 'different keys give different matrices')
        P = np.stack(pool)
        with ctx.case(f'gaussian {m}x{n} x64={x64} moments') as c:
            z = P.ravel() * math.sqrt(m)
            N = z.size
            if N >= 32:
                c.expect(abs(z.mean()) < 6 / math.sqrt(N), 'mean 0', mean=float(z.mean()))
                c.expect(abs(z.var() - 1) < 6 * math.sqrt(2 / N), 'variance 1/rows', var=float(z.var()))
        with ctx.case(f'rademacher {m}x{n} x64={x64} moments') as c:
            z = np.stack(pos).ravel()
            c.expect(abs(z.mean()) < 6 / math.sqrt(z.size), 'balanced signs', mean=float(z.mean()))


def random_onb(ctx, th):
    import jax
    from jax import random
    import cr.sparse.dict as crdict
    K = 6 if not th else 40
    onb = jax.jit(crdict.random_onb, static_argnums=1)
    rows = jax.jit(crdict.random_orthonormal_rows, static_argnums=(1, 2))
    for n in (1, 2, 3, 4, 5, 8, 12):
        for k in range(K):
            with ctx.case(f'random_onb n={n} key={k}') as c:
                Q = np.asarray(onb(random.PRNGKey(k), n))
                c.close(Q.T @ Q, np.eye(n), 'orthonormal')
                c.state(Q)
                ctx.n_exec += 1
            for m in range(1, n + 1):
                with ctx.case(f'random_orthonormal_rows {m}x{n} key={k}') as c:
                    Q = np.asarray(rows(random.PRNGKey(k), m, n))
                    c.close(Q @ Q.T, np.eye(m), 'orthonormal rows')
                    c.expect(Q.shape == (m, n), 'shape')
                    c.state(Q)
                    ctx.n_exec += 1


def fixed(ctx, th):
    import cr.sparse.dict as crdict
    import scipy.linalg
    for p in range(0, 7 if not th else 9):
        n = 2 ** p
        with ctx.case(f'hadamard n={n}') as c:
            H = np.asarray(crdict.hadamard(n))
            c.expect(np.issubdtype(H.dtype, np.integer), 'integer entries')
            c.close(H, scipy.linalg.hadamard(n), 'Sylvester Hadamard matrix', tol=0)
            B = np.asarray(crdict.hadamard_basis(n)).astype(float)
            c.close(B, scipy.linalg.hadamard(n) / math.sqrt(n), 'orthonormal Hadamard basis', tol=1e-6)
            c.close(np.asarray(crdict.dirac_hadamard_basis(n)), np.hstack([np.eye(n), B]), 'dirac hadamard', tol=1e-6)
            c.close(np.asarray(crdict.dirac_hadamard_cosine_basis(n)), np.hstack([np.eye(n), B, dct(n)]), 'dirac hadamard cosine', tol=1e-6)
            c.state(H)
            ctx.n_exec += 4
    for n in range(1, 17 if not th else 65):
        with ctx.case(f'cosine/fourier n={n}') as c:
            c.close(np.asarray(crdict.cosine_basis(n)), dct(n), 'orthonormal DCT-II matrix')
            c.close(np.asarray(crdict.dirac_cosine_basis(n)), np.hstack([np.eye(n), dct(n)]), 'dirac cosine')
            j = np.arange(n)
            c.close(np.asarray(crdict.fourier_basis(n)), np.exp(2j * np.pi * np.outer(j, j) / n) / math.sqrt(n), 'unitary synthesis Fourier basis')
            c.state(n)
            ctx.n_exec += 3
        if n & (n - 1):
            with ctx.case(f'hadamard refuses n={n}') as c:
                try:
                    crdict.hadamard(n)
                    c.fail('sizes that are not a power of two are refused')
                except AssertionError:
                    pass
    for n in range(2, 40):
        for m in range(1, n + 1):
            with ctx.case(f'minimum_coherence {m} {n}') as c:
                c.close(crdict.minimum_coherence(m, n), math.sqrt((n - m) / (m * (n - 1))), 'Welch bound')
                ctx.n_exec += 1


def dct(n):
    k, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    D = np.cos(np.pi * (2 * j + 1) * k / (2 * n)) * math.sqrt(2 / n)
    D[0] /= math.sqrt(2)
    return D


def wavelet(ctx, th):
    import cr.sparse.dict as crdict
    import cr.sparse.lop as lop
    import cr.wavelets as wt
    for w in WAVELETS:
        for n in (4, 8, 16) + ((32, 64) if th else (32,)):
            mx = wt.dwt_max_level(n, wt.to_wavelet(w).dec_len)
            for lev in range(1, mx + 1):
                with ctx.case(f'wavelet_basis {w} n={n} level={lev}') as c:
                    B = np.asarray(crdict.wavelet_basis(n, w, lev))
                    c.close(B.T @ B, np.eye(n), 'orthonormal', tol=1e-6)
                    # column blocks: scaling atoms first, then details from coarse to fine: a constant signal only has scaling coefficients
                    one = B.T @ np.ones(n)
                    c.close(one[n >> lev:], np.zeros(n - (n >> lev)), 'a constant signal has no detail coefficients', tol=1e-6)
                    T = lop.dwt(n, wavelet=w, level=lev, basis=True)
                    c.close(np.asarray(lop.to_matrix(T)), B, 'agrees with the wavelet operator', tol=1e-6)
                    c.state(np.round(B, 6))
                    ctx.n_exec += 2
            if mx >= 1:
                with ctx.case(f'wavelet_basis {w} n={n} default level') as c:
                    c.close(np.asarray(crdict.wavelet_basis(n, w)), np.asarray(crdict.wavelet_basis(n, w, mx)), 'default is the deepest level', tol=1e-9)
                    ctx.n_exec += 2
            with ctx.case(f'wavelet_basis {w} n={n} refuses level {mx + 1}') as c:
                try:
                    crdict.wavelet_basis(n, w, mx + 1)
                    c.fail('levels which are too high are refused')
                except AssertionError:
                    pass
        with ctx.case(f'wavelet_basis {w} refuses n=12') as c:
            try:
                crdict.wavelet_basis(12, w)
                c.fail('sizes that are not a power of two are refused')
            except AssertionError:
                pass


def grass(ctx, th):
    import functools
    import jax
    import cr.sparse.dict as crdict
    for (m, n) in [(2, 3), (2, 4), (3, 4), (3, 6), (4, 7), (6, 16)] + ([(8, 20)] if th else []):
        for s in range(3 if not th else 8):
            init = normalise(np.random.RandomState(50 * m + n + s).randn(m, n))
            mu0 = np.max(np.abs(init.T @ init) * (1 - np.eye(n)))
            for (frac, sh) in ((0.9, 0.9), (0.8, 0.8)):
                for it in (0, 1, 2, 5, 25, 60):
                    with ctx.case(f'grassmannian {m}x{n} s={s} frac={frac} shrink={sh} it={it}') as c:
                        F = np.asarray(crdict.build_grassmannian_frame(init, frac=frac, shrink_mu=sh, iterations=it))
                        c.expect(F.shape == (m, n), 'shape')
                        c.close(np.linalg.norm(F, axis=0), np.ones(n), 'unit norm atoms', tol=1e-6)
                        mu = np.max(np.abs(F.T @ F) * (1 - np.eye(n)))
                        c.expect(mu >= crdict.minimum_coherence(m, n) - 1e-9, 'not below the Welch bound')
                        if it == 0:
                            c.close(F.T @ F, init.T @ init, 'no iterations keep the Gram matrix', tol=1e-6)
                        ref = grass_ref(init, frac, sh, it) if it <= 5 else None   # rounding is amplified by the thresholds in long histories
                        if ref is not None:
                            c.close(F.T @ F, ref, 'Gram matrix of the alternating projections', tol=1e-6)
                        c.state(np.round(mu, 6))
                        ctx.n_exec += 1


def grass_ref(init, frac, sh, it):
    m, n = init.shape
    g = init.T @ init
    noff = n * n - n
    ui, li = round(frac * noff) - 1, round((1 - frac) * noff) - 1
    if li < 0:
        return None
    offd = ~np.eye(n, dtype=bool)
    for _ in range(it):
        g = (g + g.T) / 2
        a = np.abs(g)
        s = np.sort(a.ravel())
        # a magnitude which is another pair's threshold up to rounding: no claim about this history
        if any(np.sum(np.abs(a - s[i]) < 1e-6) != 2 for i in (ui, li)):
            return None
        g = np.where(offd & (a > s[ui] * (1 + 1e-9)), g * sh, g)
        g = np.where(a < s[li] * (1 - 1e-9), g / sh, g)
        U, sv, VT = np.linalg.svd(g)
        sv[m:] = 0
        g = (U * sv) @ VT
        d = np.diag(g)
        if np.any(d <= 1e-9):
            return None
        g = g / np.sqrt(np.outer(d, d))
    return g
