"""Lanczos bidiagonalisation and truncated SVD of an operator."""
import numpy as np
from mc.core import Task
from mc.opcat import gen, genm

ID = 'P12'
RULE = ('For every matrix of a family (generic, orthogonal, diagonal, clustered and repeated spectra, rapidly decaying, rank deficient, zero columns; every shape of the list) '
        'given as an operator, every step count k from 1 to min(m,n) and every start vector of a list: the real bidiagonalisation and truncated SVD are executed and '
        'checked against the defining identities (A V = U B + residual, A^T U = V B^T, orthonormal U and V, error bounds, true singular values '
        'whenever the Krylov space is complete). A state is a distinct bidiagonal matrix / spectrum.')
ASSUME = ['double precision', 'semi-orthogonality level 1e-6 (the method keeps the square root of the machine precision)',
          'steps beyond the rank of a rank deficient operator are only checked for finiteness and the first identity']


def mats(th):
    res = {}
    shapes = [(4, 4), (9, 6), (6, 9), (12, 12), (14, 10)] + ([(3, 3), (5, 7), (8, 8), (12, 8), (20, 16), (30, 20), (40, 44)] if th else [])
    for m, n in shapes:
        k = min(m, n)
        U = np.linalg.qr(genm(m, k, 11 + m))[0]
        V = np.linalg.qr(genm(n, k, 17 + n))[0]
        fam = {'gen': np.linspace(5, 1, k) + 0.3 * np.cos(np.arange(k)), 'decay': 10. ** -np.linspace(0, 6, k), 'rep': np.r_[[3., 3.], np.linspace(2, 1, k - 2)],
               'low': np.r_[np.linspace(4, 1, k // 2), np.zeros(k - k // 2)]}
        if m == n and k <= 9:
            fam['orth'] = np.ones(k)
        for f, s in fam.items():
            s = np.sort(s)[::-1]
            res[f'{f} {m}x{n}'] = (U @ np.diag(s) @ V.T, s)
    res['eye 5'] = (np.eye(5), np.ones(5))
    res['diag 6'] = (np.diag(np.arange(6, 0, -1.)), np.arange(6, 0, -1.))
    A = genm(6, 5, 5)
    A[:, 2] = 0
    res['zerocol 6x5'] = (A, np.linalg.svd(A)[1])
    return res


def tasks(tier):
    th = tier == 'thorough'
    return [Task(f'{k}', 'run', dict(name=k, th=th), cost=min(A.shape)) for k, (A, s) in mats(th).items()]


def run(ctx, name, th):
    import cr.sparse.lop as lop
    import cr.sparse.sls.svd as csvd
    import jax.numpy as jnp
    A, s0 = mats(th)[name]
    m, n = A.shape
    K = min(m, n)
    op = lop.matrix(jnp.asarray(A))
    starts = [('gen', gen(m, 5)), ('ones', np.ones(m))] + ([('e0', np.eye(m)[0]), ('gen2', gen(m, 6))] if th else [('e0', np.eye(m)[0])])
    rank = int(np.sum(s0 > 1e-12))
    distinct = len(set(np.round(s0[s0 > 1e-12], 9)))
    ks = range(1, K + 1) if th else sorted({1, 2, K // 2 + 1, K})
    for k in ks:
        for sl, p0 in starts:
            with ctx.case(f'lanbpro {name} k={k} start={sl}') as c:
                st = csvd.lanbpro_jit(op, int(k), jnp.asarray(p0))
                ctx.execs()
                U, V, al, be, p = (np.asarray(v) for v in (st.U, st.V, st.alpha, st.beta, st.p))
                c.state(al, be)
                if not c.expect(all(np.all(np.isfinite(v)) for v in (U, V, al, be, p)), 'finite'):
                    continue
                c.expect(int(st.iterations) == k, 'iterations')
                c.expect(U.shape == (m, k) and V.shape == (n, k), 'shapes')
                B = np.zeros((k + 1, k))
                B[np.arange(k), np.arange(k)] = al[:k]
                B[np.arange(1, k + 1), np.arange(k)] = be[1:k + 1]
                res = be[k] * (p / max(np.linalg.norm(p), 1e-300))
                c.close(A @ V, U @ B[:k] + np.outer(res, np.eye(k)[k - 1]), 'A V = U B + residual', tol=1e-6)
                c.close(A.T @ U, V @ B[:k].T, 'A^T U = V B^T', tol=1e-6)
                # steps beyond the rank of a deficient operator are only required to stay finite
                kk = k if rank == K else min(k, rank)
                if rank < K and sl == 'e0':
                    continue
                c.close((U.T @ U)[:kk, :kk], np.eye(kk), 'left Lanczos vectors are orthonormal', tol=1e-6)
                c.close((V.T @ V)[:kk, :kk], np.eye(kk), 'right Lanczos vectors are orthonormal', tol=1e-6)
                c.close(be[0] * U[:, 0], p0, 'first left vector is the normalised start', tol=1e-9)
    for k in ks:
        for sl, p0 in starts[:2]:
            with ctx.case(f'lansvd {name} k={k} start={sl}') as c:
                U, S, V, bnd, nc, st = csvd.lansvd_simple_jit(op, int(k), jnp.asarray(p0))
                ctx.execs()
                U, S, V, bnd, nc = np.asarray(U), np.asarray(S), np.asarray(V), np.asarray(bnd), int(nc)
                c.state(S)
                if not c.expect(all(np.all(np.isfinite(v)) for v in (U, V, S)), 'finite'):
                    continue
                c.expect(U.shape == (m, k) and V.shape == (n, k) and S.shape == (k,), 'shapes')
                c.expect(np.all(np.diff(S) <= 1e-12) and np.all(S >= -1e-12), 'singular values are sorted and non negative')
                c.close(A @ V, U * S, 'A V = U S', tol=1e-6)
                j = min(k + max(8, k), min(K, max(20, 4 * k)))
                if j > rank:
                    c.close(S[0], s0[0], 'largest singular value', tol=1e-8)
                    continue
                pos = S > 1e-9
                c.close((U.T @ U)[np.ix_(pos, pos)], np.eye(pos.sum()), 'left singular vectors are orthonormal', tol=1e-6)
                c.close((V.T @ V)[np.ix_(pos, pos)], np.eye(pos.sum()), 'right singular vectors are orthonormal', tol=1e-6)
                c.expect(np.all(S <= s0[:k] + 1e-8 * s0[0]), 'singular value estimates do not exceed the singular values')
                full = k + max(8, k) >= K and K <= max(20, 4 * k)
                if full:
                    c.close(S, s0[:k], 'complete Krylov space gives the exact singular values', tol=1e-8)
                c.expect(0 <= nc <= k, 'number of converged values in range')
                for i in range(k):
                    c.expect(np.min(np.abs(S[i] - s0)) <= bnd[i] + 1e-8 * s0[0], 'a singular value lies within the reported error bound', i=i, got=float(np.min(np.abs(S[i] - s0))), want=float(bnd[i]))
                lim = 16 * np.finfo(float).eps * np.abs(S)
                if not np.any(np.abs(bnd[:k] - lim) <= 1e-3 * lim):
                    ok = bnd[:k] <= lim
                    c.expect(nc == (k if ok.all() else int(np.argmin(ok))), 'every leading value whose bound is at rounding level is counted as converged', got=nc, want=str(ok))
                for i in range(min(nc, k)):
                    c.expect(np.min(np.abs(S[i] - s0)) <= 1e-8 * s0[0], 'values counted as converged are singular values', i=i)
                    c.close(A.T @ U[:, i], S[i] * V[:, i], 'converged triplets satisfy both identities', tol=1e-6)
