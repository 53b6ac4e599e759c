"""Greedy pursuits: the returned solution is self-consistent, sparse and within its iteration budget."""
import numpy as np
from mc.core import Task
from mc import pursuits as P

ID = 'P05'
RULE = ('For every solver (MP, OMP, CoSaMP, SP, IHT, HTP, normalised IHT/HTP; matrix, operator and compiled variants), dictionary, sparsity '
        'level K, iteration budget T and tolerance of the stated lists: every measurement vector built from every support of size k in {K, K+1}, '
        'every sign pattern, noise level, plus generic and zero vectors is solved by the real code and the returned solution is checked. '
        'A state is a distinct returned iterate.')
ASSUME = ['OMP and MP are given unit-norm atoms, as their derivation requires', 'the merged support fits the dictionary: 2K <= n for SP, 3K <= n for CoSaMP']
ALGS = ['mp', 'omp', 'cosamp', 'sp', 'iht', 'htp', 'niht', 'nhtp']


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for d, (A, norm) in P.dictionaries().items():
        m, n = A.shape
        for alg in ALGS:
            if alg in ('mp', 'omp') and not norm:
                continue
            ts.append(Task(f'{alg} {d}', 'run', dict(alg=alg, d=d, th=th), cost=2 if alg in ('cosamp', 'omp') else 1))
            if th or d in ('G6x9', 'I6x6') and alg in ('omp', 'mp', 'iht', 'sp', 'cosamp'):
                ts.append(Task(f'f32 {alg} {d}', 'run', dict(alg=alg, d=d, th=th, f32=True), x64=False))
    for alg in ALGS:
        for d in ('C6x9', 'T8x5'):
            ts.append(Task(f'{alg} {d}', 'run', dict(alg=alg, d=d, th=th), cost=2 if alg in ('cosamp', 'omp') else 1))
    ts.append(Task('omp multi', 'multi', dict(th=th)))
    for alg in ('omp', 'sp', 'cosamp'):
        ts.append(Task(f'complex {alg}', 'cplx', dict(alg=alg, th=th), cost=2))
    return ts


def cplx(ctx, alg, th):
    """complex operators and measurements (the operator forms which support them)"""
    import itertools
    import jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.pursuit import omp, sp, cosamp
    from mc.opcat import gen, genm
    for m, n in ((4, 6), (5, 5), (6, 9)):
        A = genm(m, n, 17, True)
        A = A / np.linalg.norm(A, axis=0)
        op = lop.matrix(jnp.asarray(A))
        for K in (1, 2, 3):
            if alg == 'cosamp' and 3 * K > n or alg == 'sp' and 2 * K > n:
                continue
            ys = [(f'generic {s}', gen(m, s, True)) for s in range(1, 6)]
            ys += [('zero', np.zeros(m, complex)), ('real', gen(m, 9) + 0j), ('imaginary', 1j * gen(m, 10))]
            for q, S in enumerate(itertools.combinations(range(n), K)):
                if not th and K == 3 and q % 4:
                    continue
                ph = np.exp(1j * np.arange(1, K + 1) * (q + 1))
                ys.append((f'S={S}', A[:, list(S)] @ (ph * (1 + np.arange(K)))))
            for lab, y in ys:
                for T in (None,) if alg == 'omp' else (1, 2, None):
                    with ctx.case(f'{alg} complex {m}x{n} K={K} T={T} y={lab}') as c:
                        if alg == 'omp':
                            s = omp.operator_solve(op, jnp.asarray(y), K)
                        else:
                            s = {'sp': sp, 'cosamp': cosamp}[alg].solve(op, jnp.asarray(y), K, **({'max_iters': T} if T else {}))
                        ctx.execs()
                        I, xI, r = np.asarray(s.I), np.asarray(s.x_I), np.asarray(s.r)
                        x = np.zeros(n, complex)
                        x[I] = xI
                        c.expect(len(set(I.tolist())) == len(I) <= K and I.min() >= 0 and I.max() < n, 'support is a set of at most K atom indices', got=I)
                        c.close(np.asarray(s.x), x, 'dense and compact solution agree', 0)
                        c.expect(np.isfinite(x).all(), 'finite solution')
                        c.close(r, y - A @ x, 'residual = y - A x', 1e-8)
                        rr = np.asarray(s.r_norm_sqr)
                        c.expect(not np.iscomplexobj(rr), 'squared residual norm is real')
                        c.close(rr, np.vdot(r, r).real, 'reported squared residual norm', 1e-8)
                        if alg != 'cosamp':
                            c.close(A[:, I].conj().T @ r, np.zeros(len(I)), 'residual orthogonal to the selected atoms', 1e-7)
                        if lab == 'zero':
                            c.close(x, np.zeros(n), 'zero measurements give zero', 1e-12)
                        c.state(x)


def multi(ctx, th):
    """several measurement vectors at once: every column gets its own solution"""
    import jax.numpy as jnp
    from cr.sparse.pursuit import omp
    from mc.opcat import gen
    for d in ('G6x9', 'O6x6', 'T8x5'):
        A, _ = P.dictionaries(True)[d]
        m, n = A.shape
        for K in (1, 2, 3):
            for cols in sorted({1, 2, m, n, m + 3}):
                with ctx.case(f'omp.matrix_solve_multi {d} K={K} columns={cols}') as c:
                    Y = np.stack([gen(m, 600 + 7 * j) for j in range(cols)], 1)
                    s = omp.matrix_solve_multi(jnp.asarray(A), jnp.asarray(Y), K)
                    ctx.execs()
                    I, v, R = np.asarray(s.I), np.asarray(s.x_I), np.asarray(s.r)
                    c.expect(I.shape == (cols, K) and v.shape == (cols, K) and R.shape == (cols, m), 'one solution per column', got=str((I.shape, v.shape, R.shape)))
                    for j in range(cols):
                        x = np.zeros(n)
                        x[I[j]] = v[j]
                        c.expect(len(set(I[j].tolist())) == K, 'distinct atoms', got=I[j])
                        c.close(R[j], Y[:, j] - A @ x, 'residual', 1e-8)
                        c.close(np.asarray(s.r_norm_sqr)[j], R[j] @ R[j], 'squared residual norm', 1e-8)
                        c.close(A[:, I[j]].T @ R[j], np.zeros(K), 'residual orthogonal to the selected atoms', 1e-8)
                        c.state(x)


def run(ctx, alg, d, th, f32=False):
    A, norm = P.dictionaries(True)[d]
    m, n = A.shape
    if f32:
        A = A.astype(np.float32)
    vs = ['matrix', 'operator'] if not th else (['matrix', 'operator', 'matrix_jit', 'operator_jit'] if alg not in ('mp', 'omp') else ['matrix', 'operator'])
    Ks = [1, 2] if alg != 'mp' else [2]
    if n <= 9 and (th or alg in ('omp', 'sp')):
        Ks = Ks + [3]
    for K in Ks:
        if alg == 'cosamp' and 3 * K > n or alg == 'sp' and 2 * K > n:
            continue
        for var in vs:
            Ts = {'mp': [1, 2, 5], 'omp': [K]}.get(alg, [1, 2, 4] if th else [1, 3])
            for T in Ts + ([None] if alg not in ('mp', 'omp') and not f32 else []):
                for rtol in ([None, 0.3] if (alg != 'omp' or var == 'operator') and T != 1 else [None]):
                    one(ctx, alg, var, A, d, K, T, rtol, f32, th)


def one(ctx, alg, var, A, d, K, T, rtol, f32, th):
    m, n = A.shape
    sets = [P.problems(A.astype(float), k, noise=(0.0, 0.05), signs='all' if k < 3 else 'half',
                       generic=6 if k == K else 0, zero=k == K) for k in ({K} if n > 9 or not th else {K, K + 1})]
    labels = sum([s[0] for s in sets], [])
    Y = np.vstack([s[1] for s in sets])
    if f32:
        Y = Y.astype(np.float32)
    name = f'{alg}.{var}'
    each = alg == 'omp' and var == 'operator'
    if each:
        idx = range(0, len(Y), 1 if th else max(1, len(Y) // 40))
        labels = [labels[i] for i in idx]
        Y = Y[list(idx)]
    tag = f'{name} {d} K={K} T={T} rtol={rtol}'
    with ctx.case(tag) as c:
        f = P.solver(name, A, K, T, rtol)
        out = P.run_name(name, f, Y, n)
        ctx.execs(len(Y))
    if c.failed:
        return
    eps = 2e-4 if f32 else 1e-8
    thr = 1e-4 if rtol is None else rtol
    Tm = m if T is None else T
    for i, lab in enumerate(labels):
        with ctx.case(f'{tag} {lab}') as c:
            y = Y[i].astype(float)
            x, r, rr, it = np.asarray(out['x'][i], float), np.asarray(out['r'][i], float), float(out['rr'][i]), int(out['it'][i])
            sc = 1 + np.linalg.norm(y) + np.linalg.norm(x) * np.linalg.norm(A, 2)
            c.expect(x.shape == (n,) and r.shape == (m,), 'solution shapes', got=str((x.shape, r.shape)))
            c.expect(np.isfinite(x).all() and np.isfinite(r).all(), 'finite solution', got=x)
            c.close(r, y - A.astype(float) @ x, 'residual = y - A x', eps * sc, rtol=0)
            c.close(rr, r @ r, 'reported squared residual norm', eps * sc * sc, rtol=0)
            c.expect(0 <= it <= Tm, 'iteration budget', got=it, want=Tm)
            if alg == 'mp':
                c.expect(np.count_nonzero(x) <= it, 'at most one new atom per iteration')
                c.expect(np.linalg.norm(r) <= np.linalg.norm(y) * (1 + 1e-6), 'residual does not grow')
            else:
                I, xI = np.asarray(out['I'][i]), np.asarray(out['xI'][i], float)
                k = len(I)
                c.expect(I.shape == xI.shape and I.ndim == 1, 'support and values have the same length', got=str((I.shape, xI.shape)))
                c.expect(len(set(I.tolist())) == k and I.min() >= 0 and I.max() < n, 'support is a set of atom indices', got=I)
                c.expect(k <= K, 'sparsity level', got=k)
                c.close(x[I], xI, 'dense and compact solution agree', 0)
                if 'L' in out:
                    c.expect(int(out['L'][i]) == n, 'length of the sparse vector', got=int(out['L'][i]))
                c.expect(np.count_nonzero(x) <= K, 'sparsity of the solution')
                if alg in ('omp', 'sp') or alg in ('htp', 'nhtp') and it > 1:
                    c.close(A[:, I].astype(float).T @ r, np.zeros(k), 'residual orthogonal to the selected atoms', eps * sc, rtol=0)
                    c.expect(np.linalg.norm(r) <= np.linalg.norm(y) * (1 + 1e-6) + eps, 'residual not larger than y')
            if it < Tm and np.linalg.norm(y) > 0:
                small = np.sqrt(rr) <= thr * np.linalg.norm(y) * (1 + 1e-3) + (1e-5 if f32 else 0)
                opv = var.startswith('operator')
                may_stall = alg in ('htp', 'nhtp') or alg in ('sp', 'cosamp') and opv
                c.expect(small or (may_stall and it >= min(3 * K, 20)), 'stopped early though the residual is large', r_norm=np.sqrt(rr), it=it)
            c.state(x)

