"""Greedy pursuits follow their published iteration, in every variant."""
import itertools
import numpy as np
from mc.core import Task
from mc import pursuits as P
from mc.opcat import gen, genm

ID = 'P07'
RULE = ('Explicit-state models of MP, OMP, CoSaMP, SP, IHT, HTP and the normalised variants (state = support, coefficients, residual, iteration '
        'counter; written in NumPy from the published algorithms) are unrolled for every budget T in the list; every state so reached is '
        'replayed against the real solver run with that budget (model trace conformance), for every measurement vector of the enumerated set '
        'and every variant (matrix, operator, compiled). A state is a distinct (algorithm, iterate).')
ASSUME = ['steps whose selection margin is below 1e-9 (ties) are not compared', 'step length convention 0.98/largest singular value for IHT/HTP']
ALGS = ['mp', 'omp', 'cosamp', 'sp', 'iht', 'htp', 'niht', 'nhtp']


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for d in ('G6x9', 'DC8x16', 'O6x6', 'S6x8', 'G7x9'):
        for alg in ALGS:
            if alg in ('mp', 'omp') and d == 'S6x8':
                continue
            ts.append(Task(f'{alg} {d}', 'run', dict(alg=alg, d=d, th=th), cost=2 if alg in ('cosamp', 'sp') else 1))
    for alg in ALGS:
        for d in ('G6x9', 'C6x9', 'G12x20'):
            ts.append(Task(f'{alg} {d} default budget and scales', 'run2', dict(alg=alg, d=d, th=th), cost=1.5))
    ts.append(Task('solution object', 'objects', {}))
    return ts


def run(ctx, alg, d, th):
    A, norm = P.dictionaries()[d]
    m, n = A.shape
    Ks = [1, 2] + ([3] if alg != 'cosamp' and (th or alg in ('omp',)) else [])
    if alg == 'mp':
        Ks = [2]
    for K in Ks:
        if alg == 'cosamp' and 3 * K > n:
            continue
        labels, Y, X = P.problems(A, K, noise=(0.05,) if not th else (0., .05), signs='half', generic=12 if not th else 60)
        if n > 10 and not th:
            labels, Y = labels[::4] + labels[-12:], np.vstack([Y[::4], Y[-12:]])
        vs = ['matrix', 'operator'] + (['matrix_jit', 'operator_jit', 'solve'] if th and alg not in ('mp', 'omp') else [])
        for var in vs:
            Ts = {'mp': [1, 2, 3, 8], 'omp': [K]}.get(alg, [1, 2, 3] + ([5, 8] if th else [5]))
            if alg == 'nhtp':
                Ts = [1, 2]           # beyond: the step length is a ratio of rounding errors
            for T in Ts:
                for rtol in ([None, .2] if T > 2 and (alg != 'omp' or var == 'operator') else [None]):
                    name = f'{alg}.{var}'
                    mod = P.model(alg, var)
                    lab, YY = labels, Y
                    if alg == 'omp' and var == 'operator' and not th:
                        lab, YY = labels[::3], Y[::3]
                    tag = f'{name} {d} K={K} T={T} rtol={rtol}'
                    with ctx.case(tag) as c:
                        o = P.run_name(name, P.solver(name, A, K, T, rtol), YY, n)
                        ctx.execs(len(YY))
                    if c.failed:
                        continue
                    for i, l in enumerate(lab):
                        try:
                            x, r, it = mod(A, YY[i], K, T, **({} if rtol is None else dict(rtol=rtol)))
                        except P.Tie:
                            continue
                        with ctx.case(f'{tag} {l}') as c:
                            sc = 1 + np.abs(x).max()
                            c.close(o['x'][i], x, 'iterate', 1e-6 * sc, rtol=0)
                            c.close(o['r'][i], r, 'residual', 1e-6 * sc, rtol=0)
                            c.expect(int(o['it'][i]) == it, 'iteration counter', got=int(o['it'][i]), want=it)
                            c.state(alg, x, it)


def run2(ctx, alg, d, th):
    """default iteration budget, coherent atoms, a larger dictionary, data of every scale"""
    A, norm = P.dictionaries(True)[d]
    m, n = A.shape
    for K, sc in itertools.product((2, 3, 4), (1., 1e-5, 1e5)):
        if K > 2 and (d != 'G12x20' or sc != 1) or alg == 'mp' and K != 2 or alg == 'cosamp' and 3 * K > m:
            continue
        Y, labels = [gen(m, 500 + s) for s in range(6)], [f'generic{s}' for s in range(6)]
        for i in range(n):
            I = [(i + j * (2 * j + 1)) % n for j in range(K)]
            x = np.zeros(n)
            x[I] = gen(K, i + 3)
            Y.append(A @ x + 0.03 * gen(m, 7 + i))
            labels.append(f'S={I}')
        Y = np.array(Y) * sc
        for var, T in itertools.product(('matrix', 'operator'), (None, 2)):
            if alg == 'omp' and T is None:
                continue
            if alg == 'nhtp' and T is None and sc != 1:
                continue
            name = f'{alg}.{var}'
            Tm = K if alg == 'omp' else (T or (100 if alg == 'mp' else m))
            tag = f'{name} {d} K={K} T={T} scale={sc}'
            with ctx.case(tag) as c:
                o = P.run_name(name, P.solver(name, A, K, Tm if alg == 'omp' else T), Y, n)
                ctx.execs(len(Y))
            if c.failed:
                continue
            for i, l in enumerate(labels):
                try:
                    x, r, it = P.model(alg, var)(A, Y[i], K, Tm)
                except P.Tie:
                    continue
                with ctx.case(f'{tag} {l}') as c:
                    big = (sc + np.abs(x).max())
                    c.close(o['x'][i], x, 'iterate', 1e-6 * big, rtol=0)
                    c.close(o['r'][i], r, 'residual', 1e-6 * big, rtol=0)
                    c.expect(int(o['it'][i]) == it, 'iteration counter', got=int(o['it'][i]), want=it)
                    c.state(alg, x, it)


def objects(ctx):
    """the solution object returned by plain calls"""
    import jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.pursuit import mp, omp, cosamp, sp, iht, htp, largest_indices, abs_max_idx, gram_chol_update
    A, _ = P.dictionaries()['G6x9']
    Aj = jnp.asarray(A)
    op = lop.jit(lop.matrix(Aj))
    y = jnp.asarray(gen(6, 5))
    calls = {'omp.solve': lambda: omp.solve(Aj, y, 2), 'omp.operator_solve': lambda: omp.operator_solve(op, y, 2),
             'sp.solve': lambda: sp.solve(op, y, 2), 'sp.matrix_solve_jit': lambda: sp.matrix_solve_jit(Aj, y, 2),
             'sp.matrix_solve': lambda: sp.matrix_solve(Aj, y, 2), 'cosamp.solve': lambda: cosamp.solve(op, y, 2),
             'cosamp.matrix_solve_jit': lambda: cosamp.matrix_solve_jit(Aj, y, 2), 'iht.solve': lambda: iht.solve(op, y, 2),
             'iht.matrix_solve_jit': lambda: iht.matrix_solve_jit(Aj, y, 2), 'htp.solve': lambda: htp.solve(op, y, 2),
             'htp.matrix_solve_jit': lambda: htp.matrix_solve_jit(Aj, y, 2), 'iht step': lambda: iht.matrix_solve_jit(Aj, y, 2, step_size=.3, max_iters=2),
             'htp step': lambda: htp.matrix_solve_jit(Aj, y, 2, step_size=.3, max_iters=2)}
    for k, f in calls.items():
        with ctx.case(k) as c:
            s = f()
            x = np.zeros(9)
            x[np.asarray(s.I)] = np.asarray(s.x_I)
            c.close(s.x, x, 'dense solution', 0)
            c.expect(int(s.length) == 9, 'length')
            c.expect('iterations' in str(s), 'printable')
            c.state(x)
            if 'step' in k:
                x, r, it = P.m_iht(A, np.asarray(y), 2, 2, htp='htp' in k, mu=.3)
                c.close(s.x, x, 'iterate with a user supplied step', 1e-8)
    for f in (mp.solve, mp.matrix_solve):
        with ctx.case(f'mp {f.__name__}') as c:
            s = f(op if f is mp.solve else Aj, y, max_iters=3)
            x = np.asarray(s.x)
            c.expect(set(np.asarray(s.I).tolist()) == set(np.flatnonzero(x).tolist()), 'support')
            c.close(np.sort(np.asarray(s.x_I)), np.sort(x[x != 0]), 'nonzero values', 0)
            c.expect(int(s.length) == 9, 'length')
            c.expect('iterations' in str(s), 'printable')
    for n in range(1, 7):
        for seed in range(10):
            h = gen(n, seed, seed % 2 == 1)
            with ctx.case(f'selection helpers n={n} seed={seed}') as c:
                o = np.argsort(-np.abs(h))
                c.expect(int(abs_max_idx(jnp.asarray(h))) == o[0], 'index of largest magnitude')
                for K in range(1, n + 1):
                    c.close(largest_indices(jnp.asarray(h), K), o[:K], 'K largest', 0)
    for n in range(1, 7):
        B = P.unit(genm(8, n + 1, 400 + n) + 2 * np.eye(8)[:, :n + 1])
        with ctx.case(f'gram_chol_update n={n}') as c:
            G = B.T @ B
            L = gram_chol_update(jnp.asarray(np.linalg.cholesky(G[:n, :n])), jnp.asarray(G[:n, n]))
            c.close(L, np.linalg.cholesky(G), 'extended Cholesky factor', 1e-9)
