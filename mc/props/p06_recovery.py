"""Exact sparse recovery under incoherence, for every support and sign pattern."""
import itertools
import numpy as np
import scipy.linalg
from mc.core import Task
from mc import pursuits as P
from mc.opcat import genm, gen, dct2_ortho, dft

ID = 'P06'
RULE = ('Dictionaries whose coherence mu satisfies K < (1+1/mu)/2 (OMP/MP provably recover; the other pursuits recover on them as well): every '
        'support of size K, every sign (or listed phase) pattern and every listed assignment of magnitudes gives one measurement vector; every '
        'solver variant must return the support and the coefficients. A state is a distinct recovered vector.')
ASSUME = ['recovery for SP/CoSaMP/HTP/IHT on the listed dictionaries is established by this enumeration itself (it is complete for the listed K)']
VARS = {'omp': ['matrix_jit', 'operator'], 'mp': ['matrix', 'operator']}
ALGS = ['omp', 'mp', 'sp', 'cosamp', 'htp', 'nhtp', 'iht', 'niht']


def dicts():
    had = lambda n: scipy.linalg.hadamard(n) / np.sqrt(n)
    return {'DH16': np.hstack([np.eye(16), had(16)]), 'O8': np.linalg.qr(genm(8, 8, 202))[0], 'I7': np.eye(7),
            'DH32': np.hstack([np.eye(32), had(32)]), 'C12': dct2_ortho(12).T}


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for d, Ks in (('DH16', [1, 2]), ('O8', [1, 2, 3]), ('I7', [1, 2]), ('C12', [1, 2, 3]), ('DH32', [1, 2, 3] if th else [1])):
        for alg in ALGS:
            ts.append(Task(f'{alg} {d}', 'run', dict(alg=alg, d=d, Ks=Ks, th=th), cost=3 if d == 'DH16' else 1))
    for K in (1, 2):
        for alg in ('sp', 'cosamp', 'omp'):
            ts.append(Task(f'complex {alg} K={K}', 'run_complex', dict(alg=alg, K=K, th=th), cost=2))
    for alg in ALGS:
        for sc in (1e-9, 1e-4, 1e4, 1e9):
            ts.append(Task(f'{alg} DH16 scale={sc}', 'run', dict(alg=alg, d='DH16', Ks=[1, 2] if th else [2], th=th, sc=sc, step=1 if th else 7)))
    # the default iteration budget suffices
    for alg, ds in (('mp', ('O8', 'DH16')), ('iht', ('O8', 'C12', 'DH16')), ('niht', ('O8', 'C12', 'DH16'))):
        for d in ds:
            ts.append(Task(f'{alg} {d} default budget', 'run', dict(alg=alg, d=d, Ks=[1, 2], th=th, step=1 if th else 3, dflt=True)))
    ts.append(Task('omp multi', 'multi', dict()))
    ts.append(Task('f32 sp', 'run', dict(alg='sp', d='DH16', Ks=[1, 2], th=False, f32=True), x64=False))
    ts.append(Task('f32 omp', 'run', dict(alg='omp', d='DH16', Ks=[1, 2], th=False, f32=True), x64=False))
    ts.append(Task('f32 htp', 'run', dict(alg='htp', d='O8', Ks=[1, 2, 3], th=False, f32=True), x64=False))
    return ts


def run(ctx, alg, d, Ks, th, f32=False, sc=1., step=1, dflt=False):
    A = dicts()[d]
    m, n = A.shape
    if f32:
        A = A.astype(np.float32)
    for K in Ks:
        if alg == 'cosamp' and 3 * K > m:
            continue
        mags = (0, 1, 2) if th and K < 3 else ((0, 1) if K < 3 else (0,))
        labels, Y, X = P.problems(A.astype(float), K, mags=mags, signs='all' if th or K < 3 else 'half')
        for var in VARS.get(alg, ['matrix_jit', 'operator_jit'] + (['matrix', 'operator', 'solve'] if th else [])):
            name = f'{alg}.{var}'
            lab, YY, XX = labels[::step], Y[::step] * sc, X[::step]
            if alg == 'omp' and var == 'operator' and not th:
                s = max(1, len(YY) // 150)
                lab, YY, XX = lab[::s], YY[::s], XX[::s]
            T = {'omp': K, 'mp': 100, 'iht': 300, 'niht': 300}.get(alg)
            if dflt:
                T = None
            tag = f'{name} {d} K={K}' + (' default budget' if dflt else '') + (' f32' if f32 else '') + (f' scale={sc}' if sc != 1 else '')
            with ctx.case(tag) as c:
                o = P.run_name(name, P.solver(name, A, K, T), YY.astype(A.dtype), n)
                ctx.execs(len(YY))
            if c.failed:
                continue
            exact = alg in ('omp', 'sp', 'cosamp', 'htp', 'nhtp')
            tol = (1e-8 if exact else 1e-3) if not f32 else 2e-3
            for i, l in enumerate(lab):
                with ctx.case(f'{tag} {l}') as c:
                    c.close(np.asarray(o['x'][i]) / sc, XX[i], 'recovered vector', tol, rtol=0)
                    if exact and 'I' in o:
                        got = {int(j) for j in o['I'][i]}
                        c.expect(set(np.flatnonzero(XX[i])) <= got, 'recovered support', got=str(got))
                    c.state(o['x'][i])


def run_complex(ctx, alg, K, th):
    import jax
    import jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.pursuit import sp, cosamp, omp
    n = 16
    ops = {'dirac_fourier 16x32': (lop.jit(lop.dirac_fourier_basis(n)), np.hstack([np.eye(n), dft(n).conj() / np.sqrt(n)])),
           'fourier 16x16': (lop.jit(lop.fourier_basis(n)), dft(n).conj() / np.sqrt(n))}
    for nm, (op, A) in ops.items():
        mod = {'sp': sp, 'cosamp': cosamp}.get(alg)
        f = (lambda y: omp.operator_solve(op, y, K)) if alg == 'omp' else (lambda y: mod.solve(op, y, K))
        ph = [1, -1, 1j, np.exp(.7j)]
        N = A.shape[1]
        for q, S in enumerate(itertools.combinations(range(N), K)):
            if alg == 'omp' and K > 1 and not th and q % 19:
                continue
            for r, sg in enumerate(itertools.product(ph[:4 if K == 1 else 3], repeat=K)):
                x = np.zeros(N, complex)
                x[list(S)] = np.array([P.MAGS[(i + r) % 4] for i in range(K)]) * np.array(sg)
                with ctx.case(f'{alg} complex {nm} S={S} phases={r}') as c:
                    s = f(jnp.asarray(A @ x))
                    ctx.execs()
                    c.close(s.x, x, 'recovered complex vector', 1e-8, rtol=0)
                    c.close(s.r, np.zeros(n), 'residual', 1e-8)
                    c.state(s.x)


def multi(ctx):
    import jax.numpy as jnp
    from cr.sparse.pursuit import omp
    A = dicts()['DH16']
    for K in (1, 2):
        labels, Y, X = P.problems(A, K, mags=(0,))
        with ctx.case(f'omp.matrix_solve_multi K={K}') as c:
            s = omp.matrix_solve_multi(jnp.asarray(A), jnp.asarray(Y.T), K)
            ctx.execs(len(Y))
            got = np.zeros_like(X)
            I, v = np.asarray(s.I), np.asarray(s.x_I)
            c.expect(I.shape == (len(Y), K), 'one solution per column', got=str(I.shape))
            for i in range(len(Y)):
                got[i, I[i]] = v[i]
            c.close(got, X, 'recovered vectors', 1e-8)
            c.state(got)
