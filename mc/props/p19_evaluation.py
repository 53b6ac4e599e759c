"""Evaluation tools report what actually happened: performance measures, recovery trials, phase transition grids, trackers, thresholding, kernels."""
import contextlib
import csv
import io
import itertools
import math
import os
import tempfile
import types
from collections import namedtuple
import numpy as np
from mc.core import Task

ID = 'P19'
RULE = ('Performance: every signal/estimate pair of a small value grid x every way to pass the estimate. Trials: every (dictionary trials, signal trials, sparsity list, solver list) of the grid, with scripted solvers whose '
        'outcomes are known for every call. Phase transition grids: every power of two up to the bound, recomputed entry by entry with exact fractions. Trackers: every solver that takes one, '
        'the recorded history compared with re-running the solver with every smaller budget. Thresholding: every input of a value grid against exhaustive minimisation of its objective. '
        'A state is a distinct report.')
ASSUME = ['thresholding inputs keep a distance of 1e-9 from the threshold', 'N >= 2K for performance measures']


def tasks(tier):
    th = tier == 'thorough'
    ts = [Task(f'performance K={K}', 'performance', dict(K=K, th=th), cost=80) for K in (1, 2)]
    ts += [Task('success rule', 'success', dict(th=th), cost=20)]
    ts += [Task(f'trials {d}x{s}', 'trials', dict(D=d, S=s, th=th), cost=30) for d in (1, 2, 3) for s in (1, 2, 4)]
    ts += [Task(f'phase transition {n}', 'phase', dict(N=n), cost=20) for n in (32, 64, 128, 256, 512, 1024, 2048)]
    ts += [Task('phase transition x32', 'phase', dict(N=256), x64=False)]
    ts += [Task('tracker object', 'tracker', dict(th=th), cost=20)]
    ts += [Task(f'tracked {a}', 'tracked', dict(alg=a, th=th), cost=70) for a in ('mp.solve', 'mp.matrix_solve', 'sp.solve', 'cosamp.solve', 'spgl1.lasso', 'spgl1.bpic', 'spgl1.bp')]
    ts += [Task(f'threshold {k}', 'threshold', dict(kind=k, th=th), cost=30) for k in ('hard', 'soft', 'half')]
    ts += [Task('percentile', 'percentile', dict(th=th), cost=30), Task('kernels', 'kernels', dict(th=th), cost=20)]
    return ts


Full = namedtuple('Full', 'x r iterations')
Sparse = namedtuple('Sparse', 'x_I I r iterations')


def db(a, b):
    a, b = float(a), float(b)
    if b == 0:
        return math.inf
    if a == 0:
        return -math.inf
    return 20 * math.log10(a / b)


def success(ctx, th):
    """success: more than three quarters of the atoms and more than 30 dB, decided independently of each other"""
    import jax.numpy as jnp
    import cr.sparse.ef as ef
    for K in (1, 2, 3, 4, 5, 6, 8):
        N = 2 * K + 2
        M = K + 2
        Phi = np.random.RandomState(K).randn(M, N)
        for good in range(K + 1):
            for lev in (1e-5, 0.02, 0.0315, 0.0318, 0.04, 0.3):
                # the missed atoms carry a small part of the energy, replaced by as many small wrong ones
                x = np.zeros(N)
                x[:K] = 1e-3
                x[:good] = 1. + np.arange(good)
                z = x.copy()
                z[good:K] = 0
                z[K:2 * K - good] = 1e-3
                e = lev * np.linalg.norm(x)
                h = np.linalg.norm(x - z)
                if good and h < e:
                    z[0] -= np.sqrt(e * e - h * h) * 0.999
                hn = np.linalg.norm(x - z)
                snr = db(np.linalg.norm(x), hn)
                if abs(snr - 30) < 1e-3:
                    continue
                with ctx.case(f'success K={K} correct={good} level={lev}') as c:
                    p = ef.RecoveryPerformance(jnp.asarray(Phi), jnp.asarray(Phi @ x), jnp.asarray(x), x_hat=jnp.asarray(z))
                    ctx.execs()
                    o = np.sort(np.abs(z))[::-1]
                    nc = len(set(np.argsort(-np.abs(z))[:K].tolist()) & set(range(K)))
                    if o[K - 1] - o[K] < 1e-9:
                        continue
                    c.expect(int(p.num_correct_atoms) == nc, 'correct atoms', got=int(p.num_correct_atoms), want=nc)
                    if hn > 1e-9:
                        c.close(float(p.recovery_snr), snr, 'recovery SNR', tol=1e-6)
                    want = nc / K > 0.75 and (hn < 1e-9 or snr > 30)
                    c.expect(bool(p.success) == want, 'success', got=bool(p.success), want=want)
                    c.expect(bool(p.perfect_support_recovery) == (nc == K), 'perfect support recovery')
                    c.state(K, good, lev)


def performance(ctx, K, th):
    import jax.numpy as jnp
    import cr.sparse as crs
    import cr.sparse.ef as ef
    import cr.sparse.lop as lop
    from cr.sparse.pursuit import RecoverySolution
    M, N = 4, 6
    Phi = np.random.RandomState(3).randn(M, N)
    Phi /= np.linalg.norm(Phi, axis=0)
    Op = lop.matrix(jnp.asarray(Phi))
    n = 0
    for T0 in itertools.combinations(range(N), K):
        for vals in itertools.product((1., -2.5), repeat=K):
            x = np.zeros(N)
            x[list(T0)] = vals
            ests = []
            for R in itertools.combinations(range(N), K):
                for sc in (1., 1.01, 1.04, 0.5, -1.):
                    z = np.zeros(N)
                    z[list(R)] = [v * sc * (1 + 0.001 * i) for i, v in enumerate(vals)]
                    ests.append((R, sc, z))
            ests.append((T0, 0., x + 1e-4 * np.arange(1, N + 1)))
            ests.append((T0, 0., x + .3 * np.arange(1, N + 1)))
            if not th:
                ests = ests[n % 6::6] if K > 1 else ests[n % 3::3]
            for R, sc, z in ests:
                for noise in (0., .1):
                    y = Phi @ x + noise * np.array([1., -1, 2, .5])
                    ways = [dict(x_hat=jnp.asarray(z)), dict(sol=Full(jnp.asarray(z), None, 1)), dict(sol=Sparse(jnp.asarray(z[z != 0]), jnp.asarray(np.flatnonzero(z)), None, 1)),
                            dict(sol=RecoverySolution(x_I=jnp.asarray(z[z != 0]), I=jnp.asarray(np.flatnonzero(z)), r=None, r_norm_sqr=0, iterations=1, length=N))]
                    kw = ways[n % 4]
                    n += 1
                    A = Op if n % 2 else jnp.asarray(Phi)
                    with ctx.case(f'performance T0={T0} v={vals} R={R} scale={sc} noise={noise} way={(n - 1) % 4} operator={n % 2}') as c:
                        p = (crs if n % 5 == 0 else ef).RecoveryPerformance(A, jnp.asarray(y), jnp.asarray(x), **kw)
                        h, r = x - z, y - Phi @ z
                        c.expect((p.M, p.N, p.K) == (M, N, K), 'dimensions', got=(p.M, p.N, p.K))
                        c.expect(np.asarray(p.T0).tolist() == list(T0), 'support of x')
                        for got, want, what in ((p.x_norm, np.linalg.norm(x), 'norm of x'), (p.y_norm, np.linalg.norm(y), 'norm of y'), (p.x_hat_norm, np.linalg.norm(z), 'norm of the estimate'),
                                                (p.h_norm, np.linalg.norm(h), 'norm of the error'), (p.r_norm, np.linalg.norm(r), 'norm of the residual'), (p.h, h, 'error'), (p.r, r, 'residual')):
                            c.close(np.asarray(got), want, what, tol=1e-9)
                        hn, rn = np.linalg.norm(h), np.linalg.norm(r)
                        snr = db(np.linalg.norm(x), hn)
                        if hn > 1e-9:
                            c.close(float(p.recovery_snr), snr, 'recovery SNR in dB', tol=1e-6)
                        else:
                            c.expect(float(p.recovery_snr) > 150, 'recovery SNR of an exact estimate')
                        if rn > 1e-9:
                            c.close(float(p.measurement_snr), db(np.linalg.norm(y), rn), 'measurement SNR in dB', tol=1e-6)
                            c.close(float(p.h_by_r_norms), hn / rn, 'error by residual', tol=1e-6)
                        nz = np.abs(z[z != 0])
                        if nz.size:
                            c.close(float(p.x_hat_dr), db(nz.max(), nz.min()), 'dynamic range of the estimate', tol=1e-6)
                        c.close(float(p.x_dr), db(np.abs(x[x != 0]).max(), np.abs(x[x != 0]).min()), 'dynamic range of x', tol=1e-6)
                        c.close(float(p.y_dr), db(np.abs(y).max(), np.abs(y).min()), 'dynamic range of y', tol=1e-6)
                        o = np.sort(np.abs(z))[::-1]
                        if o[K - 1] - o[K] > 1e-9:
                            R0 = sorted(np.argsort(-np.abs(z))[:K].tolist())
                            c.expect(np.asarray(p.R0).tolist() == R0, 'K largest entries of the estimate', got=np.asarray(p.R0), want=R0)
                            ov = sorted(set(R0) & set(T0))
                            c.expect(np.asarray(p.overlap).tolist() == ov and int(p.num_correct_atoms) == len(ov), 'correctly found positions')
                            c.close(float(p.support_recovery_ratio), len(ov) / K, 'support recovery ratio', tol=1e-12)
                            c.expect(bool(p.perfect_support_recovery) == (len(ov) == K), 'perfect support recovery')
                            if hn < 1e-9 or abs(snr - 30) > 1e-6:
                                want = len(ov) / K > .75 and (hn < 1e-9 or snr > 30)
                                c.expect(bool(p.success) == want, 'success', got=bool(p.success), want=want)
                        c.close(np.asarray(p.h_T0), h[list(T0)], 'error on the support', tol=1e-9)
                        off = h.copy()
                        off[list(T0)] = 0
                        c.close(np.asarray(p.h_T0C), off, 'error off the support', tol=1e-9)
                        c.expect(np.asarray(p.T0C).tolist() == [i for i in range(N) if i not in T0], 'complement of the support')
                        c.close(np.sort(np.abs(np.asarray(p.h_T1))), np.sort(np.sort(np.abs(off))[::-1][:K]), 'K largest errors off the support', tol=1e-9) if np.count_nonzero(off) >= K else None
                        if n % 17 == 0:
                            s = io.StringIO()
                            with contextlib.redirect_stdout(s):
                                p.print(details=True)
                            c.expect(f'M: {M}, N: {N}, K: {K}' in s.getvalue() and f'success: {p.success}' in s.getvalue(), 'printed report')
                        c.state(z, y)
                        ctx.n_exec += 1


def trials(ctx, D, S, th):
    import jax.numpy as jnp
    import cr.sparse.ef as ef
    scripts = {'all good': lambda i: True, 'all bad': lambda i: False, 'alternating': lambda i: i % 2 == 0, 'first only': lambda i: i == 0}
    Kss = ([1], [2], [1, 3], [3, 1, 2])
    for Ks in Kss:
        for names in (['all good'], ['alternating'], ['all bad', 'first only']) if not th else (['all good'], ['alternating'], ['all bad'], ['first only'], ['first only', 'alternating', 'all good']):
            M, N = 6, 9
            logs = {}
            with ctx.case(f'trials dictionaries={D} signals={S} K={Ks} solvers={names}') as c, tempfile.TemporaryDirectory() as tmp:
                ev = ef.RecoveryTrialsAtFixed_M_N(M=M, N=N, Ks=Ks, num_dict_trials=D, num_signal_trials=S)

                def make(name):
                    log = logs.setdefault(name, [])
                    per = {}

                    def solver(Phi, y, K):
                        P, yy = np.asarray(Phi), np.asarray(y)
                        i = per.setdefault(K, 0)
                        per[K] = i + 1
                        # the signal: exact sparse solution by exhaustive search
                        best = None
                        for T in itertools.combinations(range(N), K):
                            v = np.linalg.lstsq(P[:, T], yy, rcond=None)[0]
                            e = np.linalg.norm(yy - P[:, T] @ v)
                            if best is None or e < best[0]:
                                best = (e, T, v)
                        e, T, v = best
                        log.append((K, P, yy, T, v, e))
                        if not scripts[name](i):
                            v = v * .5
                        return Sparse(x_I=jnp.asarray(v), I=jnp.asarray(T), r=None, iterations=3 + i)
                    return solver
                for nm in names:
                    ev.add_solver(nm, make(nm))
                dest = os.path.join(tmp, 'out.csv')
                with contextlib.redirect_stdout(io.StringIO()):
                    ev(dest)
                rows = list(csv.DictReader(open(dest)))
                c.expect(len(rows) == len(Ks) * len(names) and len(ev.df) == len(rows), 'one row per solver and sparsity level', got=len(rows))
                for j, nm in enumerate(names):
                    for q, K in enumerate(Ks):
                        row = rows[j * len(Ks) + q]
                        good = sum(scripts[nm](i) for i in range(D * S))
                        c.expect(row['method'] == nm and [int(row[k]) for k in 'mnk'] == [M, N, K], 'row identifies the experiment', got=str(row))
                        c.expect(int(row['trials']) == D * S, 'number of trials', got=row['trials'])
                        c.expect(int(row['successes']) == good and int(row['failures']) == D * S - good, 'successes and failures', got=(row['successes'], row['failures']), want=good)
                        c.close(float(row['success_rate']), good / (D * S), 'success rate', tol=1e-9)
                        it = [3 + i for i in range(D * S)]
                        c.close([float(row['min_iters']), float(row['max_iters']), float(row['mean_iters'])], [min(it), max(it), np.mean(it)], 'iteration statistics', tol=1e-9)
                        c.expect(float(row['runtime']) >= 0 and float(row['mean_runtime']) >= 0, 'runtimes')
                        mine = [l for l in logs[nm] if l[0] == K]
                        c.expect(len(mine) == D * S, 'the solver is called once per trial')
                        for d in range(D):
                            for s in range(S):
                                l = mine[d * S + s]
                                c.expect(l[5] < 1e-9 and l[1].shape == (M, N), 'the measurements come from a K-sparse signal')
                                c.close(np.linalg.norm(l[1], axis=0), np.ones(N), 'unit norm atoms', tol=1e-6)
                                c.close(l[1], mine[d * S][1], 'same dictionary for all signals of a dictionary trial', tol=0)
                        ys = [tuple(np.round(l[2], 9)) for l in mine]
                        c.expect(len(set(ys)) == D * S, 'every trial has its own signal', distinct=len(set(ys)), trials=D * S)
                        xs = [(l[3], tuple(np.round(l[4], 7))) for l in mine]
                        c.expect(len(set(xs)) == D * S, 'every trial of every dictionary has its own signal', distinct=len(set(xs)), trials=D * S)
                        c.expect(len({l[1].tobytes() for l in mine}) == D, 'every dictionary trial has its own dictionary')
                first = names[0]
                for nm in names[1:]:
                    c.expect(all(np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2]) for a, b in zip(logs[first], logs[nm])), 'all solvers see the same problems')
                c.state(str(rows))
                ctx.n_exec += D * S * len(Ks) * len(names)


def phase(ctx, N):
    from fractions import Fraction as F
    from cr.sparse.pursuit import phasetransition as pt
    with ctx.case(f'configuration N={N}') as c:
        with contextlib.redirect_stdout(io.StringIO()):
            cf = pt.configuration(N)
        Mmin = 16 if N <= 256 else 32
        ne, nr = N // (2 * Mmin), min(32, N // 4)
        rhos = [F(k, 2 * nr) for k in range(1, nr + 1)]
        Ms = [Mmin * (i + 1) for i in range(ne)]
        c.expect(cf.N == N, 'N')
        c.expect(np.asarray(cf.Ms).tolist() == Ms, 'measurement counts', got=np.asarray(cf.Ms))
        c.close(np.asarray(cf.etas), [m / N for m in Ms], 'undersampling ratios', tol=1e-7)
        c.close(np.asarray(cf.rhos), [float(r) for r in rhos], 'sparsity ratios', tol=1e-7)
        want, seen = [], set()
        for m in Ms:
            for r in rhos:
                K = math.ceil(r * m)
                got = cf.reverse_map.get((float(r), m / N))
                c.expect(got == (K, m), 'grid point leads to its (K, M)', rho=float(r), eta=m / N, got=got, want=(K, m))
                if (K, m) not in seen:
                    seen.add((K, m))
                    want.append((K, m, m / N, float(r)))
        got = [(q.K, q.M, q.eta, q.rho) for q in cf.configurations]
        c.expect(got == want, 'every distinct (K, M) occurs exactly once, with its ratios', got=len(got), want=len(want))
        c.expect(len(cf.reverse_map) == ne * nr, 'size of the map')
        c.expect(all(1 <= q.K <= q.M <= N for q in cf.configurations), 'K <= M <= N')
        c.state(str(got))
        ctx.n_exec += 1
    for bad in (N - 1, N + 1, 16, 8, 3 * N):
        with ctx.case(f'configuration N={bad} refused') as c:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    pt.configuration(bad)
                ok = False
            except AssertionError:
                ok = True
            c.expect(ok, 'sizes other than powers of two from 32 on are refused')


# ---------------------------------------------------------------- trackers

def tracker(ctx, th):
    import cr.sparse as crs
    St1 = namedtuple('St1', 'x_I I r r_norm_sqr iterations')
    St2 = namedtuple('St2', 'x r iterations')
    St3 = namedtuple('St3', 'x r_norm_sqr iterations')
    x0 = np.array([0., 2., 0., -1.])

    def snr(z):
        e, rr = float(np.sum((x0 - z) ** 2)), float(np.sum(x0 ** 2))
        eps = np.finfo(float).eps
        return 10 * math.log10((rr or eps) / (e or eps))
    ests = [np.array(v) for v in itertools.product((0., 2.), (0., -1., .5), (0., 1.))]
    for every in (1, 2, 3, 10):
        for known in (0, 1):
            for L in (1, 2, 5, len(ests)):
                with ctx.case(f'history of {L} states every={every} x0={known}') as c:
                    t = crs.ProgressTracker(x0=x0 if known else None, every=every)
                    out = io.StringIO()
                    want = []
                    with contextlib.redirect_stdout(out):
                        for i in range(L):
                            a, b, d = ests[(i * 5) % len(ests)]
                            z = np.array([0., a, d, b])
                            r = np.array([.5 * i, 1., -2.])
                            s = [St1(np.array([a, b]), np.array([1, 3]), r, float(r @ r), i), St2(z, r, i), St3(z, float(r @ r), i)][i % 3]
                            if i % 3 == 0:
                                z = np.array([0., a, 0., b])
                            t(s, more=i < L - 1)
                            want.append((i, np.linalg.norm(z), np.linalg.norm(r), snr(z)))
                    c.expect(list(t.iterations) == list(range(L)), 'iterations')
                    c.close(t.x_norms, [w[1] for w in want], 'norms of the estimates', tol=1e-12)
                    c.close(t.r_norms, [w[2] for w in want], 'norms of the residuals', tol=1e-12)
                    if known:
                        c.close(t.snrs, [w[3] for w in want], 'SNR', tol=1e-9)
                    else:
                        c.expect(len(t.snrs) == 0, 'no SNR without reference')
                    lines = [l for l in out.getvalue().splitlines() if l.startswith('[')]
                    show = [i for i in range(L) if i % every == 0 or i == L - 1]
                    c.expect([int(l[1:l.index(']')]) for l in lines] == show, 'prints every so many iterations and the last one', got=[l[:4] for l in lines])
                    c.expect(sum('converged' in l for l in out.getvalue().splitlines()) == 1 and f'converged in {L - 1} iterations' in out.getvalue(), 'reports convergence once')
                    c.state(out.getvalue())
                    ctx.n_exec += L
    for cx in (0, 1):
        for e in (1., 1e-4, 1e-8, 1e-10):
            for I in itertools.permutations((1, 3)):
                with ctx.case(f'accurate estimate complex={cx} error={e} I={I}') as c:
                    ref = x0 + (1j * np.array([0., 1., 0., 3.]) if cx else 0)
                    z = ref + e * np.array([0., .5, 0., 1.]) * (1j if cx else 1)
                    t = crs.ProgressTracker(x0=ref)
                    with contextlib.redirect_stdout(io.StringIO()):
                        t(St1(z[list(I)], np.array(I), np.array([0.]), 0., 0), more=True)
                        t(St2(z, np.array([0.]), 1), more=False)
                    w = 10 * math.log10(np.linalg.norm(ref) ** 2 / np.linalg.norm(z - ref) ** 2)
                    c.close(t.snrs, [w, w], 'SNR of an accurate estimate', tol=1e-6)
                    c.close(t.x_norms, [np.linalg.norm(z)] * 2, 'norm of an accurate estimate', tol=1e-9)
                    ctx.n_exec += 2
    St0 = namedtuple('St0', 'r iterations')
    for known in (0, 1):
        with ctx.case(f'state without an estimate x0={known}') as c:
            t = crs.ProgressTracker(x0=x0 if known else None)
            with contextlib.redirect_stdout(io.StringIO()):
                t(St0(np.array([3., 4.]), 0), more=False)
            c.close(t.x_norms, [0.], 'norm of a missing estimate is zero')
            c.close(t.r_norms, [5.], 'norm of the residual')
            if known:
                c.close(t.snrs, [0.], 'SNR of the zero estimate', tol=1e-9)
    for f in ('noop_tracker', 'norm_tracker', 'print_tracker'):
        for more in (True, False):
            with ctx.case(f'{f} more={more}') as c:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    getattr(crs, f)(St2(np.array([3., 4.]), np.array([0., 2.]), 7), more=more)
                txt = out.getvalue()
                if f == 'noop_tracker':
                    c.expect(txt == '', 'silent')
                else:
                    c.expect(('converged in 7' in txt) == (not more), 'convergence is reported at the end only', got=txt)
                    if f == 'norm_tracker':
                        c.expect('[7] x_norm: 5.00e+00, r_norm: 2.00e+00' in txt, 'norms', got=txt)
                ctx.n_exec += 1


def tracked(ctx, alg, th):
    import jax
    import jax.numpy as jnp
    import cr.sparse as crs
    import cr.sparse.lop as lop
    from cr.sparse.pursuit import mp, sp, cosamp
    import cr.sparse.cvx.spgl1 as spgl1
    A = np.random.RandomState(11).randn(10, 16)
    A /= np.linalg.norm(A, axis=0)
    n = 16
    Op = lop.jit(lop.matrix(jnp.asarray(A)))
    for j, S in enumerate(itertools.combinations(range(0, n, 3), 2)):
        for sc in (1., 7.):
            if not th and j % (4 if 'spgl1' in alg else 2) != (sc > 1):
                continue
            x = np.zeros(n)
            x[list(S)] = np.array([1., -2.]) * sc
            y = jnp.asarray(A @ x + .02 * sc * np.random.RandomState(5).randn(10))

            class Keep:
                def __init__(self):
                    self.log = []

                def __call__(self, state, more=False):
                    self.log.append((jax.tree_util.tree_map(np.asarray, state), bool(more)))

            def solve(tr, T):
                kw = {} if tr is None else dict(tracker=tr)
                if alg == 'mp.solve':
                    return mp.solve(Op, y, max_iters=T, **kw)
                if alg == 'mp.matrix_solve':
                    return mp.matrix_solve(jnp.asarray(A), y, max_iters=T, **kw)
                if alg == 'sp.solve':
                    return sp.operator_solve(Op, y, 2, max_iters=T, **kw)
                if alg == 'cosamp.solve':
                    return cosamp.solve(Op, y, 2, max_iters=T, **kw)
                o = spgl1.SPGL1Options(max_iters=T)
                if alg == 'spgl1.lasso':
                    return spgl1.solve_lasso(Op, y, 2. * sc, options=o, **kw)
                if alg == 'spgl1.bpic':
                    return spgl1.solve_bpic(Op, y, .1 * sc, options=o, **kw)
                return spgl1.solve_bp(Op, y, options=o, **kw)
            T = 8
            with ctx.case(f'{alg} support={S} scale={sc}') as c:
                k = Keep()
                s = solve(k, T)
                jax.effects_barrier()
                ref = solve(None, T)
                c.close(dense(s, n), dense(ref, n), 'tracking does not change the result', tol=0)
                log = sorted(k.log, key=lambda e: int(e[0].iterations))
                first = int(log[0][0].iterations)
                c.expect(first <= 1 and [int(e[0].iterations) for e in log] == list(range(first, int(s.iterations) + 1)), 'every iteration is reported once', got=[int(e[0].iterations) for e in log])
                c.expect([e[1] for e in log] == [True] * (len(log) - 1) + [False], 'more iterations follow all reports but the last', got=[e[1] for e in log])
                for st, _ in log:
                    z = dense(st, n)
                    r = np.asarray(y) - A @ z
                    c.close(np.asarray(st.r), r, 'reported residual belongs to the reported estimate', tol=1e-7)
                    if hasattr(st, 'r_norm_sqr'):
                        c.close(float(st.r_norm_sqr), float(r @ r), 'reported squared residual norm', tol=1e-7)
                c.close(dense(log[-1][0], n), dense(s, n), 'the last report is the result', tol=1e-9)
                t = crs.ProgressTracker(x0=x, every=100)
                with contextlib.redirect_stdout(io.StringIO()):
                    solve(t, T)
                    jax.effects_barrier()
                o = np.argsort([int(i) for i in t.iterations])
                c.close([float(t.x_norms[i]) for i in o], [np.linalg.norm(dense(e[0], n)) for e in log], 'tracked norms', tol=1e-7)
                c.close([float(t.r_norms[i]) for i in o], [np.linalg.norm(np.asarray(y) - A @ dense(e[0], n)) for e in log], 'tracked residual norms', tol=1e-7)
                c.close([float(t.snrs[i]) for i in o], [db(np.linalg.norm(x), np.linalg.norm(x - dense(e[0], n))) for e in log], 'tracked SNR', tol=1e-5)
                c.state(dense(s, n).round(8))
                ctx.n_exec += 3


def dense(s, n):
    if hasattr(s, 'x_I'):
        z = np.zeros(n)
        z[np.asarray(s.I)] = np.asarray(s.x_I)
        return z
    return np.asarray(s.x)


# ---------------------------------------------------------------- thresholding, kernels

def th_ref(kind, v, tau):
    a = abs(v)
    if a == 0:
        return 0.
    if kind == 'hard':
        return v if a > math.sqrt(2 * tau) else 0.
    if kind == 'soft':
        return max(a - tau, 0) * v / a
    # half: minimiser of (u-a)^2 + tau sqrt(u) over u >= 0, from the stationary points (t = sqrt(u): 4 t^3 - 4 a t + tau = 0)
    roots = np.roots([4., 0., -4 * a, tau])
    cand = [0.] + [float(t.real) ** 2 for t in roots if abs(t.imag) < 1e-9 and t.real > 0]
    u = min(cand, key=lambda u: (u - a) ** 2 + tau * math.sqrt(u))
    return u * v / a


GAMMA = {'hard': lambda t: math.sqrt(2 * t), 'soft': lambda t: t, 'half': lambda t: 54 ** (1 / 3) / 4 * t ** (2 / 3)}


def threshold(ctx, kind, th):
    import jax.numpy as jnp
    import cr.sparse.geo as geo
    f, fj = getattr(geo, f'{kind}_threshold'), getattr(geo, f'{kind}_threshold_jit')
    vals = [0., .01, .1, .3, .5, .9, 1., 1.3, 2., 3.7, 10., 250.]
    if th:
        vals += list(np.linspace(.02, 6, 120))
    real = np.array([s * v for v in vals for s in (1, -1)])
    cplx = np.array([v * np.exp(1j * a) for v in vals for a in (0., 1., 2.5, math.pi, -.5, -math.pi / 2)])
    for tau in (.01, .125, .3, 1., 2.2, 5.):
        for nm, x in (('real', real), ('complex', cplx), ('integer', np.arange(-6, 7)), ('matrix', real[:24].reshape(4, 6))):
            ok = np.abs(np.abs(x) - GAMMA[kind](tau)) > 1e-9
            want = np.array([th_ref(kind, complex(v) if np.iscomplexobj(x) else float(v), tau) for v in x.ravel()]).reshape(x.shape)
            for g, lab in ((f, ''), (fj, '_jit')):
                with ctx.case(f'{kind}_threshold{lab} {nm} tau={tau}') as c:
                    got = np.asarray(g(jnp.asarray(x), tau))
                    c.expect(got.shape == x.shape, 'shape')
                    c.close(np.where(ok, got, 0), np.where(ok, want, 0), 'minimiser of the thresholding objective', tol=1e-6)
                    c.state(got)
                    ctx.n_exec += 1
    if kind != 'soft':
        gt = getattr(geo, f'gamma_to_tau_{kind}_threshold')
        for gm in (.1, .5, 1., 3.):
            with ctx.case(f'gamma_to_tau_{kind} {gm}') as c:
                t = float(gt(gm))
                c.close(GAMMA[kind](t), gm, 'tau has the desired cut-off', tol=1e-9)
                x = np.array([gm * (1 + 1e-6), -gm * (1 + 1e-6), gm * (1 - 1e-6), -gm * (1 - 1e-6)])
                got = np.asarray(f(jnp.asarray(x), t))
                c.expect(list(got != 0) == [True, True, False, False], 'cut-off', got=got)


def percentile(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.geo as geo
    for n in (3, 4, 5, 8):
        for s in range(6 if not th else 20):
            x = np.random.RandomState(s).randn(n) * 2
            if s % 3 == 2:
                x = x + 1j * np.random.RandomState(s + 50).randn(n)
            for perc in (0, 10, 25, 33, 50, 62.5, 80, 99):
                gm = np.percentile(np.abs(x), perc)
                if np.min(np.abs(np.abs(x) - gm)) < 1e-7:
                    far = np.abs(np.abs(x) - gm) > 1e-7
                else:
                    far = np.ones(n, bool)
                for kind in ('hard', 'soft', 'half'):
                    tau = {'hard': .5 * gm ** 2, 'soft': gm, 'half': (4 / 54 ** (1 / 3) * gm) ** 1.5}[kind]
                    want = np.array([th_ref(kind, v, tau) for v in x])
                    for lab in ('', '_jit'):
                        if lab and (perc not in (25, 50) or n != 5) and not th:
                            continue
                        with ctx.case(f'{kind}_threshold_percentile{lab} n={n} s={s} perc={perc}') as c:
                            got = np.asarray(getattr(geo, f'{kind}_threshold_percentile{lab}')(jnp.asarray(x), perc))
                            c.close(np.where(far, got, 0), np.where(far, want, 0), 'threshold at the percentile of the magnitudes', tol=1e-6)
                            if kind != 'soft':
                                c.expect(np.all((got != 0)[far] == (np.abs(x) > gm)[far]), 'entries above the percentile survive')
                            c.state(got)
                            ctx.n_exec += 1


def kernels(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.vision as vision
    import cr.sparse.geo as geo
    for n in (3, 5, 7, 21):
        with ctx.case(f'box {n}') as c:
            c.close(np.asarray(getattr(vision, f'KERNEL_BOX_{n}X{n}')), np.full((n, n), 1 / n ** 2), 'box average', tol=1e-7)
    with ctx.case('fixed kernels') as c:
        L = np.asarray(vision.KERNEL_LAPLACIAN_3X3)
        c.close(L, [[0, 1, 0], [1, -4, 1], [0, 1, 0]], 'Laplacian', tol=0)
        I = np.zeros((3, 3))
        I[1, 1] = 1
        c.close(np.asarray(vision.KERNEL_SHARPEN_3X3), I - L, 'sharpening adds the negative Laplacian', tol=0)
        c.close(np.asarray(vision.KERNEL_SOBEL_X), np.outer([1, 2, 1], [-1, 0, 1]), 'Sobel x', tol=0)
        c.close(np.asarray(vision.KERNEL_SOBEL_Y), np.asarray(vision.KERNEL_SOBEL_X).T, 'Sobel y', tol=0)
    for size in [1, 2, 3, 4, 5, 9] + list(itertools.product((1, 2, 3, 6), (1, 3, 4, 5))):
        for sg in (.5, 1., 1., 2.3, (1., 2.), (3., .7)):
            with ctx.case(f'gaussian size={size} sigma={sg}') as c:
                k = np.asarray(vision.kernel_gaussian(size, sg))
                h, w = (size, size) if isinstance(size, int) else size
                sx, sy = sg if isinstance(sg, tuple) else (sg, sg)
                yy, xx = np.mgrid[0:h, 0:w]
                g = np.exp(-(xx - (w - 1) / 2) ** 2 / (2 * sx ** 2) - (yy - (h - 1) / 2) ** 2 / (2 * sy ** 2))
                c.close(k, g / g.sum(), 'sampled, normalised Gaussian of the given standard deviation', tol=1e-6)
                c.state(k)
                ctx.n_exec += 1
    for f0 in (1., 5., 10., 25.):
        with ctx.case(f'ricker f0={f0}') as c:
            t = np.linspace(-.3, .3, 61)
            a = (math.pi * f0 * t) ** 2
            c.close(np.asarray(geo.ricker(jnp.asarray(t), f0)), (1 - 2 * a) * np.exp(-a), 'Ricker wavelet', tol=1e-9)
            if f0 == 10.:
                c.close(np.asarray(geo.ricker(jnp.asarray(t))), (1 - 2 * a) * np.exp(-a), 'default frequency', tol=1e-9)
            ctx.n_exec += 1
