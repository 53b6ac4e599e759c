"""Block sparse Bayesian learning and 1-bit recovery follow their models and recover what they promise."""
import contextlib
import io
import itertools
import math
import numpy as np
from mc.core import Task

ID = 'P18'
RULE = ('Explicit-state NumPy models of BSBL-EM, BSBL-BO (with and without pruning) and BIHT/RFP, written from the published iterations, are unrolled for every '
        'budget T of the list and every combination of the options (lambda rule x block correlation x pruning threshold); each state so reached (means, gammas, prior covariances, '
        'lambda, residual, counters) is replayed against the real solver run with that budget. Recovery and final-state facts are checked for every block support '
        '(every set of k blocks) of the listed problems, 1-bit decoding for every sign pattern of the measurements. A state is a distinct (solver, iterate).')
ASSUME = ['steps whose pruning or selection margin is below 1e-7 are not compared', 'BSBL states are compared for at most 4 steps (lambda=1e-3) or 2 steps (lambda=1e-12)',
          'equal sized blocks that tile the signal']

PROBS = {'G6x8b2': (6, 8, 2, 0), 'G6x9b3': (6, 9, 3, 1), 'G5x8b4': (5, 8, 4, 2), 'G4x6b1': (4, 6, 1, 3), 'G6x6b2': (6, 6, 2, 4)}


def mat(m, n, s):
    A = np.random.RandomState(40 + s).randn(m, n)
    return A / np.linalg.norm(A, axis=0)


def tasks(tier):
    th = tier == 'thorough'
    ts = [Task('block layout', 'layout', dict(th=th), cost=10), Task('options', 'opts', {}, cost=10)]
    for alg in ('em', 'bo', 'bo_np'):
        for p in PROBS:
            ts.append(Task(f'steps {alg} {p}', 'steps', dict(alg=alg, p=p, th=th), cost=30))
        for b in (1, 2, 3, 4):
            ts.append(Task(f'recovery {alg} b={b}', 'recovery', dict(alg=alg, b=b, th=th), cost=30))
    for p in ('B6x8', 'B8x6', 'B10x6') + (('B10x12',) if th else ()) + tuple(BX):
        ts.append(Task(f'biht {p}', 'biht', dict(p=p, th=th), cost=30))
    ts.append(Task('biht consistent', 'biht_sparse', dict(th=th), cost=30))
    ts.append(Task('rfp', 'rfp', dict(th=th), cost=40))
    return ts


# ---------------------------------------------------------------- layout, options

def layout(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.block.block as blk
    try:
        from cr.sparse._src.block.util import block_lens_from_start_locs
    except ImportError:      # not a public name
        block_lens_from_start_locs = None
    for n in range(1, 13):
        for b in range(1, n + 1):
            with ctx.case(f'layout n={n} b={b}') as c:
                s, e = np.asarray(blk.start_locations(n, b)), np.asarray(blk.end_locations(n, b))
                want = [i * b for i in range(n // b)]
                c.expect(s.tolist() == want, 'start of every block', got=s)
                c.expect(e.tolist() == [i + b - 1 for i in want], 'end of every block', got=e)
                c.state(s, e)
                ctx.n_exec += 2
    for n in range(1, 9) if block_lens_from_start_locs else ():
        for k in range(1, n + 1):
            for st in itertools.combinations(range(1, n), k - 1):
                st = (0,) + st
                with ctx.case(f'lens n={n} starts={st}') as c:
                    got = np.asarray(block_lens_from_start_locs(jnp.array(st), n))
                    c.expect(got.tolist() == np.diff(st + (n,)).tolist(), 'length of every block', got=got)
                    ctx.n_exec += 1


def opts(ctx):
    import jax.numpy as jnp
    import cr.sparse.block.bsbl as B
    y = np.array([1., -2., 4., 0.5])
    over = dict(learn_block_corr=0, prune_gamma=0.125, lambda_val=0.25, max_iters=7, epsilon=0.5)
    with ctx.case('default options') as c:
        o = B.BSBL_Options()
        c.expect((o.learn_block_corr, o.learn_lambda, o.prune_gamma, o.lambda_val, o.max_iters, o.epsilon) == (1, 1, 1e-3, 1e-12, 800, 1e-8), 'documented defaults', got=str(o))
    for name, f, iters in (('em', B.bsbl_em_options, 800), ('bo', B.bsbl_bo_options, 300)):
        for yy in (None, y):
            sc = 1. if yy is None or name == 'em' else y.std()
            for ll in (None, 0, 1, 2):
                for keys in itertools.chain.from_iterable(itertools.combinations(sorted(over), r) for r in range(6)):
                    with ctx.case(f'{name} options y={yy is not None} learn_lambda={ll} set={",".join(keys)}') as c:
                        kw = {k: over[k] for k in keys}
                        if ll is not None:
                            kw['learn_lambda'] = ll
                        o = f(None if yy is None else jnp.asarray(yy), **kw)
                        L = 1 if ll is None else ll
                        lam = 1e-12 if L == 0 else (1e-3 if name == 'em' else sc * 1e-2)
                        want = dict(learn_block_corr=1, learn_lambda=L, prune_gamma=1e-3 if L == 0 else 1e-2, lambda_val=lam, max_iters=iters, epsilon=1e-8)
                        want.update({k: over[k] for k in keys})
                        for k, v in want.items():
                            c.close(float(getattr(o, k)), float(v), f'option {k}', tol=1e-15)
                        ctx.n_exec += 1


# ---------------------------------------------------------------- BSBL model

def sym_root(B):
    w, v = np.linalg.eigh(B)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def model(Phi, y, b, alg, ll, corr, prune, lam, T, eps=1e-8):
    """yields the state after 0, 1, 2, ... iterations; None when a comparison is not meaningful"""
    m, n = Phi.shape
    nb = n // b
    mu = np.zeros((nb, b))
    g = np.ones(nb)
    S0 = np.stack([np.eye(b)] * nb)
    st = dict(mu=mu, r=y, g=g, S0=S0, lam=lam, dmu=1., it=0)
    yield st
    for t in range(T):
        if not st['dmu'] > eps:
            return
        if abs(st['dmu'] - eps) < 1e-7 * eps:
            return
        g, S0, lam = st['g'], st['S0'], st['lam']
        if alg == 'bo_np':
            act = np.ones(nb, bool)
        else:
            if np.any(np.abs(g - prune) < 1e-7):
                return
            act = g > prune
        full = np.zeros((n, n))
        for i in range(nb):
            if act[i]:
                full[i * b:(i + 1) * b, i * b:(i + 1) * b] = S0[i]
        Sy = Phi @ full @ Phi.T + lam * np.eye(m)
        if np.linalg.cond(Sy) > 1e9:
            return
        H = np.linalg.solve(Sy, Phi).T
        x = full @ H @ y
        SX = full - full @ H @ Phi @ full
        mu = x.reshape(nb, b)
        Sx = np.stack([SX[i * b:(i + 1) * b, i * b:(i + 1) * b] for i in range(nb)])
        C = Sx + mu[:, :, None] * mu[:, None, :]
        pos = act & (g > 0)
        B0 = sum((C[i] / g[i] for i in range(nb) if pos[i]), np.zeros((b, b)))
        if b > 1 and corr:
            d0, d1 = np.mean(np.diag(B0)), np.mean(np.diag(B0, 1))
            if not d0 > 1e-12:
                return
            r = float(np.clip(d1 / d0, -.99, .99))
        else:
            r = 0.
        B = np.array([[r ** abs(i - j) if i != j else 1. for j in range(b)] for i in range(b)])
        Bi = np.linalg.inv(B)
        res = y - Phi @ x
        r2 = float(res @ res)
        if ll == 0:
            nl = lam
        elif ll == 1:
            nl = (r2 + sum(np.trace(Phi[:, i * b:(i + 1) * b] @ Sx[i] @ Phi[:, i * b:(i + 1) * b].T) for i in range(nb))) / m
        else:
            # gammas of the previous step decide what is active
            nl = (r2 + lam * sum(b - np.trace(Sx[i] @ Bi) / g[i] for i in range(nb) if g[i] > 0)) / m
            nl = max(nl, 0.)
        if alg == 'em':
            ng = np.array([np.trace(Bi @ C[i]) / b if act[i] else 0. for i in range(nb)])
        else:
            Bh = sym_root(B)
            Hy = (H @ y).reshape(nb, b)
            HP = H @ Phi
            ng = np.array([g[i] * np.linalg.norm(Bh @ Hy[i]) / math.sqrt(np.trace(HP[i * b:(i + 1) * b, i * b:(i + 1) * b] @ B)) if act[i] else 0. for i in range(nb)])
        st = dict(mu=mu, r=res, g=ng, S0=ng[:, None, None] * B, lam=nl, dmu=float(np.max(np.abs(mu - st['mu']))), it=t + 1)
        yield st


def fn(alg, jit=True):
    import cr.sparse.block.bsbl as B
    return getattr(B, f'bsbl_{alg}_jit' if jit else f'bsbl_{alg}')


def data(Phi, b, extra):
    """block sparse signals (all single blocks and all pairs of blocks) and generic measurements"""
    m, n = Phi.shape
    nb = n // b
    g = np.random.RandomState(7)
    out = [('zero', np.zeros(m))]
    for k in (1, 2):
        for S in itertools.combinations(range(nb), k):
            x = np.zeros((nb, b))
            x[list(S)] = g.randn(k, b) if k == 1 else 1 + .3 * g.randn(k, b)
            out.append((f'blocks {S}', Phi @ x.ravel()))
    for i in range(extra):
        out.append((f'generic {i}', g.randn(m)))
    return out


def steps(ctx, alg, p, th):
    import jax.numpy as jnp
    import cr.sparse.block.bsbl as B
    m, n, b, s = PROBS[p]
    Phi = mat(m, n, s)
    J = fn(alg)
    ys = data(Phi, b, 3 if not th else 12)
    for ll, corr, prune, lam in itertools.product((0, 1, 2), (0, 1), (1e-3, 0.3), (1e-12, 1e-3, 0.2)):
        if alg == 'bo_np' and prune != 1e-3:
            continue
        T = 2 if lam < 1e-6 else 4
        for lab, y in ys:
            tag = f'{alg} {p} lambda-rule={ll} corr={corr} prune={prune} lambda={lam} {lab}'
            for st in model(Phi, y, b, alg, ll, corr, prune, lam, T):
                with ctx.case(f'{tag} T={st["it"]}') as c:
                    o = B.BSBL_Options(learn_block_corr=corr, learn_lambda=ll, prune_gamma=prune, lambda_val=lam, max_iters=st['it'], epsilon=1e-8)
                    sol = J(Phi, y, b, o)
                    tol = 1e-5
                    c.expect(int(sol.iterations) == st['it'], 'iteration count', got=int(sol.iterations))
                    c.close(np.asarray(sol.mu_x), st['mu'], 'posterior means', tol=tol)
                    c.close(np.asarray(sol.x), st['mu'].ravel(), 'solution vector is the concatenation of the block means', tol=tol)
                    c.close(np.asarray(sol.r), st['r'], 'residual', tol=tol)
                    c.close(float(sol.r_norm_sqr), float(st['r'] @ st['r']), 'squared residual norm', tol=tol)
                    c.close(np.asarray(sol.gammas), st['g'], 'gammas', tol=tol)
                    c.close(np.asarray(sol.Sigma0), st['S0'], 'prior covariances', tol=tol)
                    c.close(float(sol.lambda_val), st['lam'], 'noise variance', tol=1e-6)
                    c.close(float(sol.dmu), st['dmu'], 'change of the means', tol=tol)
                    c.state(np.asarray(sol.mu_x).round(7), np.asarray(sol.gammas).round(7))
                    ctx.n_exec += 1
                if c.failed:
                    break
    # the uncompiled version and the printed summary
    y = ys[1][1]
    for ll in (0, 1, 2):
        with ctx.case(f'{alg} {p} uncompiled lambda-rule={ll}') as c:
            o = B.BSBL_Options(learn_lambda=ll, lambda_val=1e-3, max_iters=3)
            a, d = fn(alg, False)(jnp.asarray(Phi), jnp.asarray(y), b, o), J(Phi, y, b, o)
            for q in ('mu_x', 'r', 'gammas', 'Sigma0', 'lambda_val', 'dmu', 'iterations'):
                c.close(np.asarray(getattr(a, q)), np.asarray(getattr(d, q)), f'same {q} as the compiled version', tol=1e-7)
            txt = str(d)
            c.expect('iterations=3' in txt and f'block size={b}' in txt and f'blocks={n // b}, nonzero={int(np.sum(np.asarray(d.gammas) > 0))}' in txt
                     and 'r_norm=%.2e' % math.sqrt(float(d.r_norm_sqr)) in txt and 'x_norm=%.2e' % np.linalg.norm(d.x) in txt and 'lambda=%.2e' % float(d.lambda_val) in txt, 'summary', got=txt)
            ctx.n_exec += 2


def recovery(ctx, alg, b, th):
    import jax.numpy as jnp
    import cr.sparse.block.bsbl as B
    J = fn(alg)
    of = B.bsbl_em_options if alg == 'em' else B.bsbl_bo_options
    nb = {1: 16, 2: 10, 3: 7, 4: 6}[b]
    for k in (1, 2):
        m = {1: 12, 2: 18}[k] if b > 1 else 14
        Phi = mat(m, nb * b, 20 + b)
        for S in itertools.combinations(range(nb), k):
            for kind in (0, 1, 2):
                g = np.random.RandomState(sum(S) * 10 + kind)
                x = np.zeros((nb, b))
                if kind == 0:
                    x[list(S)] = g.choice([-1., 1.], (k, b)) * (.75 + .5 * g.rand(k, b))
                elif kind == 1:
                    x[list(S)] = g.choice([-1., 1.], (k, 1)) * (1 + .05 * g.randn(k, b))
                else:
                    x[list(S)] = 30 * g.choice([-1., 1.], (k, b)) * (.75 + .5 * g.rand(k, b))
                x = x.ravel()
                y = Phi @ x
                for ll, corr in ((0, 1), (0, 0)) + (((1, 1),) if k == 1 and kind < 2 and alg == 'bo' else ()):
                    with ctx.case(f'{alg} b={b} blocks={S} kind={kind} lambda-rule={ll} corr={corr}') as c:
                        o = of(jnp.asarray(y), learn_lambda=ll, learn_block_corr=corr)
                        sol = J(Phi, y, b, o)
                        z = np.asarray(sol.x)
                        c.expect(np.all(np.isfinite(z)), 'finite')
                        c.close(z, x, 'the block sparse signal is recovered from noiseless measurements', tol=1e-5 * max(1, np.abs(x).max()) if ll == 0 else 1e-3)
                        c.close(np.asarray(sol.r), y - Phi @ z, 'residual', tol=1e-8)
                        c.close(float(sol.r_norm_sqr), float(np.sum((y - Phi @ z) ** 2)), 'squared residual norm', tol=1e-8)
                        c.expect(int(sol.iterations) <= int(o.max_iters), 'budget')
                        c.expect(float(sol.dmu) <= float(o.epsilon) or int(sol.iterations) == int(o.max_iters), 'stops because it converged or because the budget is used up')
                        G = np.asarray(sol.gammas)
                        if alg != 'bo_np':
                            on = np.flatnonzero(G > 0)
                            c.expect(set(np.flatnonzero(np.abs(z.reshape(nb, b)).max(1) > 1e-3)) == set(S), 'active blocks', got=on)
                        c.state(z.round(6))
                        ctx.n_exec += 1


# ---------------------------------------------------------------- 1-bit

BP = {'B6x8': (6, 8, 0), 'B8x6': (8, 6, 1), 'B10x6': (10, 6, 2), 'B10x12': (10, 12, 3)}
# small integer matrices with dyadic step sizes: all arithmetic is exact, so that measurements of zero are decided
BX = {'X5x3': [[1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 0, 1], [1, -1, 2]],
      'X6x4': [[1, 0, 0, 2], [0, 1, 0, 0], [1, 2, 0, 0], [0, 0, 1, -1], [1, -1, 3, 0], [0, 2, -1, 1]],
      'X4x4': [[2, 0, 1, 0], [0, 1, 0, 3], [0, 0, 1, 0], [1, -1, 0, 2]]}


def m_biht(Phi, y, K, tau, T, exact=False):
    """state after at most T steps (support as a set); None on a selection tie or a measurement of 0"""
    n = Phi.shape[1]
    x = np.zeros(n)
    r = y - np.sign(Phi @ x)
    it = 0
    yield x, r, it
    while np.any(r != 0) and it < T:
        x = x + tau / 2 * (Phi.T @ r)
        o = np.argsort(-np.abs(x), kind='stable')
        if K < n and abs(abs(x[o[K - 1]]) - abs(x[o[K]])) < 1e-9:
            return
        x2 = np.zeros(n)
        x2[o[:K]] = x[o[:K]]
        x = x2
        u = Phi @ x
        if not exact and np.any(np.abs(u) < 1e-9):
            return
        r = y - np.sign(u)
        it += 1
        yield x, r, it


def dense(sol, n):
    x = np.zeros(n)
    x[np.asarray(sol.I)] = np.asarray(sol.x_I)
    return x


def biht(ctx, p, th):
    import cr.sparse.cs.cs1bit as c1
    exact = p in BX
    if exact:
        Phi = np.array(BX[p], dtype=float)
        m, n = Phi.shape
    else:
        m, n, s = BP[p]
        Phi = np.random.RandomState(60 + s).randn(m, n)
    with ctx.case(f'{p} measure') as c:
        for x in itertools.product((-1., 0., 2.), repeat=min(n, 6)):
            x = np.array(list(x) + [0.] * (n - len(x)))
            c.close(np.asarray(c1.measure_1bit(Phi, x)), np.sign(Phi @ x), 'measurements are signs', tol=0)
            ctx.n_exec += 1
    for K in (1, 2, 3):
        for tau in (1., 0.25) if exact else (1., 0.3):
            for yb in itertools.product((-1., 0., 1.) if exact else (-1., 1.), repeat=m):
                if m > 8 and not th and (yb[0] > 0 or yb[1] > 0):
                    continue
                y = np.array(yb)
                tag = f'biht {p} K={K} tau={tau} y={"".join("0+-"[int(v)] for v in yb)}'
                with ctx.case(tag) as c:
                    for x, r, it in m_biht(Phi, y, K, tau, 6 if not th else 15, exact):
                        if it in (1, 2, 3, 6, 10, 15) or (it and not np.any(r)):
                            sol = c1.biht_jit(Phi, y, K, tau, max_iters=it)
                            c.expect(int(sol.iterations) == it, 'iteration count', got=int(sol.iterations), want=it)
                            c.close(dense(sol, n), x, f'iterate {it}', tol=1e-9)
                            c.close(np.asarray(sol.r), r, f'residual {it}', tol=0)
                            c.expect(int(sol.n_mismatched_bits) == int(np.sum(r != 0)), 'number of mismatched bits')
                            c.expect(len(set(np.asarray(sol.I).tolist())) == K, 'K distinct positions')
                            c.state(x.round(8))
                            ctx.n_exec += 1
                        if it and not np.any(r):
                            sol = c1.biht_jit(Phi, y, K, tau, max_iters=it + 5)
                            c.expect(int(sol.iterations) == it, 'stops as soon as all bits agree', got=int(sol.iterations), want=it)
                            ctx.n_exec += 1


def biht_sparse(ctx, th):
    """decoding the measurements of every K-sparse signal with enough measurements"""
    import cr.sparse.cs.cs1bit as c1
    import jax.numpy as jnp
    for m, n, K in ((80, 10, 1), (120, 8, 2)):
        Phi = np.random.RandomState(m).randn(m, n)
        tau = 1.0 / m
        for S in itertools.combinations(range(n), K):
            for sg in itertools.product((-1., 1.), repeat=K):
                x = np.zeros(n)
                x[list(S)] = np.array(sg) * (1. + .4 * np.arange(K))
                x /= np.linalg.norm(x)
                y = np.asarray(c1.measure_1bit(Phi, x))
                with ctx.case(f'biht m={m} n={n} support={S} signs={sg}') as c:
                    sol = c1.biht_jit(Phi, y, K, tau)
                    z = dense(sol, n)
                    c.expect(set(np.flatnonzero(z)) == set(S), 'support')
                    c.expect(np.linalg.norm(z / np.linalg.norm(z) - x) < 0.2, 'direction', err=float(np.linalg.norm(z / np.linalg.norm(z) - x)))
                    mis = int(np.sum(np.sign(Phi @ z) != y))
                    c.expect(int(sol.n_mismatched_bits) == mis, 'number of mismatched bits', got=int(sol.n_mismatched_bits), want=mis)
                    c.expect(int(sol.iterations) <= 1000 and (mis == 0 or int(sol.iterations) == 1000), 'stops when consistent or out of budget')
                    c.close(np.asarray(sol.r), y - np.sign(Phi @ z), 'residual', tol=0)
                    if sg == (1.,) * K and S[0] == 0:
                        u = c1.biht(jnp.asarray(Phi), jnp.asarray(y), K, tau)
                        c.close(dense(u, n), z, 'uncompiled version', tol=1e-9)
                    c.state(z.round(8))
                    ctx.n_exec += 1


def rfp(ctx, th):
    import jax.numpy as jnp
    import cr.sparse.cs.cs1bit as c1
    for m, n, s in ((12, 6, 0), (20, 8, 1), (10, 10, 2)):
        Phi = np.random.RandomState(80 + s).randn(m, n) / math.sqrt(m)
        with ctx.case(f'rfp guesses {m}x{n}') as c:
            g0 = np.asarray(c1.rfp_random_guess(Phi))
            c.close(np.linalg.norm(g0), 1., 'random guess has unit norm', tol=1e-6)
            c.expect(g0.shape == (n,), 'shape')
        for k in range(4 if not th else 12):
            g = np.random.RandomState(k)
            x = np.zeros(n)
            x[g.choice(n, 2, replace=False)] = g.choice([-1., 1.], 2) * (1 + g.rand(2))
            y = np.sign(Phi @ x)
            with ctx.case(f'rfp {m}x{n} signal {k}') as c:
                x0 = np.asarray(c1.rfp_lsqr_guess(Phi, y))
                w = np.linalg.lstsq(Phi, y, rcond=None)[0]
                c.close(x0, w / np.linalg.norm(w), 'least squares guess', tol=1e-6)
                for lam, delta in ((1., .1), (10., .1), (5., .5), (50., 1.)):
                    for inner, outer in ((1, 1), (2, 1), (3, 1), (1, 3), (2, 4)):
                        z, zp, L = x0, np.zeros(n), lam
                        ok = True
                        for o in range(outer):
                            for i in range(inner):
                                u = y * (Phi @ z)
                                fb = Phi.T @ (y * np.minimum(u, 0))
                                h = z - delta * (fb - (fb @ z) * z)
                                v = np.sign(h) * np.maximum(np.abs(h) - delta / L, 0)
                                if not np.any(v):
                                    ok = False
                                    break
                                zp, z = z, v / np.linalg.norm(v)
                            L *= 1.5
                        if not ok:
                            continue
                        with contextlib.redirect_stdout(io.StringIO()):
                            sol = c1.rfp(jnp.asarray(Phi), jnp.asarray(y), jnp.asarray(x0), lambda_=lam, delta=delta, inner_iters=inner, outer_iters=outer)
                        c.close(np.asarray(sol.x), z, f'renormalised fixed point iterate lambda={lam} delta={delta} {outer}x{inner}', tol=1e-7)
                        if not (outer > 1 and inner == 1):
                            c.close(np.asarray(sol.x_prev), zp, 'previous iterate', tol=1e-7)
                        c.expect(int(sol.iterations) == inner, 'inner iterations')
                        c.close(np.linalg.norm(sol.x), 1., 'unit norm', tol=1e-7)
                        c.state(z.round(7))
                        ctx.n_exec += 1
