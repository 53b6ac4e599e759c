"""Iterative linear solvers (CG, preconditioned CG, LSQR, power iterations) take the steps their theory prescribes."""
import itertools
import numpy as np
from mc.core import Task
from mc.opcat import gen, genm

ID = 'P11'
RULE = ('For every listed matrix (SPD, scaled, tall, square, wide, rank deficient; real and, for LSQR, complex), start vector, damping, preconditioner and every '
        'iteration budget T from 0/1 to n+2: every right-hand side of a set (all signed basis vectors, generic, eigenvectors, zero) is solved by the real code; the '
        'returned iterate is compared with the Krylov-optimal iterate after the reported number of steps, computed by dense projection (model '
        'state), and the reported norms with the actual ones. A state is a distinct iterate.')
ASSUME = ['double precision, condition numbers below 1e4', 'preconditioned CG and LSQR count their initialisation as an iteration (budget T allows T-1 updates)']


def spd(n, s, kind):
    B = genm(n, n, s)
    Q = np.linalg.qr(B)[0]
    e = {'gen': np.linspace(1, 5, n), 'id': np.ones(n), 'two': np.r_[np.ones(n // 2), 7 * np.ones(n - n // 2)], 'wide': 10. ** np.linspace(-1, 1.5, n),
         'diag': np.linspace(1, 3, n)}[kind]
    if kind in ('id', 'diag'):
        return np.diag(e)
    A = Q @ np.diag(e) @ Q.T
    return (A + A.T) / 2


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for kind in ('gen', 'id', 'two', 'wide', 'diag'):
        for n in ((1, 2, 4, 6) if th else (2, 5)):
            ts.append(Task(f'cg {kind} n={n}', 'cg', dict(kind=kind, n=n, th=th), cost=n))
            ts.append(Task(f'pcg {kind} n={n}', 'pcg', dict(kind=kind, n=n, th=th), cost=2 * n))
            ts.append(Task(f'pcg stop {kind} n={n}', 'pcg_stop', dict(kind=kind, n=n, th=th), cost=2 * n))
    for sh in ((4, 4), (6, 3), (3, 5), (5, 2)):
        ts.append(Task(f'lsqr stop {sh}', 'lsqr_stop', dict(sh=sh, th=th), cost=4))
    for sh in ((4, 4), (6, 3), (3, 6), (5, 5), (1, 3), (3, 1), (5, 2)):
        for cplx in (False, True):
            if cplx and sh not in ((4, 4), (5, 2)) and not th:
                continue
            for rank in ('full', 'def'):
                if rank == 'def' and min(sh) < 2:
                    continue
                ts.append(Task(f'lsqr {sh} cplx={cplx} rank={rank}', 'lsqr', dict(sh=sh, cplx=cplx, rank=rank, th=th), cost=4))
    ts.append(Task('power', 'power', dict(th=th), cost=3))
    ts.append(Task('power stop', 'power_stop', dict(th=th), cost=3))
    ts.append(Task('f32', 'f32', {}, x64=False, cost=2))
    return ts


def rhs(m, th, cplx=False):
    R = [(f'{"+" if s > 0 else "-"}e{i}', s * np.eye(m)[i]) for i in range(m) for s in (1., -1.)]
    R += [(f'gen{i}', gen(m, 900 + i)) for i in range(4 if not th else 12)] + [('ones', np.ones(m)), ('big', 1e3 * gen(m, 950)), ('small', 1e-3 * gen(m, 951))]
    if cplx:
        R = [(l, b * np.exp(1j * np.arange(m))) for l, b in R]
    return R


def krylov(M, r, k):
    """orthonormal basis of span{r, M r, ..., M^{k-1} r}"""
    Q = []
    v = r.astype(complex) if np.iscomplexobj(M) or np.iscomplexobj(r) else r.astype(float)
    nr = np.linalg.norm(r)
    for _ in range(k):
        for _ in range(2):
            for q in Q:
                v = v - q * np.vdot(q, v)
        nv = np.linalg.norm(v)
        if nv <= 1e-11 * max(1., np.linalg.norm(M)) * (1 if Q else nr) or nv == 0:
            break
        v = v / nv
        Q.append(v)
        v = M @ v
    return np.array(Q).T if Q else np.zeros((len(r), 0))


def cg_ref(A, b, x0, k, M=None):
    """argmin of the A-norm of the error over x0 + K_k(M A, M r0)"""
    M = np.eye(len(b)) if M is None else M
    r = b - A @ x0
    Q = krylov(M @ A, M @ r, k)
    if Q.shape[1] == 0:
        return x0
    return x0 + Q @ np.linalg.solve(Q.T @ A @ Q, Q.T @ r)


def cg(ctx, kind, n, th):
    import cr.sparse.opt  # noqa
    from cr.sparse.opt import cg as mod
    A = spd(n, 31, kind)
    for x0l, x0 in (('0', np.zeros(n)), ('g', gen(n, 77))):
        for T in [None] + list(range(0, n + 3)):
            for rtol in ((1e-10,) if T is not None else (1e-10, 1e-2, None)):
                kw = {} if rtol is None else dict(res_norm_rtol=rtol)
                if T is not None:
                    kw['max_iters'] = T
                for bl, b in rhs(n, th):
                    with ctx.case(f'cg {kind} n={n} x0={x0l} T={T} rtol={rtol} b={bl}') as c:
                        ss = [mod.solve_from_jit(A, b, x0, **kw)]
                        if x0l == '0' and bl in ('+e0', 'gen0', 'ones'):
                            ss += [mod.solve(A, b, **kw), mod.solve_jit(A, b, **kw)]
                        for s in ss:
                            x, r, k = np.asarray(s.x), np.asarray(s.r), int(s.iterations)
                            ctx.execs()
                            c.state(kind, k, x)
                            sc = np.linalg.norm(b) + np.linalg.norm(A @ x0)
                            c.expect(k <= (n if T is None else T), 'iterations within budget', k=k)
                            c.close(x, cg_ref(A, b, x0, k), 'iterate minimises the A-norm of the error over its Krylov space', tol=1e-6 * sc, rtol=1e-6)
                            c.close(r, b - A @ x, 'residual', tol=1e-8 * sc)
                            c.close(float(s.r_norm_sqr), np.sum((b - A @ x) ** 2), 'residual norm', tol=1e-8 * sc * sc)
                            rt = 1e-4 if rtol is None else rtol
                            if k < (n if T is None else T):
                                c.expect(np.linalg.norm(b - A @ x) <= rt * np.linalg.norm(b) * (1 + 1e-6) + 1e-12 * sc, 'stops early only once the tolerance is met')
                            if k > 0 and rt >= 1e-4:
                                xp = cg_ref(A, b, x0, k - 1)
                                c.expect(np.linalg.norm(b - A @ xp) >= rt * np.linalg.norm(b) * (1 - 1e-6) - 1e-12 * sc, 'stops as soon as the tolerance is met')
    with ctx.case(f'cg {kind} n={n} b=0') as c:
        s = mod.solve_from_jit(A, np.zeros(n), np.zeros(n))
        c.close(s.x, np.zeros(n), 'zero right-hand side')


def pcg(ctx, kind, n, th):
    from cr.sparse.opt import pcg as mod
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    A = spd(n, 31, kind)
    Aj = jnp.asarray(A)
    op = lambda v: Aj @ v
    d = 1. / np.diag(A)
    dj = jnp.asarray(d)
    P = spd(n, 55, 'gen')
    Pj = jnp.asarray(P)
    for Ml, Mf, M in (('I', None, None), ('jacobi', (lambda v: dj * v), np.diag(d)), ('spd', (lambda v: Pj @ v), P)):
        for T in ([1, 2, n, n + 1, n + 2] if not th else range(1, n + 3)):
            kw = dict(tol=1e-10, max_iters=int(T))
            if Mf is not None:
                kw['M'] = Mf
            for x0l, x0 in (('0', np.zeros(n)), ('g', gen(n, 77))):
                for bl, b in rhs(n, th):
                    with ctx.case(f'pcg {kind} n={n} M={Ml} x0={x0l} T={T} b={bl}') as c:
                        if x0l == '0' and bl == 'gen0':
                            s = mod.solve(op, jnp.asarray(b), **kw)
                        else:
                            s = mod.solve_from_jit(op, jnp.asarray(b), jnp.asarray(x0), **kw)
                        ctx.execs()
                        x, r, k = np.asarray(s.x), np.asarray(s.r), int(s.iterations)
                        sc = np.linalg.norm(b) + np.linalg.norm(A @ x0)
                        c.state(kind, Ml, k, x)
                        c.expect(k <= T, 'iterations within budget', k=k)
                        c.close(x, cg_ref(A, b, x0, k - 1, M), 'iterate minimises the A-norm of the error over its Krylov space', tol=1e-6 * sc, rtol=1e-6)
                        c.close(r, b - A @ x, 'residual', tol=1e-8 * sc)
                        if k < T:
                            c.expect(np.linalg.norm(b - A @ x) <= 1e-9 * np.linalg.norm(b) + 1e-11 * sc, 'stops early only once the tolerance is met')
    with ctx.case(f'pcg {kind} n={n} default tolerance') as c:
        for bl, b in rhs(n, th):
            s = mod.solve_from_jit(op, jnp.asarray(b), jnp.asarray(0 * b), max_iters=100)
            ctx.execs()
            c.expect(np.linalg.norm(b - A @ np.asarray(s.x)) <= 1e-4 * np.linalg.norm(b) * 1.001, 'default tolerance is met')
            s = mod.solve_from_jit(op, jnp.asarray(b), jnp.asarray(0 * b), max_iters=100, tol=1e-12, atol=float(0.05 * np.linalg.norm(b)))
            k = int(s.iterations)
            c.expect(np.linalg.norm(b - A @ np.asarray(s.x)) <= 0.05 * np.linalg.norm(b) * 1.001, 'absolute tolerance is met')
            c.close(s.x, cg_ref(A, b, 0 * b, k - 1), 'iterate with absolute tolerance', tol=1e-6 * np.linalg.norm(b), rtol=1e-6)


def pcg_stop(ctx, kind, n, th):
    """preconditioned conjugate gradients stop at the first iterate with |r| <= max(tol |b|, atol)"""
    from cr.sparse.opt import pcg as mod
    import jax.numpy as jnp
    A = spd(n, 31, kind)
    Aj = jnp.asarray(A)
    op = lambda v: Aj @ v
    d = 10. / np.diag(A)
    dj = jnp.asarray(d)
    P = spd(n, 55, 'gen') * 0.01
    Pj = jnp.asarray(P)
    for Ml, Mf, M in (('I', None, None), ('jacobi', (lambda v: dj * v), np.diag(d)), ('spd', (lambda v: Pj @ v), P)):
        for tol, at in ((1e-2, 0.), (0.3, 0.), (1e-3, 0.2), (0.2, 1e-3), (1e-6, 0.05)):
            for sc in (1e-4, 1., 1e4):
                kw = dict(tol=tol, max_iters=n + 3)
                if Mf is not None:
                    kw['M'] = Mf
                for bl, b in rhs(n, th):
                    b = b * sc
                    nb = np.linalg.norm(b)
                    thr = max(tol * nb, at * sc)
                    for x0l, x0 in (('0', 0 * b), ('g', sc * gen(n, 77))):
                        res = [np.linalg.norm(b - A @ cg_ref(A, b, x0, k, M)) for k in range(n + 2)]
                        if any(abs(r - thr) < 1e-5 * thr for r in res) or thr < 1e-7 * np.linalg.norm(A @ x0):
                            continue
                        want = next((k for k, r in enumerate(res) if r <= thr), n + 2)
                        with ctx.case(f'pcg stop {kind} n={n} M={Ml} tol={tol} atol={at} scale={sc} x0={x0l} b={bl}') as c:
                            s = mod.solve_from_jit(op, jnp.asarray(b), jnp.asarray(x0), atol=at * sc, **kw)
                            ctx.execs()
                            c.expect(int(s.iterations) == want + 1, 'stops at the first iterate within the tolerance', got=int(s.iterations), want=want + 1)
                            c.state(kind, Ml, want, np.asarray(s.x) / sc)


def lsqr_stop(ctx, sh, th):
    """the stopping rules of LSQR, and its estimates of norm and condition against an independent implementation"""
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    import jax.numpy as jnp
    import scipy.sparse.linalg as ssl
    m, n = sh
    k0 = min(m, n)
    A = np.linalg.qr(genm(m, m, 3))[0][:, :k0] @ np.diag(np.linspace(1, 4, k0)) @ np.linalg.qr(genm(n, n, 4))[0][:, :k0].T
    op = lop.matrix(jnp.asarray(A))
    for damp in (0, 0.5):
        for bl, b in rhs(m, th):
            nb, g0 = np.linalg.norm(b), np.linalg.norm(A.T @ b)
            if g0 < 1e-9 * nb:
                continue
            hist = [(1., 1., 0., 0., 1.)]          # r, atr (relative), A_norm, x_norm, A_cond
            with ctx.case(f'lsqr estimates {sh} damp={damp} b={bl}') as c:
                for k in range(1, k0 + 1):
                    t = ssl.lsqr(A, b, damp=damp, atol=0, btol=0, conlim=0, iter_lim=k)
                    s = sls.lsqr_jit(op, jnp.asarray(b), jnp.zeros(n), damp, 1e-12, 1e-12, 1e12, k + 1)
                    ctx.execs()
                    if int(s.iterations) != k + 1 or t[2] != k:
                        break
                    hist.append((t[4] / nb, t[7] / g0, t[5], t[8], t[6]))
                    c.close(float(s.A_norm), t[5], 'norm estimate', 1e-7, k=k)
                    c.close(float(s.A_cond), t[6], 'condition estimate', 1e-6, rtol=1e-6, k=k)
                    if t[4] < 1e-6 * nb or t[7] < 1e-6 * g0:
                        break
                c.state(k, damp)
            for atol, btol, conlim in ((1e-2, 1e-2, 1e8), (0.3, 1e-6, 1e8), (1e-6, 0.3, 1e8), (1e-2, 1e-8, 3.), (1e-8, 1e-8, 6.)):
                want = None
                amb = False
                for k, (r, atr, an, xn, ac) in enumerate(hist):
                    tests = [r - (btol + atol * an * xn / nb), atr - atol] + ([1 / ac - 1 / conlim] if k else [])
                    amb |= any(abs(v) < 1e-6 for v in tests)
                    if any(v <= 0 for v in tests):
                        want = k
                        break
                if want is None or amb:
                    continue
                with ctx.case(f'lsqr stop {sh} damp={damp} atol={atol} btol={btol} conlim={conlim} b={bl}') as c:
                    s = sls.lsqr_jit(op, jnp.asarray(b), jnp.zeros(n), damp, atol, btol, conlim, 50)
                    ctx.execs()
                    c.expect(int(s.iterations) == want + 1, 'stops at the first iterate which meets a tolerance', got=int(s.iterations), want=want + 1)


def ls_ref(A, b, x0, damp, k):
    r = b - A @ x0
    AH = A.conj().T
    Q = krylov(AH @ A, AH @ r, k)
    if Q.shape[1] == 0:
        return x0 + 0 * (AH @ r)
    B = np.vstack([A @ Q, damp * Q])
    y = np.linalg.lstsq(B, np.concatenate([r, np.zeros(Q.shape[0])]), rcond=None)[0]
    return x0 + Q @ y


def lsqr(ctx, sh, cplx, rank, th):
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    import jax.numpy as jnp
    m, n = sh
    U = np.linalg.qr(genm(m, m, 3))[0]
    V = np.linalg.qr(genm(n, n, 4))[0]
    k0 = min(m, n)
    s = np.linspace(1, 4, k0)
    if rank == 'def':
        s[0] = 0.
    A = U[:, :k0] @ np.diag(s) @ V[:, :k0].T
    if cplx:
        A = A * np.exp(1j * np.arange(m))[:, None] * np.exp(0.7j * np.arange(n))[None, :]
    op = lop.matrix(jnp.asarray(A))
    AH = A.conj().T
    Ts = sorted({1, 2, 3, k0, k0 + 1, k0 + 2}) if not th else list(range(1, k0 + 4))
    for damp in (0, 0.5) if not th else (0, 0.5, 2.):
        for T in Ts + [50]:
            for x0l, x0 in (('0', np.zeros(n)), ('g', gen(n, 77))):
                for bl, b in rhs(m, th, cplx):
                    with ctx.case(f'lsqr {sh} cplx={cplx} rank={rank} damp={damp} T={T} x0={x0l} b={bl}') as c:
                        f = sls.lsqr if (T == 3 and bl == 'gen1' and x0l == '0') else sls.lsqr_jit
                        if T == 50:
                            sol = sls.lsqr_jit(op, jnp.asarray(b), jnp.asarray(x0), damp, 1e-8, 1e-8, 1e8, 50)
                        else:
                            sol = f(op, jnp.asarray(b), jnp.asarray(x0), damp, 1e-12, 1e-12, 1e8, int(T))
                        ctx.execs()
                        x, k = np.asarray(sol.x), int(sol.iterations)
                        sc = np.linalg.norm(b) + np.linalg.norm(A @ x0)
                        c.state(sh, damp, k, x)
                        c.expect(k <= T, 'iterations within budget', k=k)
                        w = ls_ref(A, b, x0, damp, k - 1)
                        r0 = b - A @ x0
                        r = b - A @ w
                        d = w - x0
                        g0 = np.linalg.norm(AH @ r0)
                        if g0 < 1e-9 * sc:
                            # already optimal
                            c.close(x, x0, 'an optimal start is returned unchanged', tol=1e-8 * sc)
                            continue
                        c.close(x, w, 'iterate minimises the (damped) least squares error over its Krylov space', tol=1e-7 * sc, rtol=1e-7)
                        c.close(float(sol.r_norm), np.sqrt(np.sum(np.abs(r) ** 2) + damp ** 2 * np.sum(np.abs(d) ** 2)), 'reported residual norm', tol=1e-6 * sc)
                        c.close(float(sol.atr_norm), np.linalg.norm(AH @ r - damp ** 2 * d), 'reported norm of the normal equations residual', tol=1e-6 * sc)
                        if k > 1:
                            c.close(float(sol.x_norm), np.linalg.norm(d), 'reported norm of the update', tol=1e-6 * sc)
                            c.expect(float(np.real(sol.A_norm)) >= 0.99 * np.linalg.norm(A @ d) / max(np.linalg.norm(d), 1e-300), 'norm estimate covers the search space')
                            c.expect(float(np.real(sol.A_norm)) <= np.sqrt(np.linalg.norm(A) ** 2 + (k - 1) * damp ** 2) * (1 + 1e-6) + 1e-9 * k, 'norm estimate is a lower estimate')
                        c.expect(int(sol.n_times) == k and int(sol.n_trans) == k, 'operator application counts')
                        if k < T:
                            e1 = np.linalg.norm(AH @ r - damp ** 2 * d)
                            c.expect(e1 <= 1e-6 * g0 + 1e-9 * sc or np.linalg.norm(r) <= 1e-6 * sc, 'stops early only at a solution', e1=e1)


def power(ctx, th):
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    import jax.numpy as jnp
    for n in (2, 3, 5):
        for kind in ('gen', 'two', 'wide', 'id'):
            A = spd(n, 41, kind)
            op = lop.matrix(jnp.asarray(A))
            lam = np.linalg.eigvalsh(A)[-1]
            for bl, b in rhs(n, th):
                if 'e' in bl and kind in ('id',):
                    pass
                for T in (1, 2, 4, 200):
                    with ctx.case(f'power {kind} n={n} T={T} b={bl}') as c:
                        s = (sls.power_iterations if T == 4 and bl == 'gen0' else sls.power_iterations_jit)(op, jnp.asarray(b), T, 1e-6 if T == 200 else 1e-14)
                        ctx.execs()
                        k = int(s.iterations)
                        v = np.asarray(s.v)
                        c.state(kind, k, v)
                        c.expect(1 <= k <= T, 'iterations within budget')
                        w = b / np.linalg.norm(b)
                        for _ in range(k):
                            w0 = w
                            w = A @ w
                            w = w / np.linalg.norm(w)
                        c.close(v, w, 'eigenvector estimate is the normalised k-th power', tol=1e-7)
                        c.close(float(s.s), w0 @ A @ w0, 'eigenvalue estimate is the Rayleigh quotient', tol=1e-7)
                        if T == 200 and bl in ('gen0', 'gen1', 'ones'):
                            c.expect(abs(float(s.s) - lam) <= 1e-3 * lam, 'converges to the largest eigenvalue', got=float(s.s), want=lam)


def power_stop(ctx, th):
    """power iterations stop at the first relative change within the tolerance, at every scale"""
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    import jax.numpy as jnp
    for n in (2, 3, 5):
        for kind in ('gen', 'two', 'wide'):
            for sc in (1e-6, 1e-3, 1., 1e4):
                A = spd(n, 41, kind) * sc
                op = lop.matrix(jnp.asarray(A))
                for bl, b in rhs(n, th):
                    for tol in (1e-2, 1e-4, 1e-6):
                        w, old, k, amb = b, None, 0, False
                        while k < 100:
                            w = w / np.linalg.norm(w)
                            z = A @ w
                            new = w @ z
                            k += 1
                            w = z
                            if old is not None:
                                ch = abs(new - old) / abs(old)
                                amb |= abs(ch - tol) < 1e-3 * tol
                                if ch <= tol:
                                    break
                            old = new
                        if amb:
                            continue
                        with ctx.case(f'power stop {kind} n={n} scale={sc} tol={tol} b={bl}') as c:
                            s = sls.power_iterations_jit(op, jnp.asarray(b), 100, tol)
                            ctx.execs()
                            c.expect(int(s.iterations) == k, 'stops at the first small relative change', got=int(s.iterations), want=k)
                            c.close(float(s.s) / sc, new / sc, 'eigenvalue estimate', 1e-8)
                            c.state(kind, k, n)


def f32(ctx):
    from cr.sparse.opt import cg as mod
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    import jax.numpy as jnp
    for kind in ('gen', 'two', 'diag'):
        n = 5
        A = spd(n, 31, kind).astype(np.float32)
        op = lop.matrix(jnp.asarray(A))
        for bl, b in rhs(n, False):
            b = b.astype(np.float32)
            with ctx.case(f'f32 {kind} {bl}') as c:
                x = np.linalg.solve(A.astype(float), b.astype(float))
                s = mod.solve_from_jit(A, b, np.zeros(n, np.float32))
                ctx.execs(2)
                c.close(s.x, x, 'cg solves in single precision', tol=2e-3 * np.linalg.norm(b))
                sol = sls.lsqr_jit(op, b, np.zeros(n, np.float32), 0, 1e-5, 1e-5, 1e8, 30)
                c.close(sol.x, x, 'lsqr solves in single precision', tol=5e-3 * np.linalg.norm(b))
