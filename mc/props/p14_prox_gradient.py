"""Proximal gradient (ISTA, FISTA, first-order method) and reweighted least squares iterations follow their recursions and rates."""
import itertools
import numpy as np
from mc.core import Task
from mc.opcat import gen, genm

ID = 'P14'
RULE = ('For every listed operator (real, complex, wide, tall, orthonormal basis), start, thresholding rule, step size and every measurement vector of a family: ISTA, FISTA and FOCUSS are run for every iteration budget T=0..Tmax; the '
        'state reached (x, auxiliary point, residual, change, counters) is compared with the state of the reference recursion after the same number of steps, stopping rules are checked to fire at the first state that satisfies '
        'them, and the iterates of the first-order method with a known Lipschitz constant obey the published O(1/k^2) bound for every k. A state is a distinct iterate.')
ASSUME = ['double precision', 'residual of the FISTA state is the one of its extrapolated point', 'step sizes at most 1/L']


def mat(name):
    kind, sh = name.split()
    m, n = (int(v) for v in sh.split('x'))
    A = genm(m, n, 3 + m)
    if 'c' in kind:
        A = A + 1j * genm(m, n, 8 + n)
    return A / np.linalg.norm(A, 2)


NAMES = ('r 3x5', 'r 4x6', 'r 5x3', 'r 4x4', 'c 3x5', 'c 4x4')


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for nm in NAMES + (('r 6x10', 'c 5x8') if th else ()):
        for alg in ('ista', 'fista'):
            for thr in ('soft', 'decay', 'default', 'hard'):
                ts.append(Task(f'{alg} {nm} {thr}', 'pg', dict(nm=nm, alg=alg, thr=thr, th=th), cost=3))
        if nm[0] == 'r':
            ts.append(Task(f'fom rate {nm}', 'fomrate', dict(nm=nm, th=th), cost=3))
            ts.append(Task(f'fom recursion {nm}', 'fomrec', dict(nm=nm, th=th), cost=3))
            if nm in ('r 3x5', 'r 4x6', 'r 6x10'):
                ts.append(Task(f'focuss {nm}', 'focuss', dict(nm=nm, th=th), cost=2))
    return ts


def meas(A, th):
    m, n = A.shape
    cplx = np.iscomplexobj(A)
    ph = np.exp(0.7j) if cplx else 1.
    for k in (1, 2):
        for I in itertools.combinations(range(n), k):
            for s in itertools.product((1, -1), repeat=k):
                if k == 2 and s[0] < 0:
                    continue
                x = np.zeros(n) * ph
                x[list(I)] = np.array(s) * (1.5, 0.7)[:k] * (ph, 1)[:k]
                yield ''.join('%d%s' % (i, '+' if q > 0 else '-') for i, q in zip(I, s)), A @ x
    yield 'g1', gen(m, 1) + (1j * gen(m, 2) if cplx else 0)
    yield '0', np.zeros(m) * ph


def npthr(thr):
    def soft(x, t):
        a = np.abs(x)
        return np.where(a > t, x * (1 - t / np.maximum(a, 1e-300)), 0)
    return {'soft': lambda i, x: soft(x, 0.1), 'decay': lambda i, x: soft(x, 0.5 / (i + 1.)), 'default': lambda i, x: soft(x, np.percentile(np.abs(x), 20)),
            'hard': lambda i, x: np.where(np.abs(x) > 0.2, x, 0)}[thr]


def jxthr(thr):
    import jax.numpy as jnp
    if thr == 'default':
        return None

    def soft(x, t):
        a = jnp.abs(x)
        return jnp.where(a > t, x * (1 - t / jnp.maximum(a, 1e-300)), 0)
    return {'soft': lambda i, x: soft(x, 0.1), 'decay': lambda i, x: soft(x, 0.5 / (i + 1.)), 'hard': lambda i, x: jnp.where(jnp.abs(x) > 0.2, x, 0)}[thr]


def reference(alg, A, b, x0, step, thr, B, T):
    """list of states (x, z, r, change) for 0..T"""
    x = x0
    z = x0
    t = 1.
    out = [(x, z, b - A @ x0, None)]
    for i in range(T):
        p = z if alg == 'fista' else x
        u = p + step * (A.conj().T @ (b - A @ p))
        xn = B @ thr(i, B.conj().T @ u)
        ch = np.linalg.norm(xn - x)
        if alg == 'fista':
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            z = xn + (t - 1) / tn * (xn - x)
            t = tn
            r = b - A @ z
        else:
            z = xn
            r = b - A @ xn
        x = xn
        out.append((x, z, r, ch))
    return out


def pg(ctx, nm, alg, thr, th):
    import jax
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    import cr.sparse.sls as sls
    A = mat(nm)
    m, n = A.shape
    cplx = np.iscomplexobj(A)
    op = lop.matrix(jnp.asarray(A))
    Q = np.linalg.qr(genm(n, n, 31))[0]
    f = getattr(sls, alg)
    fj = getattr(sls, alg + '_jit')
    rt = npthr(thr)
    jt = jxthr(thr)
    kw = {} if jt is None else dict(threshold_func=jt)
    bases = [('I', np.eye(n), {}), ('Q', Q, dict(basis=lop.matrix(jnp.asarray(Q))))]
    TM = 12 if th else 6
    for bl, B, bk in bases:
        for step in (1., 0.4):
            tr = None
            for T in tuple(range(TM + 1)) + (60,):
                run = jax.jit(lambda b, x0: f(op, b, x0, step, res_norm_rtol=1e-3, x_norm_change_tol=1e-10, max_iters=T, **kw, **bk))
                for lab, y in meas(A, th):
                    for xl in ('0', 'g'):
                        if xl == 'g' and lab not in ('g1', '0+1-', '0'):
                            continue
                        if (bl == 'Q' or step != 1.) and lab[-1] != '+' and lab[0] != 'g':
                            continue
                        x0 = np.zeros(n) if xl == '0' else gen(n, 5)
                        x0 = x0.astype(complex) if cplx else x0
                        with ctx.case(f'{alg} {nm} thr={thr} basis={bl} step={step} T={T} y={lab} x0={xl}') as c:
                            s = run(jnp.asarray(y), jnp.asarray(x0))
                            ctx.execs()
                            it = int(s.iterations)
                            c.expect(it <= T, 'iteration budget', it=it)
                            ref = reference(alg, A, y, x0, step, rt, B, it)
                            x, z, r, ch = ref[-1]
                            c.state(s.x)
                            ok = c.close(s.x, x, 'iterate', tol=1e-8)
                            if alg == 'fista':
                                c.close(s.z, z, 'extrapolated point', tol=1e-8)
                            c.close(s.r, r, 'residual', tol=1e-8)
                            c.close(s.r_norm_sqr, np.linalg.norm(r) ** 2, 'squared residual norm', tol=1e-8)
                            if ch is not None:
                                c.close(s.x_change_norm, ch, 'norm of the change', tol=1e-8)
                            # stopping: not before, not after the first state satisfying a rule
                            lim = 1e-3 * np.linalg.norm(y)
                            fire = [np.linalg.norm(q[2]) <= lim or (q[3] is not None and q[3] <= 1e-10) for q in ref]
                            near = [abs(np.linalg.norm(q[2]) - lim) <= 1e-9 * (1 + lim) or (q[3] is not None and 1e-11 < q[3] < 1e-9) for q in ref]
                            if ok and not any(near):
                                c.expect(not any(fire[:-1]), 'continues after a stopping rule has fired', it=it)
                                c.expect(fire[-1] or it == T, 'stops without a reason', it=it)
    # compiled entry point and default arguments
    y = dict(meas(A, th))['g1']
    x0 = np.zeros(n).astype(A.dtype)
    with ctx.case(f'{alg}_jit {nm} thr={thr}') as c:
        args = (jt,) if jt is not None else ()
        s = fj(op, jnp.asarray(y), jnp.asarray(x0), 1., *args)
        ctx.execs()
        ref = reference(alg, A, y, x0, 1., rt, np.eye(n), int(s.iterations))
        c.close(s.x, ref[-1][0], 'iterate', tol=1e-6)
        c.expect(int(s.iterations) <= 1000, 'default budget')
    if thr == 'soft':
        # limit points are minimisers of the lasso problem
        for lab, y in meas(A, th):
            with ctx.case(f'{alg} {nm} limit y={lab}') as c:
                run = jax.jit(lambda b: f(op, b, jnp.asarray(x0), 1., res_norm_rtol=0., x_norm_change_tol=0., max_iters=3000, **kw)) if lab == '0+' else run2
                run2 = run
                s = run(jnp.asarray(y))
                ctx.execs()
                x = np.asarray(s.x)
                g = A.conj().T @ (y - A @ x)
                c.expect(np.max(np.abs(g)) <= 0.1 * (1 + 1e-3), 'dual feasible limit', got=float(np.max(np.abs(g))))
                on = np.abs(x) > 1e-6
                if on.any():
                    c.close(g[on], 0.1 * x[on] / np.abs(x[on]), 'subgradient on the support', tol=1e-3)


def fomrate(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    from cr.sparse import fom
    from mc.l1oracle import L1
    A = mat(nm)
    m, n = A.shape
    op = lop.matrix(jnp.asarray(A))
    for T in (1, 2, 3, 5, 8, 13, 21, 34) + ((4, 6, 7, 9, 10, 11, 12, 55, 89) if th else ()):
        o = fom.FomOptions(max_iters=T, tol=0., L0=1., Lexact=1., alpha=1., beta=1.)
        for lab, y in meas(A, th):
            if lab == '0':
                continue
            q = L1(A, y)
            for fr in (0.1, 0.5):
                lam = fr * q.lam_max
                xs, ps = q.solve(lam)
                for xl in ('0', 'g'):
                    if xl == 'g' and lab[-1] == '-':
                        continue
                    x0 = np.zeros(n) if xl == '0' else gen(n, 5)
                    with ctx.case(f'fom.l1rls rate {nm} T={T} y={lab} lam={fr} x0={xl}') as c:
                        s = fom.l1rls_jit(op, jnp.asarray(y), lam, jnp.asarray(x0), o)
                        ctx.execs()
                        x = np.asarray(s.x)
                        c.state(x)
                        k = int(s.iterations)
                        c.expect(k == T or float(s.norm_dx) == 0, 'iteration budget', it=k)
                        p = 0.5 * np.sum((A @ x - y) ** 2) + lam * np.sum(np.abs(x))
                        c.expect(p - ps <= 2 * np.sum((x0 - xs) ** 2) / (k + 1) ** 2 + 1e-9, 'objective error obeys the O(1/k^2) bound', got=float(p - ps),
                                 want=float(2 * np.sum((x0 - xs) ** 2) / (k + 1) ** 2))


def fom_ref(A, b, prox, x0, T, L0, Lexact, alpha, beta):
    """accelerated proximal gradient iteration of Auslender and Teboulle with backtracking: states (x, z, L, theta, change) after 1..T steps"""
    x = z = x0
    L, theta = L0, np.inf
    out = []
    for _ in range(T):
        Lo, L = L, L * alpha
        theta = 2 / (1 + np.sqrt(1 + 4 * (L / Lo) / theta ** 2))
        y = (1 - theta) * x + theta * z
        z = prox(z - A.T @ (A @ y - b) / (theta * L), 1 / (theta * L))
        xn = (1 - theta) * x + theta * z
        d = xn - y
        amb = not np.any(d)  # the estimate is undefined where the points coincide up to rounding
        if not amb:
            loc = 2 * np.sum((A @ d) ** 2) / np.sum(d * d)
            amb = abs(loc - L) < 1e-7 * L or np.sum(d * d) < 1e-14
            if loc > L:
                L = min(Lexact, max(loc, L / beta))
        out.append((xn, z, L, theta, np.linalg.norm(xn - x), y, amb))
        if amb:
            break
        x = xn
    return out


def fomrec(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    from cr.sparse import fom, opt
    A = mat(nm) * 1.7
    m, n = A.shape
    op = lop.matrix(jnp.asarray(A))

    def soft(v, t):
        return np.sign(v) * np.maximum(np.abs(v) - t, 0)

    def ball(tau):
        def pr(v, t):
            if np.sum(np.abs(v)) <= tau:
                return v
            u = np.sort(np.abs(v))[::-1]
            k = np.arange(1, n + 1)
            c = (np.cumsum(u) - tau) / k
            return soft(v, c[np.nonzero(u > c)[0][-1]])
        return pr
    TS = (1, 2, 3, 4, 6, 9, 15) + ((5, 7, 8, 12, 20, 30) if th else ())
    L2 = float(np.linalg.norm(A, 2) ** 2)
    for cfg in ((1., np.inf, 0.9, 0.5), (5., np.inf, 0.9, 0.5), (0.1, np.inf, 1., 0.5), (0.5, 2 * L2, 0.8, 0.3), (2., np.inf, 0.5, 0.9)):
        for tol in (0., 1e-2):
            for T in TS if tol == 0. else (40,):
                o = fom.FomOptions(max_iters=T, tol=tol, L0=cfg[0], Lexact=cfg[1], alpha=cfg[2], beta=cfg[3])
                run = jax.jit(lambda b, x0, v: (fom.l1rls(op, b, v, x0, o), fom.lasso(op, b, v, x0, o)))
                for li, (lab, y) in enumerate(meas(A, th)):
                    if lab == '0' or (li % 3 and lab != 'g1'):
                        continue
                    for sc in (1.,) if tol == 0. else (1., 20., 0.05):
                        for xl, x0 in (('0', np.zeros(n)), ('g', 3 * gen(n, 5))):
                            v = 0.4 * sc
                            res = run(jnp.asarray(sc * y), jnp.asarray(x0), v)
                            for pl, s, pr, p in (('l1rls', res[0], lambda u, t: soft(u, v * t), x0), ('lasso', res[1], ball(v), None)):
                                with ctx.case(f'fom.{pl} recursion {nm} L0={cfg} tol={tol} T={T} scale={sc} y={lab} x0={xl}') as c:
                                    ctx.execs()
                                    p = x0 if p is not None or np.sum(np.abs(x0)) <= v else pr(x0, 1.)
                                    k = int(s.iterations)
                                    ref = fom_ref(A, sc * y, pr, p, k, *cfg)
                                    if ref[-1][-1] and (len(ref) < k or tol > 0):
                                        continue
                                    x, z, L, theta, chg, yy, amb = ref[-1]
                                    c.state(x)
                                    c.close(s.x, x, 'iterate', tol=1e-6 * max(1, sc))
                                    c.close(s.z, z, 'proximal point', tol=1e-6 * max(1, sc))
                                    c.close(s.y, yy, 'extrapolated point', tol=1e-6 * max(1, sc))
                                    c.close(s.theta, theta, 'weight', tol=1e-6)
                                    c.close(s.norm_dx, chg, 'norm of the change', tol=1e-6 * max(1, sc))
                                    if not amb:
                                        c.close(s.L, L, 'Lipschitz estimate', tol=1e-5, rtol=1e-5)
                                    lim = [tol * max(np.linalg.norm(q[0]), 1) for q in ref]
                                    if any(abs(q[4] - l) <= 1e-6 * (l + 1e-6) for q, l in zip(ref, lim)):
                                        continue
                                    fire = [q[4] < l for q, l in zip(ref, lim)]
                                    c.expect(not any(fire[:-1]), 'continues after the change is within the tolerance', it=k)
                                    c.expect(fire[-1] or k == T, 'stops without a reason', it=k)


def focuss(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import focuss as F
    A = mat(nm)
    m, n = A.shape
    for T in tuple(range(0, 7)) + (20, 60):
        for p in (1., 0.8, 0.5):
            run = jax.jit(lambda y: F.matrix_solve_noiseless(jnp.asarray(A), y, p=p, max_iters=T))
            for lab, y in meas(A, th):
                with ctx.case(f'focuss {nm} T={T} p={p} y={lab}') as c:
                    s = run(jnp.asarray(y))
                    ctx.execs()
                    x = np.ones(n)
                    for _ in range(T):
                        w = np.abs(x) ** p
                        x = w * (np.linalg.pinv(A * w, rcond=1e-13) @ y)
                    sx = np.asarray(s.x)
                    c.state(sx)
                    if not c.expect(np.all(np.isfinite(sx)), 'finite'):
                        continue
                    c.expect(int(s.iterations) == T, 'iterations')
                    c.close(s.r, y - A @ sx, 'residual', tol=1e-9)
                    c.close(s.r_norm_sqr, np.sum((y - A @ sx) ** 2), 'residual norm', tol=1e-9)
                    if T in (0, 2, 20) and np.any(sx):
                        I = np.asarray(s.I)
                        c.expect(int(s.length) == n, 'length')
                        c.expect(len(set(I.tolist())) == len(I) and np.all((0 <= I) & (I < n)), 'support indices are distinct and in range', got=I)
                        c.close(s.x_I, sx[I], 'coefficients on the support', tol=1e-12)
                        e = np.sum(sx[I] ** 2) / np.sum(sx ** 2)
                        c.expect(e >= 0.99 - 1e-9, 'support holds 99 percent of the energy', got=float(e))
                        if len(I) > 1:
                            k = I[np.argmin(np.abs(sx[I]))]
                            c.expect((np.sum(sx[I] ** 2) - sx[k] ** 2) / np.sum(sx ** 2) <= 0.99 + 1e-9, 'support is not larger than needed', got=I)
                            off = np.setdiff1d(np.arange(n), I)
                            c.expect(off.size == 0 or np.max(np.abs(sx[off])) <= np.min(np.abs(sx[I])) + 1e-12, 'support holds the largest entries')
                    if T > 0:
                        c.close(A @ sx, y, 'iterates satisfy the measurements', tol=1e-6)
                    if T <= 6:
                        c.close(sx, x, 'iterate of the reweighted least squares recursion', tol=1e-5)
                    if T == 60 and p > 0.5 and lab != '0':
                        c.expect(np.sum(np.abs(sx) > 1e-3 * np.max(np.abs(sx))) <= m, 'limit has at most m non-zero entries')
    for lab, y in meas(A, th):
        with ctx.case(f'focuss step {nm} y={lab}') as c:
            x = gen(n, 3)
            w = np.abs(x) ** 0.8
            c.close(F.step_noiseless(jnp.asarray(A), jnp.asarray(y), jnp.asarray(x), p=0.8), w * (np.linalg.pinv(A * w) @ y), 'single step', tol=1e-7)
