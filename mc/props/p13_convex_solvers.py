"""Convex l1 solvers return minimisers of the problem they document."""
import itertools
import numpy as np
from mc.core import Task
from mc.opcat import gen, genm

ID = 'P13'
RULE = ('For every listed sensing matrix (generic with normalised columns, orthonormal rows, square orthogonal) and every measurement vector of a family (every support of up to '
        '2 with every sign pattern, noiseless and perturbed, generic vectors, zero): each convex solver (interior point l1-ls, YALL1 in its three models with weights, sparsifying basis and non-negativity, SPGL1 '
        'lasso/bpic/bp, first-order methods l1rls/lasso/owl1rls/bp_scd/dantzig_scd, SPG) is run for every regularisation level of a list; the objective reached is compared with the exact optimum '
        'obtained by enumerating all supports, sign patterns and bases, and the reported residual, objective and counters with the returned point. A state is a distinct minimiser.')
ASSUME = ['double precision', 'problem sizes up to 4x6 (5x8 in thorough)', 'solvers that stop at their iteration limit are only held to feasibility and consistency where stated']
MATS = ('gen 3x5', 'gen 4x6', 'orth 3x5', 'orth 4x6', 'sq 4x4')


def mat(name):
    kind, sh = name.split()
    m, n = (int(v) for v in sh.split('x'))
    A = genm(m, n, 3 + m)
    if kind == 'gen':
        A = A / np.linalg.norm(A, axis=0)
    else:
        A = np.linalg.qr(A.T)[0].T
    return A


def meas(A, th):
    """(label, y) of the whole family"""
    m, n = A.shape
    for k in (1, 2, 3) if th else (1, 2):
        for I in itertools.combinations(range(n), k):
            for s in itertools.product((1, -1), repeat=k):
                if s[0] < 0 and not (k == 1):
                    continue
                x = np.zeros(n)
                x[list(I)] = np.array(s) * (1.5, 0.7, 2.2)[:k]
                lab = ''.join('%d%s' % (i, '+' if q > 0 else '-') for i, q in zip(I, s))
                yield lab, A @ x
                if (sum(I) + k) % 3 == 0:
                    yield lab + 'n', A @ x + 0.05 * gen(m, 7 + I[0])
    for s in (1, 2):
        yield f'g{s}', gen(m, s)
    yield 'big', 100 * gen(m, 4)
    yield 'small', 0.01 * gen(m, 5)


def tasks(tier):
    th = tier == 'thorough'
    ms = list(MATS) + (['gen 5x8', 'orth 5x8'] if th else [])
    ts = []
    for nm in ms:
        c = 3 if '4x6' in nm else (10 if '5x8' in nm else 1)
        for f in ('l1ls', 'l1rls', 'fom_lasso', 'owl', 'spg', 'spgl1_lasso', 'spgl1_bpic', 'scd'):
            ts.append(Task(f'{f} {nm}', f, dict(nm=nm, th=th), cost=c))
        if not nm.startswith('gen'):
            for f in ('bp', 'l1l2', 'con'):
                ts.append(Task(f'yall1 {f} {nm}', 'yall1', dict(nm=nm, model=f, th=th), cost=2 * c))
    for nm in ('gen 3x5', 'orth 4x6', 'sq 4x4') + (('gen 4x6', 'orth 3x5') if th else ()):
        ts.append(Task(f'spgl1 complex {nm}', 'spgl1_complex', dict(nm=nm, th=th), cost=2))
        ts.append(Task(f'spg path {nm}', 'spg_path', dict(nm=nm, th=th), cost=3))
        ts.append(Task(f'spgl1 path {nm}', 'spgl1_path', dict(nm=nm, th=th), cost=3))
        ts.append(Task(f'operator counts {nm}', 'counts', dict(nm=nm, th=th), cost=2))
    ts.append(Task('affine functions', 'affine', {}, cost=1))
    return ts


def _op(A):
    import cr.sparse.lop as lop
    import jax.numpy as jnp
    return lop.matrix(jnp.asarray(A))


def l1ls(ctx, nm, th):
    import jax.numpy as jnp
    from cr.sparse.cvx import l1ls as S
    from mc.l1oracle import L1
    A = mat(nm)
    op = _op(A)
    m, n = A.shape
    for lab, y in meas(A, th):
        o = L1(A, y)
        for fr in (0.05, 0.3, 0.9, 1.3):
            lam = 2 * fr * o.lam_max
            pstar = 2 * o.solve(lam / 2)[1]
            for var in ('solve', 'from', 'start', 'start jit') if lab in ('g1', '0+1-') else ('solve',):
                with ctx.case(f'l1ls {nm} y={lab} lam={fr} {var}') as c:
                    if var == 'solve':
                        s = S.solve_jit(op, jnp.asarray(y), lam)
                    elif var[0] == 's':
                        x0 = 3 * gen(n, 9)
                        s = (S.solve_jit if var == 'start jit' else S.solve)(op, jnp.asarray(y), lam, x0=jnp.asarray(x0), u0=jnp.asarray(np.abs(x0) + 1))
                    else:
                        x0 = gen(n, 9)
                        s = S.solve_from_jit(op, jnp.asarray(y), lam, jnp.asarray(x0), jnp.asarray(np.abs(x0) + 1))
                    ctx.execs()
                    x = np.asarray(s.x)
                    c.state(x)
                    c.close(s.r, y - A @ x, 'residual', tol=1e-8)
                    p = np.sum((A @ x - y) ** 2) + lam * np.sum(np.abs(x))
                    c.expect(p <= pstar * (1 + 2e-3) + 1e-9, 'objective is within the relative gap of the optimum', got=p, want=pstar)
                    c.expect(int(s.n_times) >= int(s.iterations) and int(s.n_trans) >= int(s.iterations), 'operator counts')
    with ctx.case(f'l1ls {nm} y=0') as c:
        s = S.solve_jit(op, jnp.zeros(m), 0.3)
        c.close(s.x, np.zeros(n), 'zero measurements give zero', tol=1e-6)


def fomopts(**k):
    from cr.sparse import fom
    return fom.FomOptions(max_iters=4000, tol=1e-10, **k)


def fom_common(c, s, A, y, x):
    c.close(s.A_x, A @ x, 'A_x is A x', tol=1e-8)
    c.close(s.f_x, 0.5 * np.sum((A @ x - y) ** 2), 'f_x is the data term', tol=1e-8)
    c.close(s.norm_x, np.linalg.norm(x), 'norm_x', tol=1e-8)
    c.expect(int(s.iterations) <= 4000, 'iterations within the limit')


def l1rls(ctx, nm, th):
    import jax.numpy as jnp
    from cr.sparse import fom
    from mc.l1oracle import L1
    A = mat(nm)
    op = _op(A)
    n = A.shape[1]
    o4 = fomopts()
    for lab, y in meas(A, th):
        o = L1(A, y)
        for fr in (0.05, 0.3, 0.9, 1.3):
            lam = fr * o.lam_max
            pstar = o.solve(lam)[1]
            for x0 in ('0', 'g'):
                if x0 == 'g' and lab not in ('g1', '0+1-'):
                    continue
                with ctx.case(f'fom.l1rls {nm} y={lab} lam={fr} x0={x0}') as c:
                    s = fom.l1rls_jit(op, jnp.asarray(y), lam, jnp.asarray(np.zeros(n) if x0 == '0' else gen(n, 9)), o4)
                    ctx.execs()
                    x = np.asarray(s.x)
                    c.state(x)
                    fom_common(c, s, A, y, x)
                    p = 0.5 * np.sum((A @ x - y) ** 2) + lam * np.sum(np.abs(x))
                    c.expect(p <= pstar * (1 + 1e-5) + 1e-9, 'objective equals the optimum', got=p, want=pstar)


def fom_lasso(ctx, nm, th):
    import jax.numpy as jnp
    from cr.sparse import fom
    from mc.l1oracle import L1
    A = mat(nm)
    op = _op(A)
    n = A.shape[1]
    o4 = fomopts()
    for lab, y in meas(A, th):
        o = L1(A, y)
        for tau in (0.2, 1., 2.5) if lab not in ('big', 'small') else ((100.,) if lab == 'big' else (0.01,)):
            fs = o.lasso(tau)
            for x0 in ('0', 'g'):
                if x0 == 'g' and lab not in ('g1', '0+1-'):
                    continue
                with ctx.case(f'fom.lasso {nm} y={lab} tau={tau} x0={x0}') as c:
                    s = fom.lasso_jit(op, jnp.asarray(y), tau, jnp.asarray(np.zeros(n) if x0 == '0' else gen(n, 9)), o4)
                    ctx.execs()
                    x = np.asarray(s.x)
                    c.state(x)
                    fom_common(c, s, A, y, x)
                    c.expect(np.sum(np.abs(x)) <= tau * (1 + 1e-6), 'x lies in the l1 ball', got=np.sum(np.abs(x)))
                    c.expect(0.5 * np.sum((A @ x - y) ** 2) <= fs * (1 + 1e-5) + 1e-6 * np.sum(y * y), 'data term equals the optimum',
                             got=0.5 * np.sum((A @ x - y) ** 2), want=fs)


def owl(ctx, nm, th):
    import jax.numpy as jnp
    from cr.sparse import fom
    from mc.l1oracle import L1
    A = mat(nm)
    op = _op(A)
    n = A.shape[1]
    o4 = fomopts()
    for lab, y in meas(A, th):
        lm = np.max(np.abs(A.T @ y))
        for wl in ('const', 'lin'):
            w = 0.3 * lm * (np.ones(n) if wl == 'const' else np.linspace(1, 0.1, n))
            with ctx.case(f'fom.owl1rls {nm} y={lab} w={wl}') as c:
                s = fom.owl1rls_jit(op, jnp.asarray(y), jnp.asarray(w), jnp.zeros(n), o4)
                ctx.execs()
                x = np.asarray(s.x)
                c.state(x)
                fom_common(c, s, A, y, x)
                h = np.sum(np.sort(np.abs(x))[::-1] * w)
                p = 0.5 * np.sum((A @ x - y) ** 2) + h
                if wl == 'const':
                    c.expect(p <= L1(A, y).solve(w[0])[1] * (1 + 1e-5) + 1e-9, 'constant weights give the l1 optimum')
                # optimality certificate: g = A^T(y-Ax) is a subgradient: dual norm <= 1 and g.x = h(x)
                g = A.T @ (y - A @ x)
                cs = np.cumsum(np.sort(np.abs(g))[::-1]) - np.cumsum(w)
                c.expect(np.max(cs) <= 1e-4 * lm, 'gradient lies in the dual ball of the sorted norm', got=float(np.max(cs)))
                c.expect(abs(g @ x - h) <= 1e-4 * max(lm, 1e-3) * max(1, np.sum(np.abs(x))), 'gradient attains the norm', got=float(g @ x), want=float(h))


def spg(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    from cr.sparse import opt
    from cr.sparse.opt import spg as S
    from mc.l1oracle import L1
    A = mat(nm)
    n = A.shape[1]
    M = A.T @ A
    sets = {'l1': (opt.proj_l1_ball(1.2), None), 'l2': (opt.proj_l2_ball(1.2), None), 'box': (opt.proj_box(-0.5, 0.8), None), 'pos': (opt.proj_box(0., None), None)}
    oo = S.SPGOptions(progress_tol=1e-16, optim_tol=1e-6)
    for sl, (pr, _) in sets.items():
        def run(y, x0):
            f = opt.smooth_quad_error(jnp.asarray(A), y)
            return S.solve_from(f, pr, x0, oo)
        jr = jax.jit(run)
        for lab, y in meas(A, th):
            if lab == 'big':
                continue
            for x0 in ('0', 'g'):
                with ctx.case(f'spg {nm} set={sl} y={lab} x0={x0}') as c:
                    s = jr(jnp.asarray(y), jnp.asarray(np.zeros(n) if x0 == '0' else 2 * gen(n, 8)))
                    ctx.execs()
                    x = np.asarray(s.x)
                    c.state(x)
                    g = A.T @ (A @ x - y)
                    c.close(s.g, g, 'reported gradient', tol=1e-7)
                    P = np.asarray(pr(jnp.asarray(x - g)))
                    c.close(np.asarray(pr(jnp.asarray(x))), x, 'x is feasible', tol=1e-7)
                    c.expect(np.max(np.abs(P - x)) <= 2e-3, 'x is a fixed point of the projected gradient', got=float(np.max(np.abs(P - x))), it=int(s.iterations))
                    if sl == 'l1':
                        c.close(0.5 * np.sum((A @ x - y) ** 2), L1(A, y).lasso(1.2), 'data term equals the optimum', tol=1e-5)
                    c.close(s.f_past[0], 0.5 * np.sum((A @ x - y) ** 2), 'reported function value', tol=1e-7)


def spg_model(f, grad, proj, x0, T, mem, ptol, otol, mf, suff=1e-4):
    """Birgin, Martinez, Raydan: spectral projected gradients with non-monotone line search.  Yields every state and how clear cut its decisions were"""
    eps = float(np.finfo(np.float32).eps)
    mar = [1.]

    def lt(a, b):
        # decisions between values that agree up to rounding are not followed
        d = abs(a - b) / max(abs(a), abs(b), 1e-300)
        mar[0] = min(mar[0], d)
        return a < b
    x = proj(x0)
    g = grad(x)
    d = proj(x - g) - x
    delta = g @ d
    xp, gp = x, g
    t1 = np.sum(np.abs(g))
    x = x + (min(1., 1 / t1) if t1 > 0 else 1.) * d
    g = grad(x)
    past = [f(x)] * mem
    it, fc = 1, 2
    while True:
        opt = np.max(np.abs(proj(x - g) - x))
        stop = lt(opt, otol) or lt(-delta, ptol) or fc >= mf
        yield dict(x=x, g=g, x_prev=xp, g_prev=gp, f_past=np.array(past), delta=delta, iterations=it, f_calls=fc, g_calls=it + 1), mar[0], stop
        if stop or it >= T:
            return
        s, y = x - xp, g - gp
        lam = (s @ s) / (s @ y + eps)
        if lam < 1e-10 or lam > 1e10:
            lam = 1.
        d = proj(x - lam * g) - x
        delta = g @ d
        fmax, flast = max(past), past[0]
        a, xn = 1., x + d
        fv, n = f(xn), 1
        while lt(fmax + suff * a * delta, fv) and n < 50:
            at = -0.5 * a ** 2 * delta / (fv - flast - a * delta)
            a = at if (not lt(at, 0.1)) and (not lt(0.9 * a, at)) else a / 2
            xn = x + a * d
            fv, n = f(xn), n + 1
        xp, gp, x = x, g, xn
        g = grad(x)
        past = [fv] + past[:-1]
        it, fc = it + 1, fc + n


def spg_path(ctx, nm, th):
    """SPG stopped after any number of iterations is in the state of its recursion"""
    import jax
    import jax.numpy as jnp
    from cr.sparse import opt
    from cr.sparse.opt import spg as S
    A = mat(nm) * np.linspace(0.3, 2, mat(nm).shape[0])[:, None]
    m, n = A.shape
    Aj = jnp.asarray(A)

    def pl1(q):
        def p(x):
            if np.sum(np.abs(x)) <= q:
                return x
            u = np.sort(np.abs(x))[::-1]
            k = np.nonzero(u * np.arange(1, n + 1) > np.cumsum(u) - q)[0][-1] + 1
            return np.sign(x) * np.maximum(np.abs(x) - (np.cumsum(u)[k - 1] - q) / k, 0)
        return p
    sets = {'l1': (opt.proj_l1_ball(1.2), pl1(1.2)), 'box': (opt.proj_box(-0.5, 0.8), lambda x: np.clip(x, -0.5, 0.8)),
            'pos': (opt.proj_box(0., None), lambda x: np.maximum(x, 0)), 'free': (opt.proj_identity(), lambda x: x)}
    funs = {'quad': (lambda r: 0.5 * jnp.sum(r ** 2), lambda r: 0.5 * np.sum(r ** 2), lambda r: r),
            'quartic': (lambda r: 0.25 * jnp.sum(r ** 4) + 0.05 * jnp.sum(r ** 2), lambda r: 0.25 * np.sum(r ** 4) + 0.05 * np.sum(r ** 2), lambda r: r ** 3 + 0.1 * r),
            'soft': (lambda r: jnp.sum(jnp.sqrt(1e-2 + r ** 2)), lambda r: np.sum(np.sqrt(1e-2 + r ** 2)), lambda r: r / np.sqrt(1e-2 + r ** 2))}
    TM = 24 if th else 12
    ys = [(l, y) for i, (l, y) in enumerate(meas(A, th)) if i % (4 if th else 9) == 0 or l == 'g1']
    for (sl, (pj, pn)), (fl, (fj, fn, gn)), mem in itertools.product(sets.items(), funs.items(), (1, 3)):
        def run(y, x0, T, pt, ot, mf):
            fs = opt.smooth_build(lambda x: fj(Aj @ x - y))
            return S.solve_from(fs, pj, x0, S.SPGOptions(progress_tol=pt, optim_tol=ot, max_iters=T, max_f_calls=mf, memory=mem))
        jr = jax.jit(run)
        for (lab, y), x0n, (pt, ot, mf) in itertools.product(ys, ('0', 'g'), ((0., 0., 10 ** 6), (1e-4, 1e-9, 10 ** 6), (1e-12, 1e-2, 10 ** 6), (0., 0., 9))):
            if mem == 3 and pt > 0:
                continue
            x0 = np.zeros(n) if x0n == '0' else 2 * gen(n, 8)
            with np.errstate(all='ignore'):
                states = list(spg_model(lambda x: fn(A @ x - y), lambda x: A.T @ gn(A @ x - y), pn, x0, TM, mem, pt, ot, mf))
            for T in range(1, TM + 1):
                with ctx.case(f'spg path {nm} {fl} on {sl} memory={mem} T={T} tol={pt, ot, mf} y={lab} x0={x0n}') as c:
                    st, mar, stop = states[min(T, len(states)) - 1]
                    # after convergence steps are ratios of rounding errors
                    if mar < 1e-6 or (T > 1 and np.max(np.abs(st['x'] - st['x_prev'])) < 1e-7):
                        break
                    s = jr(jnp.asarray(y), jnp.asarray(x0), T, pt, ot, mf)
                    ctx.execs()
                    c.state(s.x, T)
                    for k in ('iterations', 'f_calls', 'g_calls'):
                        c.expect(int(getattr(s, k)) == st[k], k, got=int(getattr(s, k)), want=st[k])
                    for k in ('x', 'g', 'x_prev', 'g_prev', 'f_past', 'delta'):
                        c.close(getattr(s, k), st[k], k, tol=1e-5)
                    if stop:
                        break


def spgl1_lasso(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import spgl1 as S
    from mc.l1oracle import L1
    A = mat(nm)
    op = _op(A)
    n = A.shape[1]
    oo = S.SPGL1Options(max_iters=300)
    jr = jax.jit(lambda b, tau, x0: S.solve_lasso_from(op, b, tau, x0, options=oo))
    for lab, y in meas(A, th):
        o = L1(A, y)
        for tau in (0.2, 1., 2.5):
            fs = o.lasso(tau)
            for x0 in ('0', 'g'):
                if x0 == 'g' and lab not in ('g1', '0+1-'):
                    continue
                with ctx.case(f'spgl1.lasso {nm} y={lab} tau={tau} x0={x0}') as c:
                    s = jr(jnp.asarray(y), tau, jnp.asarray(np.zeros(n) if x0 == '0' else 2 * gen(n, 8)))
                    ctx.execs()
                    x = np.asarray(s.x)
                    c.state(x)
                    c.close(s.r, y - A @ x, 'residual', tol=1e-8)
                    c.close(s.g, -A.T @ (y - A @ x), 'gradient', tol=1e-8)
                    c.close(s.r_norm, np.linalg.norm(y - A @ x), 'residual norm', tol=1e-8)
                    c.expect(np.sum(np.abs(x)) <= tau * (1 + 1e-7), 'x lies in the l1 ball', got=np.sum(np.abs(x)))
                    f = 0.5 * np.sum((A @ x - y) ** 2)
                    conv = int(s.iterations) < 300
                    c.expect(conv, 'converged', it=int(s.iterations))
                    c.expect(f <= fs + 3e-4 * max(1, f) + 1e-4 * np.sum(y * y) * (fs < 1e-7), 'data term equals the optimum', got=f, want=fs)
    for tau in (1., 2.5):
        with ctx.case(f'spgl1.solve_lasso variants {nm} tau={tau}') as c:
            y = gen(A.shape[0], 1)
            a = S.solve_lasso(op, jnp.asarray(y), tau)
            b = S.solve_lasso_jit(op, jnp.asarray(y), tau)
            ctx.execs(2)
            c.close(a.x, b.x, 'compiled variant', tol=1e-8)
            c.close(0.5 * np.sum((A @ np.asarray(a.x) - y) ** 2), L1(A, y).lasso(tau), 'optimum', tol=1e-3)
            c.close(S.solve_lasso_jit(op, jnp.asarray(y), tau, options=oo).x, jr(jnp.asarray(y), tau, jnp.zeros(n)).x, 'options of the compiled variant', tol=1e-8)


def spgl1_bpic(ctx, nm, th):
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import spgl1 as S
    from mc.l1oracle import L1, bp_opt
    A = mat(nm)
    op = _op(A)
    n = A.shape[1]
    oo = S.SPGL1Options(max_iters=600)
    ratios = []
    for lab, y in meas(A, th):
        o = L1(A, y)
        for fr in (0., 0.05, 0.5, 1.5):
            sg = fr * np.linalg.norm(y)
            with ctx.case(f'spgl1.bpic {nm} y={lab} sigma={fr}') as c:
                if fr == 0.:
                    s = S.solve_bp_jit(op, jnp.asarray(y), options=oo)
                    vs = bp_opt(A, y)[0]
                else:
                    s = S.solve_bpic_jit(op, jnp.asarray(y), sg, options=oo)
                    vs = o.bpic(sg)
                ctx.execs()
                x = np.asarray(s.x)
                c.state(x)
                c.close(s.r, y - A @ x, 'residual', tol=1e-8)
                c.close(s.g, -A.T @ (y - A @ x), 'gradient', tol=1e-8)
                c.close(s.r_norm, np.linalg.norm(y - A @ x), 'residual norm', tol=1e-8)
                if int(s.iterations) >= 600 and lab == 'big':
                    continue
                c.expect(int(s.iterations) < 600, 'converged', it=int(s.iterations))
                c.expect(np.linalg.norm(y - A @ x) <= sg + 2e-4 * max(1, np.linalg.norm(y)), 'residual within sigma', got=float(np.linalg.norm(y - A @ x)), want=sg)
                l1 = float(np.sum(np.abs(x)))
                c.expect(l1 <= float(s.tau) * (1 + 1e-6) + 1e-9, 'x lies in the ball of radius tau', got=l1, want=float(s.tau))
                c.expect(l1 <= vs * 1.2 + 1e-3, 'l1 norm is near the optimum', got=l1, want=vs)
                if vs > 0:
                    ratios.append(l1 / vs)
    with ctx.case(f'spgl1.bpic {nm} distribution of the suboptimality') as c:
        # the root finding is inexact: a few runs stop early, the bulk has to be optimal
        q = np.quantile(ratios, [0.02, 0.5, 0.9])
        c.expect(q[0] >= 0.97 and q[1] <= 1.003 and q[2] <= 1.05, 'bulk of the l1 norms equals the optimum', got=str(q))


def scd(ctx, nm, th):
    """smoothed conic dual: the smoothed conjugate, and the two drivers built on it (recorded finding)"""
    import jax.numpy as jnp
    from cr.sparse import fom, opt
    A = mat(nm)
    m, n = A.shape
    fs = {'l1': (opt.prox_l1(), lambda u: np.sum(np.abs(u)), lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)),
          'l1w': (opt.prox_l1(0.4), lambda u: 0.4 * np.sum(np.abs(u)), lambda v, t: np.sign(v) * np.maximum(np.abs(v) - 0.4 * t, 0)),
          'zero': (opt.prox_zero(), lambda u: 0., lambda v, t: v)}
    for fl, (pf, val, pr) in fs.items():
        for mu in (1., 0.3, 4.):
            for xl, x0 in (('0', np.zeros(n)), ('g', gen(n, 4))):
                sd = fom.smooth_dual(pf, mu, jnp.asarray(x0))
                for lab, y in meas(A, False):
                    if lab[0] in '345':
                        continue
                    v = A.T @ y
                    with ctx.case(f'smooth_dual {nm} f={fl} mu={mu} x0={xl} at={lab}') as c:
                        u = pr(x0 + mu * v, mu)
                        w = -(v @ u - val(u) - 0.5 / mu * np.sum((u - x0) ** 2))
                        g, f = sd.grad_val(jnp.asarray(v))
                        ctx.execs(3)
                        c.state(f, g)
                        c.close(f, w, 'value of the smoothed conjugate')
                        c.close(g, -u, 'gradient of the smoothed conjugate')
                        c.close(sd.func(jnp.asarray(v)), w, 'value alone')
                        c.close(sd.grad(jnp.asarray(v)), -u, 'gradient alone')
    op = _op(A)
    if m < n:
        with ctx.case(f'bp_scd {nm} dual start of the size of the measurements') as c:
            fom.bp_scd(op, jnp.asarray(gen(m, 1)), 1., jnp.zeros(n), jnp.zeros(m))
        with ctx.case(f'dantzig_scd {nm} returns a point of the documented problem') as c:
            y = gen(m, 1)
            dl = 0.2
            s = fom.dantzig_scd(op, jnp.asarray(y), dl, 1., jnp.zeros(n), jnp.zeros(n))
            cand = [np.asarray(s.x), np.asarray(s.z), -np.asarray(s.g_Ax)]
            viol = [np.max(np.abs(A.T @ (A @ x - y))) for x in cand]
            c.expect(min(viol) <= dl * (1 + 1e-3), 'feasible for the Dantzig selector')


def adm(A, b, model, par, w, nonneg, iters, gamma=1.):
    """iterates of the alternating direction method of YALL1 (dual) for A with orthonormal rows; yields x and the quantities of the stopping test after every iteration"""
    sc = np.max(np.abs(b))
    b = b / sc
    par = par / sc
    mu = np.mean(np.abs(b))
    x = A.T @ b
    z = np.zeros(A.shape[1])
    yield sc * x, None
    for _ in range(iters):
        y = A @ (z - x / mu) + b / mu
        if model == 'l1l2':
            y = y / (1 + par / mu)
        elif model == 'con':
            y = y * max(0., 1 - par / mu / np.linalg.norm(y))
        q = A.T @ y
        z = q + x / mu
        z = np.minimum(z, w) if nonneg else np.clip(z, -w, w)
        xo = x
        x = x - gamma * mu * (z - q)
        r = b - A @ x
        p = np.sum(np.abs(w * x)) + (np.sum(r * r) / (2 * par) if model == 'l1l2' else 0.)
        d = b @ y - (0.5 * par * (y @ y) if model == 'l1l2' else par * np.linalg.norm(y) if model == 'con' else 0.)
        with np.errstate(all='ignore'):
            yield sc * x, (np.linalg.norm(x - xo) / np.linalg.norm(x), np.linalg.norm(z - q) / np.linalg.norm(z), abs(p - d) / p, np.linalg.norm(r), np.linalg.norm(b), par)


def adm_stop(traj, model, tol):
    """first even iterate at which the method stops; None if that is too close to call or not in the trajectory"""
    for k in range(2, len(traj), 2):
        chg, rd, gap, nr, nb, par = traj[k][1]
        if np.max(np.abs(traj[k][0])) <= 1e-9 * np.max(np.abs(traj[0][0])):
            return None   # relative changes of a zero iterate are rounding errors
        t = [(chg, tol * (1. if model == 'con' else 0.9)), (rd, tol), (gap, tol)] + ([] if model == 'l1l2' else [(nr, tol * nb if model == 'bp' else par * (1 + tol))])
        if not all(np.isfinite(v) for v, _ in t) or any(abs(v - l) <= 1e-6 * l + 1e-13 for v, l in t):
            return None
        if t[0][0] <= t[0][1] or all(v <= l for v, l in t[1:]):
            return k
    return None


def yall1(ctx, nm, model, th):
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    from cr.sparse.cvx.adm import yall1 as S
    from mc.l1oracle import L1, bp_opt
    A = mat(nm)
    op = lop.jit(_op(A))
    m, n = A.shape
    Q = np.linalg.qr(genm(n, n, 21))[0]
    Wop = lop.jit(_op(Q))
    wts = np.linspace(0.5, 2, n)
    variants = [('plain', {}, None, False), ('weights', dict(weights=jnp.asarray(wts)), wts, False),
                ('nonneg', dict(nonneg=True), None, True), ('W', dict(W=Wop), None, False),
                ('nonneg weights', dict(nonneg=True, weights=jnp.asarray(wts)), wts, True), ('W weights', dict(W=Wop, weights=jnp.asarray(wts)), wts, False),
                ('gamma', dict(gamma=1.5), None, False), ('nonneg gamma', dict(nonneg=True, gamma=1.5), None, True), ('start', dict(x0=jnp.asarray(gen(n, 3)), z0=jnp.asarray(0.1 * gen(n, 9))), None, False), ('nojit', dict(jit=False), None, False)]
    for vn, kw, w, nn in variants:
        for li, (lab, y) in enumerate(meas(A, th)):
            rare = vn[0] == 'W' or vn in ('gamma', 'nonneg gamma', 'start', 'nojit')
            if rare and li % (7 if vn == 'W' else 11 if model != 'con' else 23):
                continue
            if model == 'con' and not th and li % 5:
                continue  # the constraint level is compiled in: every run compiles
            AA = A @ Q if vn[0] == 'W' else A
            o = L1(AA, y, w=w, nonneg=nn)
            if nn and model != 'l1l2' and not set(lab) <= set('0123456789+'):
                continue  # without a non-negative solution the iteration may stall at zero
            for fr in ((0.,) if model == 'bp' else (0.05, 0.4, 1.3) if li % 4 or rare else (0.05, 0.4, 0.97, 1.02, 1.3)):
                par = 0. if model == 'bp' else float(fr * (o.lam_max if model == 'l1l2' else np.linalg.norm(y)))
                if model == 'l1l2' and nn and fr > 1 and par < np.max(np.abs(A.T @ y)):
                    continue
                args = {'bp': {}, 'l1l2': dict(rho=par), 'con': dict(delta=par)}[model]
                ww = np.ones(n) if w is None else w
                traj = None
                for mode, extra in (('default', {}), ('tight', dict(tolerance=1e-7)), ('T', dict(tolerance=-1., max_iters=4000))):
                    if mode == 'T' and (fr > 1 or (rare and li % 2)):
                        continue
                    if mode == 'tight' and (fr > 1 or rare):
                        continue
                    with ctx.case(f'yall1 {model} {nm} {vn} y={lab} level={fr} stop={mode}') as c:
                        s = S.solve(op, jnp.asarray(y), **args, **extra, **kw)
                        ctx.execs()
                        x = np.asarray(s.x)
                        it = int(s.iterations)
                        c.state(x)
                        c.close(s.r, y - A @ x, 'residual', tol=1e-8)
                        v = Q.T @ x if vn[0] == 'W' else x
                        if fr > 1:
                            c.close(x, np.zeros(n), 'zero solution is detected')
                            continue
                        if nn:
                            c.expect(np.min(x) >= 0, 'non-negative')
                        if mode != 'T' and vn != 'start':
                            if traj is None or len(traj) <= it:
                                traj = list(adm(AA, y, model, par, ww, nn, max(it, 60), kw.get('gamma', 1.)))
                            ref = traj[it][0]
                            first = adm_stop(traj, model, extra.get('tolerance', 5e-3))
                            if first is not None:
                                c.expect(it == first, 'stops at the first tested iterate which meets the tolerance', got=it, want=first)
                            c.close(v, np.maximum(ref, 0) if nn else ref, 'x is the iterate of the alternating direction method', tol=1e-7, iterations=it)
                            continue
                        if mode != 'T':
                            continue
                        c.expect(it == 4000, 'runs to the iteration limit if the stopping tests are disabled', it=it)
                        l1 = np.sum(np.abs(v * ww))
                        nr = np.linalg.norm(A @ x - y)
                        if model == 'bp':
                            vs = bp_opt(AA, y, w=w, nonneg=nn)[0]
                            c.expect(nr <= 1e-4 * np.linalg.norm(y), 'feasible', got=float(nr))
                            c.expect(l1 <= vs * (1 + 1e-3), 'l1 norm equals the optimum', got=float(l1), want=vs)
                        elif model == 'l1l2':
                            ps = o.solve(par)[1]
                            c.expect(0.5 * nr ** 2 + par * l1 <= ps * (1 + 1e-4), 'objective equals the optimum', got=float(0.5 * nr ** 2 + par * l1), want=ps)
                        else:
                            vs = o.bpic(par)
                            c.expect(nr <= par * (1 + 1e-4), 'feasible', got=float(nr), want=float(par))
                            c.expect(l1 <= vs * (1 + 1e-3) + 1e-12, 'l1 norm equals the optimum', got=float(l1), want=vs)
    for kw in ({}, dict(W=Wop)):
        with ctx.case(f'yall1 {model} {nm} y=0 {sorted(kw)}') as c:
            s = S.solve(op, jnp.zeros(m), **(dict(rho=0.1) if model == 'l1l2' else dict(delta=0.1) if model == 'con' else {}), **kw)
            c.close(s.x, np.zeros(n), 'zero measurements give zero')


def spgl1_complex(ctx, nm, th):
    """complex sensing matrices; optimality is certified by the duality gap at the returned point"""
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import spgl1 as S
    import cr.sparse.lop as lop
    kind, sh = nm.split()
    m, n = (int(v) for v in sh.split('x'))
    A = genm(m, n, 5 + m, True)
    A = A / np.linalg.norm(A, axis=0) if kind == 'gen' else np.linalg.qr(A.conj().T)[0].conj().T
    op = lop.matrix(jnp.asarray(A))
    ph = np.exp(1j * np.array([0.4, 2.2, 4.0]))
    ys = []
    for k in (1, 2):
        for I in itertools.combinations(range(n), k):
            for q in itertools.product(ph, repeat=k):
                if k == 2 and q[0] != ph[0] and not th:
                    continue
                x = np.zeros(n, complex)
                x[list(I)] = np.array(q) * (1.5, 0.7)[:k]
                ys.append((f'{I} {np.round(np.angle(q), 1)}', A @ x))
    ys += [(f'g{s}', gen(m, s, True)) for s in (1, 2)]
    oo = S.SPGL1Options(max_iters=600)
    jl = jax.jit(lambda b, tau: S.solve_lasso_from(op, b, tau, jnp.zeros(n, complex), options=oo))
    ratios = []
    for lab, y in ys:
        nb = np.linalg.norm(y)
        for tau in (0.2, 1., 2.5):
            with ctx.case(f'spgl1.lasso complex {nm} y={lab} tau={tau}') as c:
                s = jl(jnp.asarray(y), tau)
                ctx.execs()
                x = np.asarray(s.x)
                r = y - A @ x
                c.state(x)
                c.close(s.r, r, 'residual', tol=1e-8)
                c.close(s.g, -A.conj().T @ r, 'gradient', tol=1e-8)
                c.expect(np.sum(np.abs(x)) <= tau * (1 + 1e-7), 'x lies in the l1 ball', got=float(np.sum(np.abs(x))))
                c.expect(int(s.iterations) < 600, 'converged', it=int(s.iterations))
                g = A.conj().T @ r
                gap = tau * np.max(np.abs(g)) - np.real(np.vdot(g, x))
                f = 0.5 * np.sum(np.abs(r) ** 2)
                c.expect(gap <= 3e-4 * max(1, f) or np.linalg.norm(r) <= 2e-4 * nb, 'duality gap', got=float(gap))
        for fr in (0., 0.05, 0.5, 1.5):
            sg = fr * nb
            with ctx.case(f'spgl1.bpic complex {nm} y={lab} sigma={fr}') as c:
                s = S.solve_bp_jit(op, jnp.asarray(y), options=oo) if fr == 0. else S.solve_bpic_jit(op, jnp.asarray(y), sg, options=oo)
                ctx.execs()
                x = np.asarray(s.x)
                r = y - A @ x
                c.state(x)
                c.close(s.r, r, 'residual', tol=1e-8)
                c.close(s.g, -A.conj().T @ r, 'gradient', tol=1e-8)
                c.close(s.r_norm, np.linalg.norm(r), 'residual norm', tol=1e-8)
                c.expect(np.linalg.norm(r) <= sg + 2e-4 * max(1, nb) or int(s.iterations) >= 600, 'residual within sigma', got=float(np.linalg.norm(r)), want=sg)
                l1 = float(np.sum(np.abs(x)))
                if fr > 1:
                    c.close(x, np.zeros(n), 'zero is within sigma of the measurements', tol=1e-8)
                    continue
                # any direction u gives the lower bound Re<y,u> - sigma |u| after scaling to |A^H u|_inf <= 1
                best = 0.
                for u in (r, y, y - A @ (x * 0.9)):
                    d = np.max(np.abs(A.conj().T @ u))
                    if d > 1e-12:
                        best = max(best, float((np.real(np.vdot(u, y)) - sg * np.linalg.norm(u)) / d))
                ratios.append(l1 / best if best > 0 else np.inf)
    with ctx.case(f'spgl1.bpic complex {nm} distribution of the certified suboptimality') as c:
        q = np.quantile(ratios, [0., 0.5, 0.9])
        c.expect(q[0] >= 0.97 and q[1] <= 1.02 and q[2] <= 1.25, 'bulk of the l1 norms equals the optimum', got=str(q))


def spgl1_path(ctx, nm, th):
    """SPGL1 stopped after any number of iterations: feasible iterates, non-monotone descent, stopping rules, budgets"""
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import spgl1 as S
    A = mat(nm)
    op = _op(A)
    m, n = A.shape
    TM = 30 if th else 14
    ys = [(l, y) for i, (l, y) in enumerate(meas(A, th)) if i % (2 if th else 5) == 0 or l in ('g1', 'big', 'small')]
    mem = 3

    def metrics(x, y, tau):
        r = y - A @ x
        f = 0.5 * (r @ r)
        return r, f, abs(r @ (r - y) + tau * np.max(np.abs(A.T @ r))) / max(1, f)

    def near(*pairs):
        return any(abs(a - b) <= 1e-6 * max(abs(a), abs(b)) for a, b in pairs)
    for starts in ('0', 'in', 'out'):
        x0 = {'0': np.zeros(n), 'in': 0.1 * gen(n, 8) / n, 'out': 5 * gen(n, 8)}[starts]
        hist = {}
        for T in range(1, TM + 1):
            oo = S.SPGL1Options(max_iters=T, memory=mem)
            jr = jax.jit(lambda b, tau: S.solve_lasso_from(op, b, tau, jnp.asarray(x0), options=oo))
            for lab, y in ys:
                for tau in (0.2, 1.):
                    with ctx.case(f'spgl1.lasso path {nm} x0={starts} T={T} y={lab} tau={tau}') as c:
                        s = jr(jnp.asarray(y), tau)
                        ctx.execs()
                        x = np.asarray(s.x)
                        k = int(s.iterations)
                        c.state(x)
                        h = hist.setdefault((lab, tau), [])
                        r, f, gap = metrics(x, y, tau)
                        c.expect(np.sum(np.abs(x)) <= tau * (1 + 1e-9), 'every iterate lies in the ball', got=float(np.sum(np.abs(x))), want=tau)
                        c.close(s.r, r, 'residual', tol=1e-8)
                        c.close(s.g, -A.T @ r, 'gradient', tol=1e-8)
                        c.close(s.r_norm, np.linalg.norm(r), 'residual norm', tol=1e-8)
                        c.close(s.r_gap, gap, 'relative duality gap', tol=1e-8)
                        c.close(s.f_past[0], f, 'objective', tol=1e-8)
                        stop = gap <= 1e-4 or np.linalg.norm(r) < 1e-4 * np.linalg.norm(y)
                        amb = near((gap, 1e-4), (np.linalg.norm(r), 1e-4 * np.linalg.norm(y)))
                        if k == T and len(h) == k - 1:
                            h.append((f, int(s.n_ls_iters), stop or amb))
                            c.expect(k < 2 or amb or not h[-2][2], 'continues after a stopping rule has fired', it=k)
                            if k > 1:
                                lim = max(v[0] for v in ([h[0]] * mem + h[:-1])[-mem:])
                                exhausted = int(s.n_ls_iters) - h[-2][1] >= 10
                                c.expect(f <= lim * (1 + 1e-9) + 1e-12 or exhausted, 'objective does not exceed the largest of the remembered ones', got=float(f), want=float(lim))
                        else:
                            c.expect(k < T and (stop or amb), 'stops without a reason', it=k, gap=float(gap))
    # basis pursuit and basis pursuit denoising: budgets and reasons to stop
    for T in tuple(range(1, TM + 1, 3)) + (600,):
        for mv in (5, 9, 20, 50, 100000):
            oo = S.SPGL1Options(max_iters=T, max_matvec=mv)
            if mv < 100000 and T != 600:
                continue
            run = jax.jit(lambda b, sg: S.solve_bpic(op, b, sg, options=oo))
            for lab, y in ys:
                for sc in (1., 1e-4, 1e3) if T == 600 else (1.,):
                    for fr in (0., 0.05, 0.5):
                        yy = y * sc
                        nb = np.linalg.norm(yy)
                        sg = fr * nb
                        with ctx.case(f'spgl1.bpic path {nm} T={T} matvec={mv} scale={sc} y={lab} sigma={fr}') as c:
                            s = run(jnp.asarray(yy), sg)
                            ctx.execs()
                            x = np.asarray(s.x)
                            k, nt, na = int(s.iterations), int(s.n_times), int(s.n_trans)
                            tau = float(s.tau)
                            r, f, gap = metrics(x, yy, tau)
                            nr = np.linalg.norm(r)
                            c.state(x, k)
                            c.close(s.r, r, 'residual', tol=1e-8 * max(1, nb))
                            c.close(s.r_norm, nr, 'residual norm', tol=1e-8 * max(1, nb))
                            c.expect(np.sum(np.abs(x)) <= tau * (1 + 1e-9) + 1e-12, 'x lies in the ball of radius tau', got=float(np.sum(np.abs(x))), want=tau)
                            c.expect(k <= T, 'iteration budget', it=k)
                            # one iteration uses at most 11 + 1 forward and 2 adjoint products
                            c.expect(nt + na < mv + 14, 'operator budget', got=nt + na, want=mv)
                            if k >= T or nt + na >= mv:
                                continue
                            re = abs(nr - sg) / max(1, nr)
                            fe = abs(f - sg ** 2 / 2) / max(1, f)
                            w = 1 + 1e-6
                            c.expect(re <= 1e-4 * w or (gap <= max(1e-4, fe) * w and (nr <= sg * w or nr <= 1e-6 * nb * w)), 'stops without a reason', it=k, gap=float(gap), res=float(re))


def counts(ctx, nm, th):
    """the reported numbers of operator applications are those which were executed"""
    import jax
    import jax.numpy as jnp
    from cr.sparse.cvx import spgl1 as S, l1ls as L
    from cr.sparse.cvx.adm import yall1 as Y
    import cr.sparse.lop as lop
    A = mat(nm)
    base = lop.matrix(jnp.asarray(A))
    n = [0, 0]

    def bump(i):
        n[i] += 1

    def times(x):
        jax.debug.callback(lambda: bump(0))
        return base.times(x)

    def trans(x):
        jax.debug.callback(lambda: bump(1))
        return base.trans(x)
    op = lop.Operator(times=times, trans=trans, shape=base.shape, real=True)
    yj = jnp.zeros(A.shape[0])
    runs = {'l1ls': jax.jit(lambda y, v: L.solve(op, y, v)),
            'spgl1.lasso': jax.jit(lambda y, v: S.solve_lasso(op, y, v)),
            'spgl1.bpic': jax.jit(lambda y, v: S.solve_bpic(op, y, v)),
            'spgl1.bp': jax.jit(lambda y, v: S.solve_bp(op, y))}
    if not nm.startswith('gen'):
        runs.update({'yall1.bp': lambda y, v: Y.solve(op, y), 'yall1.l1l2': lambda y, v: Y.solve(op, y, rho=float(v)),
                     'yall1.con': lambda y, v: Y.solve(op, y, delta=float(v), jit=False)})
    for nme, f in runs.items():
        for li, (lab, y) in enumerate(meas(A, th)):
            if (li % 6 if nme != 'yall1.con' else li % 20) and lab not in ('g1', 'big'):
                continue
            for v in (0.03, 0.3, 1.):
                if nme in ('spgl1.bp', 'yall1.bp') and v < 1:
                    continue
                if nme == 'yall1.con' and v == 1.:
                    continue
                with ctx.case(f'counts {nme} {nm} y={lab} level={v}') as c:
                    jax.effects_barrier()
                    n[:] = [0, 0]
                    s = f(jnp.asarray(y), v)
                    s.x.block_until_ready()
                    jax.effects_barrier()
                    ctx.execs()
                    c.expect(int(s.n_times) == n[0], 'number of forward applications', got=int(s.n_times), want=n[0])
                    c.expect(int(s.n_trans) == n[1], 'number of adjoint applications', got=int(s.n_trans), want=n[1])
                    c.state(np.array([n[0], n[1]]), nme)
    with ctx.case(f'residual, gradient and objective {nm}') as c:
        for s in range(4):
            x, b = gen(A.shape[1], 1 + s), gen(A.shape[0], 5 + s)
            r, g, f = S.compute_rgf(base, jnp.asarray(b), jnp.asarray(x))
            c.close(r, b - A @ x, 'residual')
            c.close(g, -A.T @ (b - A @ x), 'gradient')
            c.close(f, 0.5 * np.sum((b - A @ x) ** 2), 'objective')
            ctx.execs()


def affine(ctx):
    """the affine functions which the first-order methods take"""
    import jax.numpy as jnp
    import cr.sparse.fom as fom
    for m, n in ((1, 1), (2, 3), (3, 2), (4, 4)):
        for cplx in (False, True):
            A, b = genm(m, n, 3, cplx), gen(m, 4, cplx)
            for wb in (True, False):
                with ctx.case(f'affine {m}x{n} cplx={cplx} b={wb}') as c:
                    f = fom.matrix_affine_func(jnp.asarray(A), jnp.asarray(b) if wb else None)
                    for s in (1, 2):
                        x, y = gen(n, s, cplx), gen(m, s + 5, cplx)
                        c.close(f(jnp.asarray(x), 0), A @ x, 'linear part')
                        c.close(f(jnp.asarray(y), 1), A.conj().T @ y, 'adjoint')
                        c.close(f(jnp.asarray(x), 2), A @ x + (b if wb else 0), 'affine map')
                        ctx.execs(3)
    for n in (1, 3):
        b = gen(n, 4)
        with ctx.case(f'affine translation n={n}') as c:
            x = gen(n, 2)
            for v in (b, None):
                f = fom.matrix_affine_func(None, v if v is None else jnp.asarray(v))
                for mode, ref in ((0, x), (1, x), (2, x if v is None else x + v)):
                    c.close(f(jnp.asarray(x), mode), ref, f'identity matrix, mode {mode}, b={v is not None}')
