"""Proximal operators, shrinkage and thresholding minimise their penalised distance; Moreau envelopes."""
import itertools
import numpy as np
from mc.core import Task

ID = 'P09'
RULE = ('Every proximal function constructor and thresholding rule x every listed parameter (scalar, elementwise and sorted weights, radii) x step t x every point of '
        'the grid {-2,-0.5,0,1,3}^n, n=1..3 (4 in thorough), two level vectors with n=7, and the problems scaled by 1e-5 and 1e5: value and proximal point from the real code are compared with reference formulas and with the '
        'strong-convexity inequality t f(p) + |p-x|^2/2 + |z-p|^2/2 <= t f(z) + |z-x|^2/2 for every grid point z (the exact characterisation of a '
        'proximal point of a convex f); non convex thresholds are compared with the minimum over a fine grid. Moreau envelopes: value, gradient and their consistency by central differences. '
        'A state is a distinct proximal point.')
ASSUME = ['steps and weights positive unless stated', 'points within 1e-9 of a discontinuity of a non convex threshold are not used']
G = (-2., -0.5, 0., 1., 3.)
TS = (1., 0.3, 2.5)


def tasks(tier):
    th = tier == 'thorough'
    ts = []
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for kind in ('zero', 'l1', 'l1pos', 'l2', 'l1ball', 'owl1'):
            ts.append(Task(f'prox {kind} n={n}', 'prox', dict(kind=kind, n=n), cost=5 ** n))
        ts.append(Task(f'moreau n={n}', 'moreau', dict(n=n), cost=5 ** n))
    for kind in ('l1', 'l1pos', 'l2', 'l1ball'):
        ts.append(Task(f'prox {kind} n=7', 'prox', dict(kind=kind, n=7), cost=60))
    ts.append(Task('owl1 long', 'owl_long', dict(k=6 if not th else 8), cost=100))
    ts.append(Task('shrink', 'shrinks', {}, cost=50))
    for f in ('hard', 'soft', 'half'):
        ts.append(Task(f'threshold {f}', 'thr', dict(f=f), cost=50))
    ts.append(Task('thresholds percentile', 'perc', {}, cost=50))
    ts.append(Task('build', 'build', {}, cost=10))
    return ts


def fmt(p):
    return '[' + ','.join(f'{v:.4g}' for v in np.ravel(p)) + ']'


def grid(n):
    if n > 4:
        P = []
        for a, b in itertools.permutations(G, 2):
            for k in range(0, n, 2):
                v = np.full(n, b)
                v[:k + 1] = a
                P.append(v * (1 + 0.1 * np.arange(n)))
    else:
        P = [np.array(p) for p in itertools.product(G, repeat=n)]
    return P + [np.linspace(-1.7, 2.3, n), np.linspace(5.1, -4.7, n), 30 * np.cos(np.arange(1, n + 1)), 1e-2 * np.sin(np.arange(1, n + 1)) + 1e-3,
                np.full(n, 0.7), -np.full(n, 0.3)]


def ref_owl(x, w):
    """prox of the sorted l1 norm: pool adjacent violators on |x| sorted, clipped at zero."""
    a = np.abs(x)
    o = np.argsort(-a, kind='stable')
    s = a[o] - w
    blocks = []
    for v in s:
        blocks.append([v, 1])
        while len(blocks) > 1 and blocks[-2][0] <= blocks[-1][0]:
            v2, k2 = blocks.pop()
            v1, k1 = blocks.pop()
            blocks.append([(v1 * k1 + v2 * k2) / (k1 + k2), k1 + k2])
    p = np.concatenate([np.full(k, max(v, 0)) for v, k in blocks])
    r = np.zeros_like(a)
    r[o] = p
    return np.sign(x) * r


def funcs(kind, n):
    """label, ProxCapable, f(z), prox(x, t), set-indicator?"""
    import cr.sparse.opt as opt
    soft = lambda x, k: np.sign(x) * np.maximum(np.abs(x) - k, 0)
    if kind == 'zero':
        yield 'zero', opt.prox_zero(), lambda z: 0., lambda x, t: x
    if kind == 'l1':
        yield 'l1', opt.prox_l1(), lambda z: np.sum(np.abs(z)), lambda x, t: soft(x, t)
        for q in (0.4, 2., 1):
            yield f'l1 q={q}', opt.prox_l1(q), lambda z, q=q: q * np.sum(np.abs(z)), lambda x, t, q=q: soft(x, t * q)
        for qv in (np.array([0.5, 2., 1., 0.1, 0.7, 1.5, 0.2])[:n], np.array([1., 0., 3., 0.5, 0.7, 1.5, 0.2])[:n]):
            yield f'l1 q={fmt(qv)}', opt.prox_l1(qv), lambda z, q=qv: np.sum(q * np.abs(z)), lambda x, t, q=qv: soft(x, t * q)
    if kind == 'l1pos':
        for q in (1., 0.4, 2.):
            yield f'l1pos q={q}', opt.prox_l1_pos(q), lambda z, q=q: q * np.sum(z) if np.all(z >= 0) else np.inf, lambda x, t, q=q: np.maximum(x - t * q, 0)
        qv = np.array([0.5, 2., 1., 0.1, 0.7, 1.5, 0.2])[:n]
        yield 'l1pos qv', opt.prox_l1_pos(qv), lambda z: np.sum(qv * z) if np.all(z >= 0) else np.inf, lambda x, t: np.maximum(x - t * qv, 0)
        yield 'l1pos', opt.prox_l1_pos(), lambda z: np.sum(z) if np.all(z >= 0) else np.inf, lambda x, t: np.maximum(x - t, 0)
    if kind == 'l2':
        def pl2(x, k):
            v = np.linalg.norm(x)
            return np.zeros_like(x) if v <= k else x * (1 - k / v)
        yield 'l2', opt.prox_l2(), lambda z: np.linalg.norm(z), lambda x, t: pl2(x, t)
        for q in (0.4, 2., 3):
            yield f'l2 q={q}', opt.prox_l2(q), lambda z, q=q: q * np.linalg.norm(z), lambda x, t, q=q: pl2(x, t * q)
    if kind == 'l1ball':
        from mc.props.p08_convex_sets import ref_l1
        for q in (1., 0.3, 2.6):
            yield f'l1ball q={q}', opt.prox_l1_ball(q), lambda z, q=q: 0. if np.sum(np.abs(z)) <= q * (1 + 1e-12) else np.inf, lambda x, t, q=q: ref_l1(x, q)
        yield 'l1ball', opt.prox_l1_ball(), lambda z: 0. if np.sum(np.abs(z)) <= 1 + 1e-12 else np.inf, lambda x, t: ref_l1(x, 1.)
    if kind == 'owl1':
        ws = [('dec', np.array([2., 1., 0.5, 0.25])[:n]), ('flat', np.array([1., 1., 1., 1.])[:n]), ('zero tail', np.array([1.5, 0., 0., 0.])[:n]),
              ('steep', np.array([3., 2.5, 0.1, 0.])[:n])]
        for lab, w in ws:
            yield f'owl1 {lab}', opt.prox_owl1(w), lambda z, w=w: np.sum(w * np.sort(np.abs(z))[::-1]), lambda x, t, w=w: ref_owl(x, t * w)
        yield 'owl1 scalar', opt.prox_owl1(0.7), lambda z: 0.7 * np.sum(np.abs(z)), lambda x, t: soft(x, t * 0.7)


def prox(ctx, kind, n):
    pts = grid(n)
    Z = np.array(pts)
    for lab, pf, f, ref in funcs(kind, n):
        fz = np.array([f(z) for z in pts])
        for z, v in zip(pts, fz):
            if kind == 'l1ball' and abs(np.sum(np.abs(z)) - 1) < 1e-9:
                pass
            with ctx.case(f'{lab} n={n} value x={fmt(z)}') as c:
                c.close(float(pf.func(z)), v, 'function value', tol=1e-10)
                ctx.execs()
        for t in TS:
            for x in pts:
                with ctx.case(f'{lab} n={n} t={t} x={fmt(x)}') as c:
                    p = np.asarray(pf.prox_op(x, t))
                    ctx.execs()
                    c.state(lab, p)
                    c.close(p, ref(x, t), 'proximal point', tol=1e-9)
                    if p.shape == x.shape and np.all(np.isfinite(p)):
                        fp = f(p)
                        fin = np.isfinite(fz)
                        # prox of an indicator may sit one rounding error outside
                        fp = 0. if kind == 'l1ball' else fp
                        lhs = t * fp + 0.5 * np.sum((p - x) ** 2) + 0.5 * np.sum((Z[fin] - p) ** 2, axis=1)
                        rhs = t * fz[fin] + 0.5 * np.sum((Z[fin] - x) ** 2, axis=1)
                        c.expect(np.all(lhs <= rhs + 1e-8 * (1 + np.abs(rhs))), 'no grid point has a smaller penalised distance')
                    pv = pf.prox_vec_val(x, t)
                    c.close(pv[0], p, 'prox_vec_val point', tol=1e-12)
                    c.close(float(pv[1]), 0. if kind == 'l1ball' else f(ref(x, t)), 'prox_vec_val value', tol=1e-9)
        if kind != 'l1ball':
            for sc in (1e-5, 1e5):
                for t in (1., 0.3, 0.02):
                    for x in pts[::3]:
                        with ctx.case(f'{lab} n={n} scaled by {sc} t={t} x={fmt(x)}') as c:
                            p = np.asarray(pf.prox_op(sc * x, sc * t))
                            ctx.execs()
                            c.state(lab, sc, p / sc)
                            c.close(p / sc, ref(x, t), 'proximal point of a scaled problem', tol=1e-9)
        with ctx.case(f'{lab} n={n} input kinds') as c:
            xi = np.array([3, -1, 2, 0, 1, -2, 4][:n])
            c.close(pf.prox_op(xi, 0.5), ref(xi.astype(float), 0.5), 'integer input', tol=1e-9)
            c.close(float(pf.func(xi)), f(xi.astype(float)), 'integer value', tol=1e-9)
            if kind == 'l1' or kind == 'l2':
                xc = np.exp(1j * np.arange(1, n + 1)) * np.array([2., 0.1, 1.3, 3., 0.2, 0.7, 1.])[:n]
                pc = np.asarray(pf.prox_op(xc, 0.5))
                ph = np.exp(1j * np.arange(1, n + 1))
                c.close(pc, ref(np.abs(xc), 0.5) * ph, 'complex input', tol=1e-9)


def owl_long(ctx, k):
    """sorted l1: every vector over a small alphabet of length k, every weight profile; exercises pooling"""
    import cr.sparse.opt as opt
    for lab, w in (('lin', np.linspace(k, 1, k)), ('two', np.r_[np.full(k // 2, 3.), np.full(k - k // 2, 1.)]), ('geo', 4. * 0.5 ** np.arange(k))):
        pf = opt.prox_owl1(w)
        import jax
        op = jax.jit(pf.prox_op)
        for x in itertools.product((4., 3.9, -4.5, 1.), repeat=k):
            x = np.array(x)
            with ctx.case(f'owl1 long {lab} {fmt(x)}') as c:
                p = np.asarray(op(x, 1.))
                ctx.execs()
                c.state(lab, p)
                c.close(p, ref_owl(x, w), 'proximal point of the sorted l1 norm', tol=1e-9)


def moreau(ctx, n):
    import cr.sparse.opt as opt
    pts = [p + 0.0137 * (1 + np.arange(n)) for p in grid(n)]
    for kind in ('zero', 'l1', 'l2', 'l1ball', 'l1pos', 'owl1'):
        for i, (lab, pf, f, ref) in enumerate(funcs(kind, n)):
            if i > 1:
                break
            for mu in (1., 0.5, 3.):
                env = opt.moreau_envelope(pf, mu)

                def val(x):
                    p = ref(x, mu)
                    return (0. if kind == 'l1ball' else f(p)) + np.sum((p - x) ** 2) / (2 * mu)
                for x in pts:
                    with ctx.case(f'moreau {lab} mu={mu} n={n} x={fmt(x)}') as c:
                        v = float(env.func(x))
                        g = np.asarray(env.grad(x))
                        g2, v2 = env.grad_val(x)
                        ctx.execs(3)
                        c.state(lab, mu, v, g)
                        c.close(v, val(x), 'envelope value is the minimum of f(z)+|z-x|^2/(2 mu)', tol=1e-9)
                        c.close(g, (x - ref(x, mu)) / mu, 'envelope gradient', tol=1e-9)
                        c.close(float(v2), v, 'grad_val value agrees', tol=1e-12)
                        c.close(g2, g, 'grad_val gradient agrees', tol=1e-12)
                        h = 1e-5
                        num = np.array([(float(env.func(x + h * e)) - float(env.func(x - h * e))) / (2 * h) for e in np.eye(n)])
                        c.close(num, g, 'gradient is the derivative of the value', tol=2e-4)


def shrinks(ctx):
    import cr.sparse.opt as opt
    for a in grid(2):
        for k in (0., 0.3, 1., 4.):
            with ctx.case(f'shrink {fmt(a)} {k}') as c:
                z = np.asarray(opt.shrink(a, k))
                c.state(z)
                c.close(z, np.sign(a) * np.maximum(np.abs(a) - k, 0), 'shrink', tol=1e-12)
    for a in grid(3)[::3]:
        with ctx.case(f'shrink weights {fmt(a)}') as c:
            k = np.array([0.1, 1., 2.])
            c.close(opt.shrink(a, k), np.sign(a) * np.maximum(np.abs(a) - k, 0), 'elementwise shrink', tol=1e-12)


def thr(ctx, f):
    import cr.sparse.geo as geo
    xs = np.array([-5., -3.2, -2.1, -1.3, -0.9, -0.45, -0.1, 0., 0.05, 0.33, 0.71, 1.1, 1.9, 2.4, 4.7, 30.])
    zs = np.arange(-40, 40, 0.002)
    fn = getattr(geo, f + '_threshold')
    fj = getattr(geo, f + '_threshold_jit')
    for tau in (0.1, 0.5, 1., 2., 3.7):
        if f == 'soft':
            w = np.sign(xs) * np.maximum(np.abs(xs) - tau, 0)
            obj = lambda z, x: 0.5 * (z - x) ** 2 + tau * np.abs(z)
        elif f == 'hard':
            w = np.where(np.abs(xs) > np.sqrt(2 * tau), xs, 0)
            obj = lambda z, x: 0.5 * (z - x) ** 2 + tau * (z != 0)
        else:
            w = None
            obj = lambda z, x: (z - x) ** 2 + tau * np.sqrt(np.abs(z))
        for shape in ((16,), (4, 4)):
            with ctx.case(f'{f}_threshold tau={tau} shape={shape}') as c:
                got = np.asarray(fn(xs.reshape(shape), tau))
                gj = np.asarray(fj(xs.reshape(shape), tau))
                ctx.execs(2)
                c.state(f, got)
                c.close(gj, got, 'compiled form agrees', tol=1e-12)
                if w is not None:
                    c.close(got, w.reshape(shape), 'threshold', tol=1e-12)
                c.expect(got.shape == shape, 'shape')
                for x, z in zip(xs, got.ravel()):
                    best = np.min(np.concatenate([obj(zs, x), [obj(0., x), obj(x, x)]]))
                    c.expect(obj(z, x) <= best + 1e-6, 'thresholded value minimises its penalised distance', x=x, z=z, got=obj(z, x), best=best)
        with ctx.case(f'{f}_threshold tau={tau} integers') as c:
            xi = np.array([-5, 0, 1, 3, 8])
            c.close(fn(xi, tau), fn(xi.astype(float), tau), 'integer data', tol=1e-12)
        if f in ('soft', 'hard'):
            with ctx.case(f'{f}_threshold tau={tau} complex') as c:
                ph = np.exp(1j * np.arange(16))
                g = np.asarray(fn(xs * ph, tau))
                a = np.abs(xs)
                m = np.maximum(a - tau, 0) if f == 'soft' else np.where(a > np.sqrt(2 * tau), a, 0)
                c.close(g, m * np.sign(xs) * ph, 'complex data keep their phase', tol=1e-9)


def perc(ctx):
    import cr.sparse.geo as geo
    xs = np.array([-5., -3.2, -2.1, -1.3, -0.9, -0.45, -0.1, 0.02, 0.05, 0.33, 0.71, 1.1, 1.9, 2.4, 4.7])
    for p in (3, 11, 25, 45, 60, 83, 97):
        g = np.percentile(np.abs(xs), p)
        for f in ('hard', 'soft', 'half'):
            with ctx.case(f'{f} percentile {p}') as c:
                got = np.asarray(getattr(geo, f + '_threshold_percentile')(xs, p))
                gj = np.asarray(getattr(geo, f + '_threshold_percentile_jit')(xs, p))
                ctx.execs(2)
                c.state(f, got)
                c.close(gj, got, 'compiled form agrees', tol=1e-12)
                if np.min(np.abs(np.abs(xs) - g)) < 1e-9:
                    continue
                nz = np.abs(xs) > g
                c.expect(np.array_equal(got != 0, nz), 'exactly the entries above the percentile survive', got=got)
                if f == 'hard':
                    c.close(got, np.where(nz, xs, 0), 'kept entries are unchanged', tol=1e-12)
                if f == 'soft':
                    c.close(got, np.sign(xs) * np.maximum(np.abs(xs) - g, 0), 'soft threshold at the percentile', tol=1e-10)
                if f == 'half':
                    tau = (4. / 54 ** (1. / 3) * g) ** 1.5
                    c.close(got, geo.half_threshold(xs, tau), 'half threshold whose jump is at the percentile', tol=1e-10)
                    c.expect(np.all(np.abs(got) <= np.abs(xs) + 1e-12), 'magnitudes do not grow')
    for g in (0.1, 0.7, 1.9, 5.):
        with ctx.case(f'gamma {g}') as c:
            th, tw = float(geo.gamma_to_tau_half_threshold(g)), float(geo.gamma_to_tau_hard_threshold(g))
            for f, t in (('half', th), ('hard', tw)):
                z = np.asarray(getattr(geo, f + '_threshold')(np.array([g * 1.001, g * 0.999, -g * 1.001, -g * 0.999]), t))
                c.expect(np.array_equal(z != 0, [True, False, True, False]), 'gamma is where the threshold jumps', f=f)


def build(ctx):
    import cr.sparse.opt as opt
    import jax.numpy as jnp
    with ctx.case('prox_build') as c:
        pf = opt.prox_build(lambda x: 0.5 * jnp.sum(x ** 2), lambda x, t: x / (1 + t))
        x = np.array([1., -3.])
        c.close(pf.prox_op(x, 0.5), x / 1.5, 'prox_op')
        c.close(float(pf.func(x)), 5., 'func')
        pv = pf.prox_vec_val(x, 0.5)
        c.close(pv[0], x / 1.5, 'point')
        c.close(float(pv[1]), 0.5 * np.sum((x / 1.5) ** 2), 'value')
    with ctx.case('prox_value_vec') as c:
        op = opt.prox_value_vec(lambda x: 0.5 * jnp.sum(x ** 2), lambda x, t: x / (1 + t))
        x = np.array([1., -3.])
        c.close(float(op(x, 0.5)), 5., 'mode 0')
        c.close(op(x, 0.5, 1), x / 1.5, 'mode 1')
        v, z = op(x, 0.5, 2)
        c.close(z, x / 1.5, 'mode 2 point')
        c.close(float(v), 0.5 * np.sum((x / 1.5) ** 2), 'mode 2 value')
    for lab, mk in (('box', lambda: (opt.indicator_box(-1., 2.), opt.proj_box(-1., 2.), lambda x: np.clip(x, -1, 2))),
                    ('l2', lambda: (opt.indicator_l2_ball(2.), opt.proj_l2_ball(2.), lambda x: x if np.linalg.norm(x) <= 2 else 2 * x / np.linalg.norm(x)))):
        for x in grid(2):
            with ctx.case(f'build_from_ind_proj {lab} {fmt(x)}') as c:
                i, p, r = mk() if x is None else mk_cached(lab, mk)
                pf = i
                c.close(pf.prox_op(x, 0.7), r(x), 'prox of an indicator is the projection', tol=1e-7)
                pv = pf.prox_vec_val(x, 0.7)
                c.close(pv[0], r(x), 'point', tol=1e-7)
                c.close(float(pv[1]), 0., 'value', tol=1e-12)


_C = {}


def mk_cached(lab, mk):
    import cr.sparse.opt as opt
    if lab not in _C:
        i, p, r = mk()
        _C[lab] = (opt.build_from_ind_proj(i, p), None, r)
    return _C[lab]
