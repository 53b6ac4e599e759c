"""Smooth functions: values, gradients and their combinations are consistent."""
import itertools
import numpy as np
from mc.core import Task

ID = 'P10'
RULE = ('Every smooth function constructor x every listed parameter set x every point of the grid {-2,-0.5,0,1,3}^n (n=1..3, 4 in thorough; positive grids and SPD '
        'matrices where the domain asks for them), alone and under every chain of transformations (translation, rebuilding from value, from value '
        'and gradient, from all three, mode evaluator) up to depth 2: value = reference formula, gradient = reference = central difference of the value, combined evaluation = both. '
        'A state is a distinct (value, gradient).')
ASSUME = ['quadratic forms have symmetric matrices; log-determinants are evaluated at symmetric positive definite points']
G = (-2., -0.5, 0., 1., 3.)


def tasks(tier):
    th = tier == 'thorough'
    ns = (1, 2, 3, 4) if th else (1, 2, 3)
    ts = []
    for k in ('constant', 'entropy', 'huber', 'linear', 'quad', 'quaderr', 'logdet'):
        for n in ns:
            ts.append(Task(f'{k} n={n}', 'run', dict(kind=k, n=n), cost=5 ** n))
    ts.append(Task('nd', 'nd', {}, cost=20))
    ts.append(Task('modes', 'modes', {}, cost=20))
    return ts


def fmt(p):
    return '[' + ','.join(f'{v:.4g}' for v in np.ravel(p)) + ']'


def points(kind, n):
    if kind == 'logdet':
        r = []
        for s in range(12):
            B = np.array([[np.cos(1.3 * i + 2.1 * j + s) for j in range(n)] for i in range(n)])
            r.append(B @ B.T + np.eye(n) * (0.3 + 0.2 * (s % 3)))
        return r
    if kind == 'entropy':
        P = [np.array(p) for p in itertools.product((0.05, 0.3, 1., 2.5), repeat=n)] + [np.geomspace(1e-9, 50., n + 1)[1:], np.geomspace(1e3, 1e-6, n)]
        return P
    P = [np.array(p) + 0.0071 for p in itertools.product(G, repeat=n)]
    return P + [np.linspace(-1.7, 2.3, n), 30 * np.cos(np.arange(1, n + 1)), 1e5 * np.cos(np.arange(2, n + 2)), 1e-5 * np.cos(np.arange(3, n + 3))]


def funcs(kind, n):
    import cr.sparse.opt as opt
    c = np.cos(np.arange(n) * 1.3) + 0.25
    if kind == 'constant':
        for v in (0., 2.5, -1):
            yield f'constant {v}', opt.smooth_constant(v), lambda x, v=v: float(v), lambda x: np.zeros_like(x)
        yield 'constant default', opt.smooth_constant(), lambda x: 0., lambda x: np.zeros_like(x)
    if kind == 'entropy':
        for lab, f in (('entropy', opt.smooth_entropy()), ('entropy_vg', opt.smooth_entropy_vg())):
            yield lab, f, lambda x: -np.sum(x * np.log(x)), lambda x: -np.log(x) - 1
    if kind == 'huber':
        def hv(x, t):
            a = np.abs(x)
            return np.sum(np.where(a <= t, a * a / (2 * t), a - t / 2))
        for t in (1., 0.2, 2.7):
            yield f'huber {t}', opt.smooth_huber(t), lambda x, t=t: hv(x, t), lambda x, t=t: x / np.maximum(t, np.abs(x))
        yield 'huber default', opt.smooth_huber(), lambda x: hv(x, 1.), lambda x: x / np.maximum(1., np.abs(x))
    if kind == 'linear':
        for D in (0., 3.):
            yield f'linear D={D}', opt.smooth_linear(c, D), lambda x, D=D: c @ x + D, lambda x: c
        yield 'linear', opt.smooth_linear(c), lambda x: c @ x, lambda x: c
    if kind == 'quad':
        B = np.array([[np.cos(1.3 * i + 2.1 * j) for j in range(n)] for i in range(n)])
        Ps = [('I', None), ('spd', B @ B.T), ('indef', B + B.T)]
        for (lp, Pm), (lq, q), (lr, r) in itertools.product(Ps, (('0', None), ('c', c)), (('0', None), ('2', 2.))):
            Pn = np.eye(n) if Pm is None else Pm
            qn = 0 * c if q is None else q
            rn = 0. if r is None else r
            yield f'quad P={lp} q={lq} r={lr}', opt.smooth_quad_matrix(Pm, q, r), \
                lambda x, P=Pn, q=qn, r=rn: 0.5 * x @ P @ x + q @ x + r, lambda x, P=Pn, q=qn: P @ x + q
    if kind == 'quaderr':
        for m in (1, 2, n, n + 2):
            A = np.array([[np.cos(1.3 * i + 2.1 * j + m) for j in range(n)] for i in range(m)])
            b = np.sin(np.arange(m) + 1.)
            yield f'quaderr m={m}', opt.smooth_quad_error(A, b), lambda x, A=A, b=b: 0.5 * np.sum((A @ x - b) ** 2), lambda x, A=A, b=b: A.T @ (A @ x - b)
    if kind == 'logdet':
        C = np.array([[np.cos(1.3 * (i + j)) for j in range(n)] for i in range(n)])
        for q, Cm in itertools.product((1., 2.5), (None, C)):
            C0 = np.zeros((n, n)) if Cm is None else Cm
            yield f'logdet q={q} C={Cm is not None}', opt.smooth_logdet(q, Cm), lambda X, q=q, C=C0: -q * np.linalg.slogdet(X)[1] + np.sum(C * X), \
                lambda X, q=q, C=C0: -q * np.linalg.inv(X) + C


def transforms(depth, shape, positive):
    """chains of transformations; each returns (label, f(SmoothFunction)->SmoothFunction, shift)"""
    import cr.sparse.opt as opt
    size = int(np.prod(shape))
    b1 = (np.abs(np.sin(np.arange(size) + 1.)) * 0.3 + 0.1)
    if len(shape) == 2:
        b1 = np.eye(shape[0]) * 0.4
    else:
        b1 = b1.reshape(shape)
    step = [('translate', lambda f: opt.smooth_func_translate(f, b1), b1),
            ('translate2', lambda f: opt.smooth_func_translate(f, 0.5 * b1), 0.5 * b1),
            ('build', lambda f: opt.smooth_build(f.func), 0 * b1),
            ('build2', lambda f: opt.smooth_build2(f.func, f.grad), 0 * b1),
            ('build3', lambda f: opt.smooth_build3(f.func, f.grad, opt.build_grad_val_func(f.func, f.grad)), 0 * b1)]
    res = [('', lambda f: f, 0 * b1)]
    frontier = res
    for _ in range(depth):
        nxt = []
        for l, t, s in frontier:
            for l2, t2, s2 in step:
                nxt.append((l + '.' + l2, (lambda f, t=t, t2=t2: t2(t(f))), s + s2))
        res = res + nxt
        frontier = nxt
    return res


def run(ctx, kind, n):
    pts = points(kind, n)
    h = 1e-5
    shape = pts[0].shape
    for i, (lab, f0, v, g) in enumerate(funcs(kind, n)):
        for tl, tf, sh in transforms(2 if (i == 0 or kind == 'quad' and i == 7) else (1 if i == 1 else 0), shape, kind == 'entropy'):
            f = tf(f0)
            sub = pts if tl == '' else pts[:: max(1, len(pts) // 5)]
            for x in sub:
                with ctx.case(f'{lab}{tl} n={n} x={fmt(x)}') as c:
                    y = x + sh
                    val = float(f.func(x))
                    gr = np.asarray(f.grad(x))
                    gv = f.grad_val(x)
                    ctx.execs(3)
                    c.state(lab, val, gr)
                    c.close(val, v(y), 'value', tol=1e-9)
                    c.close(gr, g(y), 'gradient', tol=1e-9)
                    c.close(gv[0], gr, 'combined gradient', tol=1e-12)
                    c.close(float(gv[1]), val, 'combined value', tol=1e-12)
                    if (tl == '' or len(sub) < 40) and np.max(np.abs(x)) < 1e3 and (kind != 'entropy' or np.min(x) > 0.01):
                        E = np.eye(x.size).reshape((x.size,) + x.shape)
                        if kind == 'logdet':   # symmetric directions
                            E = np.array([(e + e.T) / 2 for e in E])
                        num = [(float(f.func(x + h * e)) - float(f.func(x - h * e))) / (2 * h) for e in E]
                        c.close(num, [np.sum(gr * e) for e in E], 'gradient is the derivative of the value', tol=1e-5)
        with ctx.case(f'{lab} n={n} integer input') as c:
            if kind != 'logdet':
                xi = np.array([3, 1, 2, 5][:n])
                c.close(float(f0.func(xi)), v(xi.astype(float)), 'integer value', tol=1e-9)
                c.close(f0.grad(xi), g(xi.astype(float)), 'integer gradient', tol=1e-9)
    if kind == 'entropy':
        for lab, f0, v, g in funcs(kind, n):
            for x in itertools.product((-1., 0., 0.5, 3.), repeat=n):
                x = np.array(x)
                with ctx.case(f'{lab} domain {fmt(x)}') as c:
                    val, gv = float(f0.func(x)), f0.grad_val(x)
                    if np.any(x < 0):
                        c.expect(val == -np.inf, 'minus infinity outside the domain')
                        c.expect(np.all(np.isnan(np.asarray(f0.grad(x)))), 'no gradient outside the domain')
                        c.expect(float(gv[1]) == -np.inf and np.all(np.isnan(np.asarray(gv[0]))), 'combined outside')
                    else:
                        w = -np.sum(np.where(x > 0, x * np.log(np.where(x > 0, x, 1)), 0))
                        c.close(val, w, 'entropy with 0 log 0 = 0', tol=1e-9)
                        c.close(float(gv[1]), w, 'combined value', tol=1e-9)


def nd(ctx):
    """functions of matrices"""
    import cr.sparse.opt as opt
    for s in range(8):
        X = np.array([[np.cos(1.3 * i + 2.1 * j + s) * 2 for j in range(3)] for i in range(2)])
        C = np.array([[np.sin(i + 2.1 * j + s) for j in range(3)] for i in range(2)])
        with ctx.case(f'nd {s}') as c:
            a = np.abs(X)
            c.close(opt.smooth_huber(0.7).func(X), np.sum(np.where(a <= 0.7, a * a / 1.4, a - 0.35)), 'huber of a matrix')
            c.close(opt.smooth_huber(0.7).grad(X), X / np.maximum(0.7, a), 'huber gradient of a matrix')
            c.close(opt.smooth_linear(C, 1.).func(X), np.sum(C * X) + 1, 'linear function of a matrix')
            c.close(opt.smooth_quad_matrix().func(X), 0.5 * np.sum(X * X), 'squared norm of a matrix')
            c.close(opt.smooth_quad_matrix(q=C).grad(X), X + C, 'quadratic gradient of a matrix')
            c.close(opt.smooth_entropy().func(a + 0.1), -np.sum((a + 0.1) * np.log(a + 0.1)), 'entropy of a matrix')
            c.close(opt.smooth_entropy().grad(a + 0.1), -np.log(a + 0.1) - 1, 'entropy gradient of a matrix')


def modes(ctx):
    import cr.sparse.opt as opt
    import jax.numpy as jnp
    op = opt.smooth_value_grad(lambda x: jnp.sum(x ** 3), lambda x: 3 * x ** 2)
    for x in itertools.product(G, repeat=2):
        x = np.array(x)
        with ctx.case(f'mode {fmt(x)}') as c:
            c.close(float(op(x)), np.sum(x ** 3), 'default mode is the value')
            c.close(float(op(x, 0)), np.sum(x ** 3), 'mode 0')
            c.close(op(x, 1), 3 * x ** 2, 'mode 1')
            v, g = op(x, 2)
            c.close(float(v), np.sum(x ** 3), 'mode 2 value')
            c.close(g, 3 * x ** 2, 'mode 2 gradient')
