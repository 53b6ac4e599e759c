"""Projectors are the Euclidean projections onto their sets; indicators decide membership."""
import itertools
import numpy as np
from mc.core import Task

ID = 'P08'
RULE = ('Every projector/indicator constructor x every listed parameter set (radii, centres, bounds scalar/vector/one sided, affine systems, cones) x '
        'every point of a grid of {-2,-0.5,0,1,3}^n, n=1..3 (4 in thorough), plus two level vectors with n=7 (5,7,8 in thorough), exact boundary points, near-boundary points, large/small scale points and integer/float32/list inputs: the real '
        'projector is executed and compared with a reference projection computed independently, with the obtuse angle characterisation against '
        'all grid points of the set, with idempotence and with non-expansiveness over consecutive pairs; indicators are compared with exact membership. '
        'A state is a distinct projection.')
ASSUME = ['points within 1e-9 (relative) of the boundary are not used to decide membership', 'affine systems have full row rank',
          'l1 ball projections take real vectors']
G = (-2., -0.5, 0., 1., 3.)


def tasks(tier):
    th = tier == 'thorough'
    ns = (1, 2, 3, 4) if th else (1, 2, 3)
    ts = []
    for kind in ('zero', 'identity', 'singleton', 'affine', 'box', 'conic', 'l1', 'l2', 'simple', 'boxaffine'):
        for n in ns:
            ts.append(Task(f'{kind} n={n}', 'run', dict(kind=kind, n=n, th=th), cost=5 ** n))
    for kind in ('singleton', 'affine', 'box', 'conic', 'l1', 'l2'):
        for n in (5, 7, 8) if th else (7,):
            ts.append(Task(f'{kind} n={n}', 'run', dict(kind=kind, n=n, th=False), cost=60))
    ts.append(Task('closed sets', 'closed', {}, cost=20))
    ts.append(Task('f32', 'f32', {}, x64=False, cost=60))
    return ts


def grid(n, th=False):
    if n > 4:      # all words with at most two distinct runs per alphabet pair
        P = []
        for a, b in itertools.permutations(G, 2):
            for k in range(n):
                v = np.full(n, b)
                v[:k + 1] = a
                P.append(v)
        P = P[::2] + [0.05 * v * (1 + 0.1 * np.arange(n)) for v in P[::5]]
    else:
        P = [np.array(p) for p in itertools.product(G, repeat=n)]
    extra = [np.linspace(-1.7, 2.3, n), np.linspace(5.1, -4.7, n), 1e3 * np.cos(np.arange(1, n + 1)), 1e-3 * np.sin(np.arange(1, n + 1)) + 1e-4,
             np.full(n, 0.7), -np.full(n, 0.3)]
    return P + extra


# ---- reference projections --------------------------------------------------

def ref_l1(y, q):
    if np.sum(np.abs(y)) <= q:
        return y
    # breakpoint search (exact): theta such that sum max(|y|-theta,0) = q
    a = np.sort(np.abs(y))
    for i in range(len(a)):
        k = len(a) - i
        th = (a[i:].sum() - q) / k
        if th <= a[i] + 1e-12 and (i == 0 or th >= a[i - 1] - 1e-12):
            return np.sign(y) * np.maximum(np.abs(y) - th, 0)
    raise AssertionError


def ref_conic(v):
    x, t = v[:-1], v[-1]
    nx = np.linalg.norm(x)
    if nx <= t:
        return v
    if nx <= -t:
        return np.zeros_like(v)
    a = (nx + t) / 2
    return np.append(a * x / nx, a)


def sets(kind, n, th):
    """(label, make projector or None, make indicator or None, reference projection, membership margin or exact test)"""
    import cr.sparse.opt as opt
    c = np.cos(np.arange(n) * 1.3) + 0.25
    if kind == 'zero':
        yield 'zero()', opt.proj_zero(), opt.indicator_zero(), lambda x: np.zeros(n), lambda x: 1. if np.all(x == 0) else -1.
    if kind == 'identity':
        yield 'identity()', opt.proj_identity(), None, lambda x: x, lambda x: 1.
    if kind == 'singleton':
        for lab, s in (('scalar', 3.), ('zero', 0.), ('neg', -0.5), ('int', 1)):
            yield f'singleton({lab})', opt.proj_singleton(s), opt.indicator_singleton(s), lambda x, s=s: np.full(n, float(s)), \
                lambda x, s=s: 1. if np.all(x == s) else -1.
        g = np.array(G)[(np.arange(n) * 2 + 1) % 5]
        yield 'singleton(vec)', opt.proj_singleton(g), opt.indicator_singleton(g), lambda x: g, lambda x: 1. if np.all(x == g) else -1.
    if kind == 'affine':
        for m in range(1, n + 1):
            for s in range(2 if not th else 4):
                A = np.array([[np.cos(1.1 * i + 0.7 * j + s) + (1.5 if i == j else 0) for j in range(n)] for i in range(m)])
                for lab, b in (('b', np.sin(np.arange(m) + 1.) * 2), ('1', np.ones(m)), ('big', 50. * np.cos(np.arange(m) + 2.))):
                    def ref(x, A=A, b=b):
                        return x - np.linalg.pinv(A) @ (A @ x - b)

                    def mem(x, A=A, b=b):
                        r = np.linalg.norm(A @ x - b) / np.linalg.norm(b)
                        return 1. if r < 1e-13 else (-1. if r > 1e-7 else 0.)
                    yield f'affine m={m} s={s} {lab}', opt.proj_affine(A, b), opt.indicator_affine(A, b), ref, mem
        # integer system and the null space (b = 0)
        A = np.array([[1. + ((i + j) % 2) for j in range(n)] for i in range(1)])
        yield 'affine b=0 default', opt.proj_affine(A), opt.indicator_affine(A), \
            lambda x: x - np.linalg.pinv(A) @ (A @ x), lambda x: (1. if np.all(A @ x == 0) else (-1. if np.linalg.norm(A @ x) > 1e-6 else 0.))
        Ai = A.astype(int)
        yield 'affine int', opt.proj_affine(Ai, np.array([2])), opt.indicator_affine(Ai, np.array([2])), \
            lambda x: x - np.linalg.pinv(A) @ (A @ x - 2), lambda x: (1. if np.all(A @ x == 2) else (-1. if np.linalg.norm(A @ x - 2) > 1e-6 else 0.))
    if kind == 'box':
        lv = np.array([-1., -0.5, 0., 1.])[(np.arange(n) + n) % 4]
        uv = lv + np.array([0., 1.5, 4.])[np.arange(n) % 3]
        opts = [('l=-0.5', -0.5, None), ('u=1', None, 1.), ('l=-0.5,u=1', -0.5, 1.), ('l=0', 0., None), ('l=u=1', 1., 1.), ('vec', lv, uv), ('lvec', lv, None),
                ('uvec', None, uv), ('lvec,u', lv, 6.), ('l,uvec', -3., uv), ('int', -1, 2), ('inf', -np.inf, 1.)]
        for lab, l, u in opts:
            def ref(x, l=l, u=u):
                return np.clip(x, -np.inf if l is None else l, np.inf if u is None else u)

            def mem(x, l=l, u=u):
                return 1. if (l is None or np.all(x >= l)) and (u is None or np.all(x <= u)) else -1.
            kw = {}
            if l is not None:
                kw['l'] = l
            if u is not None:
                kw['u'] = u
            yield f'box {lab}', opt.proj_box(**kw), opt.indicator_box(**kw), ref, mem
    if kind == 'conic' and n >= 2:
        def mem(x):
            d = x[-1] - np.linalg.norm(x[:-1])
            if np.count_nonzero(x[:-1]) <= 1:
                return 1. if d >= 0 else -1.
            return d if abs(d) > 1e-9 * max(1, np.linalg.norm(x)) else 0.
        yield 'conic', opt.proj_conic(), opt.indicator_conic(), ref_conic, mem
    if kind == 'l1':
        for q in (1., 0.25, 2.5, 4.):
            yield f'l1 q={q}', opt.proj_l1_ball(q=q), opt.indicator_l1_ball(q=q), lambda x, q=q: ref_l1(x, q), \
                lambda x, q=q: marg(q - np.sum(np.abs(x)), x)
            yield f'l1 q={q} b', opt.proj_l1_ball(q=q, b=c), opt.indicator_l1_ball(q=q, b=c), lambda x, q=q: c + ref_l1(x - c, q), \
                lambda x, q=q: marg(q - np.sum(np.abs(x - c)), x)
        yield 'l1 default', opt.proj_l1_ball(), opt.indicator_l1_ball(), lambda x: ref_l1(x, 1.), lambda x: marg(1 - np.sum(np.abs(x)), x)
        A = np.array([[np.cos(1.1 * i + 0.7 * j) for j in range(n)] for i in range(n + 1)])
        b = np.sin(np.arange(n + 1.))
        for q in (0.5, 3.):
            yield f'l1 q={q} A', None, opt.indicator_l1_ball(q=q, A=A), None, lambda x, q=q: marg(q - np.sum(np.abs(A @ x)), x)
            yield f'l1 q={q} A b', None, opt.indicator_l1_ball(q=q, A=A, b=b), None, lambda x, q=q: marg(q - np.sum(np.abs(A @ x - b)), x)
    if kind == 'l2':
        def ref(x, q, b=0):
            r = x - b
            nr = np.linalg.norm(r)
            return x if nr <= q else b + r * q / nr
        for q in (1., 0.25, 2.5, 4.):
            yield f'l2 q={q}', opt.proj_l2_ball(q=q), opt.indicator_l2_ball(q=q), lambda x, q=q: ref(x, q), lambda x, q=q: marg(q - np.linalg.norm(x), x)
            yield f'l2 q={q} b', opt.proj_l2_ball(q=q, b=c), opt.indicator_l2_ball(q=q, b=c), lambda x, q=q: ref(x, q, c), \
                lambda x, q=q: marg(q - np.linalg.norm(x - c), x)
        yield 'l2 default', opt.proj_l2_ball(), opt.indicator_l2_ball(), lambda x: ref(x, 1.), lambda x: marg(1 - np.linalg.norm(x), x)
        A = np.array([[np.cos(1.1 * i + 0.7 * j) for j in range(n)] for i in range(n + 1)])
        b = np.sin(np.arange(n + 1.))
        for q in (0.5, 3.):
            yield f'l2 q={q} A', None, opt.indicator_l2_ball(q=q, A=A), None, lambda x, q=q: marg(q - np.linalg.norm(A @ x), x)
            yield f'l2 q={q} A b', None, opt.indicator_l2_ball(q=q, A=A, b=b), None, lambda x, q=q: marg(q - np.linalg.norm(A @ x - b), x)
    if kind == 'simple':
        for r in (1., 0.5, 2.2):
            yield f'project_to_ball r={r}', lambda x, r=r: opt.project_to_ball(x, r), None, \
                lambda x, r=r: x if np.linalg.norm(x) <= r else x * r / np.linalg.norm(x), lambda x: 0.
            yield f'project_to_box r={r}', lambda x, r=r: opt.project_to_box(x, r), None, lambda x, r=r: np.clip(x, -r, r), lambda x: 0.
            yield f'project_to_real_upper_limit {r}', lambda x, r=r: opt.project_to_real_upper_limit(x, r), None, lambda x, r=r: np.minimum(x, r), lambda x: 0.
        yield 'project_to_ball default', opt.project_to_ball, None, lambda x: x if np.linalg.norm(x) <= 1 else x / np.linalg.norm(x), lambda x: 0.
        yield 'project_to_box default', opt.project_to_box, None, lambda x: np.clip(x, -1, 1), lambda x: 0.
    if kind == 'boxaffine':
        a = np.array([1., -2., 0.5, 3.])[:n]
        for lab, l, u in (('box', -1., 1.5), ('l', -0.5 * np.ones(n), None), ('u', None, np.ones(n)), ('none', None, None)):
            for alpha in (0., 1., -2.):
                def mem(x, l=l, u=u, alpha=alpha):
                    if (l is not None and np.any(x < l)) or (u is not None and np.any(x > u)):
                        return -1.
                    d = abs(a @ x - alpha)
                    return 1. if d < 1e-7 else (-1. if d > 1e-5 else 0.)
                yield f'boxaffine {lab} alpha={alpha}', None, opt.indicator_box_affine(l, u, a, alpha), None, mem
        yield 'boxaffine default', None, opt.indicator_box_affine(-1., 3., a), None, \
            lambda x: -1. if np.any(x < -1) or np.any(x > 3) else (1. if abs(a @ x) < 1e-7 else (-1. if abs(a @ x) > 1e-5 else 0.))


def marg(d, x):
    return d if abs(d) > 1e-9 * max(1., np.max(np.abs(x))) else 0.


def run(ctx, kind, n, th):
    pts = grid(n, th)
    for lab, proj, ind, ref, mem in sets(kind, n, th):
        inside = [p for p in pts if mem(p) > 0]
        members = inside + ([ref(p) for p in pts[::3]] if ref is not None else [])
        if proj is not None:
            prev = None
            M = np.array(members)
            near = []
            for p in pts[::3]:
                w = ref(p)
                d = np.linalg.norm(p - w)
                if d > 0.05:
                    near += [w + e * (p - w) / d for e in (4e-3, 2e-5)]
            for p in pts + near:
                with ctx.case(f'proj {lab} n={n} x={fmt(p)}') as c:
                    z = np.asarray(proj(p))
                    ctx.execs()
                    c.state(lab, z)
                    tol = 2e-6 if kind == 'l2' else 1e-9
                    w = ref(p)
                    c.close(z, w, 'projection equals the nearest point of the set', tol=tol)
                    sc = max(1., np.max(np.abs(p)))
                    if len(M) and kind != 'simple':
                        c.expect(np.max((M - z) @ (p - z)) <= 1e-5 * sc * sc, 'no member of the set is nearer (obtuse angle)')
                    c.close(proj(z), z, 'projection is idempotent', tol=tol)
                    if prev is not None:
                        c.expect(np.linalg.norm(z - prev[1]) <= np.linalg.norm(p - prev[0]) + 1e-5, 'projection is non-expansive')
                    prev = (p, z)
            with ctx.case(f'proj {lab} n={n} input kinds') as c:
                p = np.array([2, -3, 1, 4, 0, -1, 5, 2][:n])
                c.close(proj(p), ref(p.astype(float)), 'integer input', tol=2e-6)
                import jax
                c.close(jax.jit(proj)(p.astype(float)), ref(p.astype(float)), 'compiled', tol=2e-6)
                if kind != 'simple':
                    c.close(proj([float(v) for v in p]), ref(p.astype(float)), 'list input', tol=2e-6)
        if ind is not None:
            bd = []
            if ref is not None and kind in ('box', 'singleton', 'zero'):
                bd = [ref(p) for p in pts[::2]]
                bd = bd + [b + 1e-6 for b in bd] + [b - 1e-6 for b in bd]
            if ref is not None and kind == 'affine':
                for p in pts[::2]:
                    w = ref(p)
                    if np.linalg.norm(w - p) > 1e-3:
                        bd.append(w + 1e-4 * (p - w) / np.linalg.norm(p - w))
                        bd.append(w + 1e-5 * (p - w) / np.linalg.norm(p - w))
            if ref is not None and kind in ('l1', 'l2', 'conic'):
                for p in pts:
                    w = ref(p)
                    if np.linalg.norm(w - p) > 1e-3:
                        u = (p - w) / np.linalg.norm(p - w)
                        bd += [w + 1e-6 * u, w - 1e-6 * u]
            ok_pts = []
            if kind == 'affine' and 'default' not in lab:
                ok_pts = [ref(ref(p)) for p in pts[:60]]
            for p in pts + bd:
                s = mem(p)
                if s == 0:
                    continue
                with ctx.case(f'indicator {lab} n={n} x={fmt(p)}') as c:
                    v = float(ind(p))
                    ctx.execs()
                    c.state('i', lab, v)
                    c.expect(v == (0. if s > 0 else np.inf), 'indicator is 0 inside and +infinity outside', got=v, inside=bool(s > 0))
            for p in ok_pts:
                with ctx.case(f'indicator {lab} n={n} member={fmt(p)}') as c:
                    v = float(ind(p))
                    ctx.execs()
                    c.expect(v == 0., 'indicator is 0 on a solution of the system', got=v)
            with ctx.case(f'indicator {lab} n={n} input kinds') as c:
                p = np.array([1, 0, 3, -2, 2, 0, -1, 1][:n])
                s = mem(p.astype(float))
                if s:
                    c.expect(float(ind(p)) == (0. if s > 0 else np.inf), 'integer input')
    if kind == 'simple':
        import cr.sparse.opt as opt
        for z in itertools.product((1 + 2j, -0.3j, 0.2, -2. + 0.1j), repeat=n):
            z = np.array(z)
            with ctx.case(f'complex {fmt(z)}') as c:
                nz = np.linalg.norm(z)
                c.close(opt.project_to_ball(z, 1.5), z if nz <= 1.5 else z * 1.5 / nz, 'complex ball')
                c.close(opt.project_to_box(z, 0.5), np.where(np.abs(z) > 0.5, z * 0.5 / np.maximum(np.abs(z), 1e-300), z), 'complex box')
                c.close(opt.project_to_real_upper_limit(z, 0.4), np.minimum(z.real, 0.4), 'real upper limit')
    if kind == 'l2':
        import cr.sparse.opt as opt
        for q in (0, -1.):
            with ctx.case(f'l2 invalid radius {q}') as c:
                for f in (opt.proj_l2_ball, opt.indicator_l2_ball):
                    try:
                        f(q=q)
                        c.fail('non positive radius accepted')
                    except ValueError:
                        pass
    if kind == 'box' and n == 1:
        import cr.sparse.opt as opt
        with ctx.case('box without bounds') as c:
            for f in (opt.proj_box, opt.indicator_box):
                try:
                    f()
                    c.fail('box without bounds accepted')
                except ValueError:
                    pass


def closed(ctx):
    """The sets are closed: points whose distance to the boundary is exactly zero (all quantities dyadic) are members and are left alone."""
    import cr.sparse.opt as opt
    R2 = [np.array(v, dtype=float) for v in ((3, 4), (-4, 3), (0, 5), (-5, 0), (3, -4))]
    R1 = [np.array(v, dtype=float) for v in ((2, 3), (-4, 1), (0, 5), (-5, 0), (2.5, -2.5))]
    S = np.array([[0., 2.], [0.5, 0.]])
    Si = np.linalg.inv(S)
    for name, q, R, ind, proj in (('l2', 5., R2, opt.indicator_l2_ball, opt.proj_l2_ball), ('l1', 5., R1, opt.indicator_l1_ball, opt.proj_l1_ball)):
        for sc in (1., 0.25, 8.):
            for b in (None, np.array([0.5, -2.]), np.array([16., 0.])):
                for A in (None, S):
                    for r in R:
                        with ctx.case(f'closed {name} q={q * sc} b={None if b is None else fmt(b)} A={A is not None} r={fmt(r)}') as c:
                            x = r * sc + (0 if b is None else b)
                            x = x if A is None else Si @ x
                            kw = dict(q=q * sc)
                            if b is not None:
                                kw['b'] = b
                            if A is not None:
                                kw['A'] = A
                            v = float(ind(**kw)(x))
                            ctx.execs()
                            c.state(name, sc, v)
                            c.expect(v == 0., 'a point of the boundary belongs to the ball', got=v)
                            if A is None:
                                c.close(proj(**kw)(x), x, 'a point of the boundary is its own projection', tol=1e-6)
    for v in ((3., 4., 5.), (0., 0., 0.), (-4., 3., 5.), (0., 5., 5.), (0.75, -1., 1.25)):
        with ctx.case(f'closed conic {v}') as c:
            x = np.array(v)
            c.expect(float(opt.indicator_conic()(x)) == 0., 'a point of the boundary belongs to the cone')
            c.close(opt.proj_conic()(x), x, 'a point of the boundary is its own projection', tol=1e-9)
            ctx.execs()


def f32(ctx):
    for kind in ('box', 'l1', 'l2', 'conic', 'affine'):
        n = 3
        for lab, proj, ind, ref, mem in sets(kind, n, False):
            if proj is None or 'big' in lab:
                continue
            for p in grid(n)[::4]:
                if np.max(np.abs(p)) > 100:
                    continue
                with ctx.case(f'f32 proj {lab} x={fmt(p)}') as c:
                    z = np.asarray(proj(p.astype(np.float32)))
                    ctx.execs()
                    c.expect(z.dtype == np.float32, 'single precision in, single precision out')
                    c.close(z, ref(p), 'projection in single precision', tol=2e-4)


def fmt(p):
    return '[' + ','.join(f'{v:.4g}' for v in np.ravel(p)) + ']'
