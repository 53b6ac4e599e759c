"""Solver table, problem sets and NumPy reference models of the greedy pursuits."""
import itertools
import numpy as np
from mc.opcat import gen, genm, dct2_ortho


def unit(A):
    return A / np.linalg.norm(A, axis=0)


def dictionaries(more=False):
    """name -> (matrix, normalised atoms?)"""
    G = genm(6, 9, 101)
    extra = {} if not more else {
        # pairs of nearly parallel atoms
        'C6x9': (unit(np.hstack([G[:, :5], G[:, :4] + 0.15 * genm(6, 4, 131)])), True),
        'T8x5': (unit(genm(8, 5, 139)), True),
        'G12x20': (unit(genm(12, 20, 137)), True),
    }
    return {**extra,
        'G6x9': (unit(genm(6, 9, 101)), True),
        'G7x9': (unit(genm(7, 9, 113)), True),
        'DC8x16': (np.hstack([np.eye(8), dct2_ortho(8).T]), True),
        'O6x6': (np.linalg.qr(genm(6, 6, 107))[0], True),
        'I6x6': (np.eye(6), True),
        'S6x8': (genm(6, 8, 109) * np.linspace(.6, 1.4, 8), False),
    }


MAGS = [1.0, 1.7, 0.6, 2.3]


def problems(A, k, signs='all', noise=(0.0,), mags=(0,), generic=0, zero=False):
    """all supports of size k x sign patterns x magnitude rotations x noise levels; returns (labels, Y, X)"""
    m, n = A.shape
    labels, Y, X = [], [], []
    e = gen(m, 77)
    for S in itertools.combinations(range(n), k):
        for sg in itertools.product((1., -1.), repeat=k):
            if signs == 'half' and sg[0] < 0:
                continue
            for r in mags:
                v = np.array([MAGS[(i + r) % len(MAGS)] for i in range(k)]) * np.array(sg)
                x = np.zeros(n)
                x[list(S)] = v
                for ns in noise:
                    labels.append(f'S={S} v={[float(t) for t in v]} noise={ns}')
                    X.append(x)
                    Y.append(A @ x + ns * e)
    for g in range(generic):
        labels.append(f'generic{g}')
        X.append(np.full(n, np.nan))
        Y.append(gen(m, 300 + g))
    if zero:
        labels.append('y=0')
        X.append(np.zeros(n))
        Y.append(np.zeros(m))
    return labels, np.array(Y), np.array(X)


def solver(name, A, K, T, rtol=None):
    """Returns a function y -> dict(x, r, rr, it, I, xI) running the public solver `name`."""
    import jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.pursuit import mp, omp, cosamp, sp, iht, htp
    Aj = jnp.asarray(A)
    op = lop.jit(lop.matrix(Aj))
    kw = {} if rtol is None else dict(res_norm_rtol=rtol)
    alg, var = name.split('.')
    tab = dict(cosamp=cosamp, sp=sp, iht=iht, htp=htp, niht=iht, nhtp=htp)
    if alg == 'mp':
        if T is not None:
            kw['max_iters'] = T
        f = (lambda y: mp.matrix_solve(Aj, y, **kw)) if var == 'matrix' else (lambda y: mp.solve(op, y, **kw))
        return lambda y: _mp(f(y))
    if alg == 'omp':
        if var == 'matrix':
            f = lambda y: omp.matrix_solve(Aj, y, T)
        elif var == 'matrix_jit':
            f = lambda y: omp.solve(Aj, y, T)
        else:
            f = lambda y: omp.operator_solve(op, y, T, **kw)
        return lambda y: _rec(f(y))
    mod = tab[alg]
    if alg in ('niht', 'nhtp'):
        kw['normalized'] = True
    if T is not None:
        kw['max_iters'] = T
    fn = {'matrix': mod.matrix_solve, 'matrix_jit': mod.matrix_solve_jit, 'operator': mod.operator_solve,
          'operator_jit': mod.operator_solve_jit, 'solve': mod.solve}[var]
    P = Aj if var.startswith('matrix') else op
    return lambda y: _rec(fn(P, y, K, **kw))


def _rec(s):
    return dict(r=s.r, rr=s.r_norm_sqr, it=s.iterations, I=s.I, xI=s.x_I)


def _mp(s):
    return dict(x=s.x, r=s.r, rr=s.r_norm_sqr, it=s.iterations)


def _dense_out(o, n):
    if 'x' not in o:
        I, v = np.asarray(o['I']), np.asarray(o['xI'])
        x = np.zeros((len(I), n), v.dtype)
        for i in range(len(I)):
            x[i, I[i]] = v[i]
        o['x'] = x
    return o


def run_all(f, Y, n):
    """vmapped + jitted execution of the public solver over all problems"""
    import jax
    import jax.numpy as jnp
    out = jax.jit(jax.vmap(f))(jnp.asarray(Y))
    return _dense_out({k: np.asarray(v) for k, v in out.items()}, n)


def run_name(name, f, Y, n):
    import jax
    alg, var = name.split('.')
    opv = var.startswith('operator') or var == 'solve'
    if alg == 'omp' and opv:
        return run_each(f, Y, n)
    if alg == 'mp' or opv and alg in ('sp', 'cosamp'):
        # these report to a tracker (host callback): compiled once, then one call per problem
        return run_each(jax.jit(f), Y, n)
    return run_all(f, Y, n)


def run_each(f, Y, n):
    """one plain call per problem (for python-level loops)"""
    import jax.numpy as jnp
    outs = [{k: np.asarray(v) for k, v in f(jnp.asarray(y)).items()} for y in Y]
    for o in outs:
        if 'x' not in o:
            x = np.zeros(n, o['xI'].dtype)
            x[o['I']] = o['xI']
            o['x'] = x
    return {k: [o[k] for o in outs] for k in outs[0]} if outs else {}


# ---- reference models -------------------------------------------------------

class Tie(Exception):
    """the model met a selection whose margin is below rounding"""


def top(h, K):
    a = np.abs(h)
    o = np.argsort(a, kind='stable')[::-1]
    if K < len(a):
        hi, lo = a[o[K - 1]], a[o[K]]
        if hi > 1e-11 and hi - lo < 1e-9 * max(1., hi):
            raise Tie()
    return o[:K]


def lsq(A, y):
    return np.linalg.lstsq(A, y, rcond=None)[0]


def near(r2, thr2):
    if thr2 > 0 and abs(r2 - thr2) < 1e-6 * thr2:
        raise Tie()
    return r2 > thr2


def m_mp(A, y, K, T, rtol=1e-4):
    n = A.shape[1]
    x, r, it = np.zeros(n), y.copy(), 0
    thr = rtol ** 2 * (y @ y)
    while it < T and near(r @ r, thr):
        h = A.T @ r
        i = top(h, 1)[0]
        x[i] += h[i]
        r = r - h[i] * A[:, i]
        it += 1
    return x, r, it


def m_omp(A, y, K, T, rtol=None):
    n = A.shape[1]
    I, r = [], y.copy()
    x = np.zeros(n)
    yy = y @ y
    for it in range(1, T + 1):
        h = A.T @ r
        h[I] = 0
        if np.max(np.abs(h)) > 1e-9:
            i = top(h, 1)[0]
            I.append(i)
            xI = lsq(A[:, I], y)
            x = np.zeros(n)
            x[I] = xI
            r = y - A @ x
        if rtol is not None and not near(r @ r, rtol ** 2 * yy):
            return x, r, it
    return x, r, T


def _wrap(A, y, K, step, init, T, rtol, stable):
    yy = y @ y
    thr = rtol ** 2 * yy
    I, x, r = init()
    Ip, it = list(range(K)), 1
    mi = min(3 * K, 20)
    while near(r @ r, thr) and it < T:
        if stable and it >= mi and list(I) == list(Ip):
            break
        Ip = I
        I, x, r = step(I, x, r)
        it += 1
    return x, r, it


def _dense(n, I, v):
    x = np.zeros(n)
    x[list(I)] = v
    return x


def m_cosamp(A, y, K, T, rtol=1e-4, stable=False):
    n = A.shape[1]

    def common(I3):
        x3 = lsq(A[:, I3], y)
        a = top(x3, K)
        I = np.asarray(I3)[a]
        x = _dense(n, I, x3[a])
        return list(I), x, y - A @ x

    def init():
        return common(top(A.T @ y, 3 * K))

    def step(I, x, r):
        h = A.T @ r
        h[list(I)] = 0
        return common(list(I) + list(top(h, 2 * K)))
    return _wrap(A, y, K, step, init, T, rtol, stable)


def m_sp(A, y, K, T, rtol=1e-4, stable=False):
    n = A.shape[1]

    def ls(I):
        x = _dense(n, I, lsq(A[:, list(I)], y))
        return list(I), x, y - A @ x

    def init():
        return ls(top(A.T @ y, K))

    def step(I, x, r):
        h = A.T @ r
        h[list(I)] = 0
        I2 = list(I) + list(top(h, K))
        xp = lsq(A[:, I2], y)
        return ls(np.asarray(I2)[top(xp, K)])
    return _wrap(A, y, K, step, init, T, rtol, stable)


def m_iht(A, y, K, T, rtol=1e-4, normalized=False, htp=False, mu=None):
    n = A.shape[1]
    if mu is None:
        mu = 0.98 / np.linalg.norm(A, 2)

    def size(h, I):
        if not normalized:
            return mu
        hI = h[list(I)]
        d = A[:, list(I)] @ hI
        if d @ d < 1e-20:
            raise Tie()
        return (hI @ hI) / (d @ d)

    def init():
        h = A.T @ y
        z = size(h, range(K)) * h
        I = top(z, K)
        x = _dense(n, I, z[I])
        return list(I), x, y - A @ x

    def step(I, x, r):
        h = A.T @ r
        z = x + size(h, I) * h
        J = top(z, K)
        if htp:
            J = np.sort(J)
            x = _dense(n, J, lsq(A[:, J], y))
        else:
            x = _dense(n, J, z[J])
        return list(J), x, y - A @ x
    return _wrap(A, y, K, step, init, T, rtol, htp)


def model(alg, var):
    opv = var.startswith('operator') or var == 'solve'
    return {
        'mp': m_mp,
        'omp': (lambda A, y, K, T, rtol=1e-4: m_omp(A, y, K, T, rtol)) if opv else (lambda A, y, K, T, rtol=None: m_omp(A, y, K, T, None)),
        'cosamp': lambda A, y, K, T, rtol=1e-4: m_cosamp(A, y, K, T, rtol, opv),
        'sp': lambda A, y, K, T, rtol=1e-4: m_sp(A, y, K, T, rtol, opv),
        'iht': lambda A, y, K, T, rtol=1e-4: m_iht(A, y, K, T, rtol),
        'htp': lambda A, y, K, T, rtol=1e-4: m_iht(A, y, K, T, rtol, htp=True),
        'niht': lambda A, y, K, T, rtol=1e-4: m_iht(A, y, K, T, rtol, normalized=True),
        'nhtp': lambda A, y, K, T, rtol=1e-4: m_iht(A, y, K, T, rtol, normalized=True, htp=True),
    }[alg]
