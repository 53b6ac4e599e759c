"""Every operator constructor's forward map equals the matrix it documents."""
import numpy as np
from mc.core import Task
from mc import opcat

ID = 'P01'
RULE = ('All constructor calls of the operator catalogue (every public constructor x sizes x parameters x axis); per call the forward map '
        'is executed on every basis vector (real, and imaginary where complex input is allowed), on generic real/integer/complex vectors '
        'and on matrices of vectors along the operator axis, and compared with an independently built dense matrix. '
        'A state is a distinct observed output vector.')
ASSUME = ['sizes as enumerated in mc/opcat.py', 'double precision execution (jax x64) plus a single precision pass']


def tasks(tier):
    ts = []
    for i, (g, arg) in enumerate(opcat.groups(tier)):
        ts.append(Task(f'{g}#{i}', 'run', dict(group=g, arg=arg)))
    for i, (g, arg) in enumerate(opcat.groups('quick')):
        if tier == 'thorough' or g in ('g_onb', 'g_heaviside', 'g_calculus', 'g_circulant', 'g_matrix', 'g_tv'):
            ts.append(Task(f'f32:{g}#{i}', 'run', dict(group=g, arg=arg, f32=True), x64=False))
    return ts


def vectors(n, cplx, rng_seed=2):
    v = [('real', opcat.gen(n, rng_seed)), ('int', np.arange(1, n + 1)), ('real2', opcat.gen(n, rng_seed + 5) * 100)]
    if cplx:
        v.append(('complex', opcat.gen(n, rng_seed + 1, True)))
    return v


def run(ctx, group, arg, f32=False):
    import jax
    import jax.numpy as jnp
    for e in opcat.entries(group, arg):
        tol = 3e-5 if f32 else e.tol
        with ctx.case(e.key) as c:
            op = e.build()
            m, n = e.M.shape
            want_shape = (e.out_shape if len(e.out_shape) > 1 else m, e.in_shape if len(e.in_shape) > 1 else n)
            got_shape = op.shape
            norm = lambda s: tuple(s) if isinstance(s, (tuple, list)) and len(s) > 1 else int(np.prod(s))
            c.expect((norm(got_shape[0]), norm(got_shape[1])) == want_shape, 'shape', got=str(got_shape), want=str(want_shape))
            times = jax.jit(op.times) if e.slow else op.times
            I = np.eye(n)
            if e.only2d:
                c.close(op.times(jnp.asarray(I)), e.M.T, 'forward on basis vectors', tol)
                for k in (1, 2, 3):
                    X = opcat.genm(n, k, 6, e.cplx)
                    c.close(op.times(jnp.asarray(X.T)), (e.M @ X).T, 'forward on a matrix of vectors', tol, k=k)
                    ctx.execs(2)
                continue
            cols = []
            for j in range(n):
                y = np.asarray(times(jnp.asarray(I[j].reshape(e.in_shape))))
                ctx.execs()
                if y.shape != e.out_shape:
                    c.fail('forward output shape', got=str(y.shape), want=str(e.out_shape))
                    break
                cols.append(y.ravel())
            else:
                c.close(np.array(cols).T, e.M, 'forward on basis vectors', tol)
                c.state(np.array(cols))
                if e.cplx:
                    cc = [np.asarray(times(jnp.asarray(1j * I[j].reshape(e.in_shape)))).ravel() for j in range(n)]
                    ctx.execs(n)
                    c.close(np.array(cc).T, 1j * e.M, 'forward on imaginary basis vectors', tol)
                for nm, x in vectors(n, e.cplx):
                    y = times(jnp.asarray(x.reshape(e.in_shape)))
                    ctx.execs()
                    c.close(y, (e.M @ x).reshape(e.out_shape), f'forward on {nm} vector', tol)
                    c.state(y)
                if e.real_domain:
                    x = opcat.gen(n, 3, True)
                    c.close(times(jnp.asarray(x)), e.M @ x.real, 'forward on complex input uses the real part', tol)
                if e.axis is not None or e.batch:
                    for k in () if e.axis == 2 else (1, 2, 3):
                        X = opcat.genm(n, k, 6, e.cplx)
                        Y = e.M @ X
                        if e.axis in (1, -1):
                            X, Y = X.T, Y.T
                        y = times(jnp.asarray(X))
                        ctx.execs()
                        c.close(y, Y, f'forward on a matrix of vectors', tol, k=k)
                    if len(e.in_shape) == 1:
                        # a three dimensional stack of vectors along the operator axis
                        ax = e.axis or 0
                        X = opcat.gen(n * 6, 7, e.cplx).reshape(n, 2, 3)
                        Y = np.tensordot(e.M, X, 1)
                        y = times(jnp.asarray(np.moveaxis(X, 0, ax)))
                        ctx.execs()
                        c.close(y, np.moveaxis(Y, 0, ax), 'forward on a three dimensional stack of vectors', tol)
