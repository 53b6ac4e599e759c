"""Every operator's trans is the adjoint of its times."""
import numpy as np
from mc.core import Task
from mc import opcat

ID = 'P02'
RULE = ('All constructor calls of the operator catalogue; per call both times and trans are executed on every basis vector of their domain '
        '(exhaustive by linearity) and trans must be the conjugate transpose of the observed times as well as of the reference matrix; '
        'also on generic real/complex vectors, on matrices of vectors along the operator axis, and <Ax,y>=<x,A*y> is evaluated for all '
        'basis pairs. A state is a distinct observed adjoint output.')
ASSUME = ['orthogonal wavelets only (for biorthogonal ones the reverse transform is a reconstruction, not an adjoint)',
          'tv2D: see KNOWN_FINDINGS.txt']


def tasks(tier):
    ts = []
    for i, (g, arg) in enumerate(opcat.groups(tier)):
        ts.append(Task(f'{g}#{i}', 'run', dict(group=g, arg=arg)))
    for i, (g, arg) in enumerate(opcat.groups('quick')):
        if tier == 'thorough' or g in ('g_onb', 'g_heaviside', 'g_calculus', 'g_circulant', 'g_matrix', 'g_tv'):
            ts.append(Task(f'f32:{g}#{i}', 'run', dict(group=g, arg=arg, f32=True), x64=False))
    return ts


def run(ctx, group, arg, f32=False):
    import jax
    import jax.numpy as jnp
    for e in opcat.entries(group, arg):
        tol = 3e-5 if f32 else e.tol
        with ctx.case(e.key) as c:
            op = e.build()
            m, n = e.M.shape
            MH = e.M.conj().T
            In, Im = np.eye(n), np.eye(m)
            times, trans = (jax.jit(op.times), jax.jit(op.trans)) if e.slow else (op.times, op.trans)
            if e.only2d:
                c.close(op.trans(jnp.asarray(Im)), MH.T, 'adjoint on basis vectors', tol)
                for k in (1, 2, 3):
                    V = opcat.genm(m, k, 6, True)
                    c.close(op.trans(jnp.asarray(V.T)), (MH @ V).T, 'adjoint on a matrix of vectors', tol, k=k)
                    ctx.execs(2)
                continue
            fw = np.array([np.asarray(times(jnp.asarray(In[j].reshape(e.in_shape)))).ravel() for j in range(n)]).T
            bad = False
            bw = []
            for j in range(m):
                x = np.asarray(trans(jnp.asarray(Im[j].reshape(e.out_shape))))
                ctx.execs(2)
                if x.shape != e.in_shape:
                    c.fail('adjoint output shape', got=str(x.shape), want=str(e.in_shape))
                    bad = True
                    break
                bw.append(x.ravel())
            if bad:
                continue
            bw = np.array(bw).T
            c.state(bw)
            if group == 'g_tv2':
                # recorded finding: the code (and its unit test) uses the plain transpose
                ok = np.allclose(bw, MH, atol=tol)
                if not ok:
                    c.fail('plain transpose instead of adjoint' if np.allclose(bw, e.M.T, atol=tol) else 'adjoint on basis vectors', got=bw)
                continue
            c.close(bw, fw.conj().T, 'adjoint is the conjugate transpose of the forward map', tol)
            c.close(bw, MH, 'adjoint on basis vectors', tol)
            cplx_out = e.cplx or e.real_domain
            if cplx_out:
                cc = np.array([np.asarray(trans(jnp.asarray(1j * Im[j].reshape(e.out_shape)))).ravel() for j in range(m)]).T
                c.close(cc, 1j * MH, 'adjoint on imaginary basis vectors', tol)
            for nm, v in [('real', opcat.gen(m, 2)), ('int', np.arange(1, m + 1))] + ([('complex', opcat.gen(m, 3, True))] if cplx_out else []):
                x = trans(jnp.asarray(v.reshape(e.out_shape)))
                c.close(x, (MH @ v).reshape(e.in_shape), f'adjoint on {nm} vector', tol)
                c.state(x)
                u = opcat.gen(n, 8, e.cplx and nm == 'complex')
                y = np.asarray(times(jnp.asarray(u.reshape(e.in_shape)))).ravel()
                ctx.execs(2)
                l, r = np.vdot(v, y), np.vdot(np.asarray(x).ravel(), u)
                c.close(l, r, '<Au,v> = <u,A*v>', tol * 10, nm=nm)
            if e.axis is not None or e.batch:
                for k in () if e.axis == 2 else (1, 2, 3):
                    V = opcat.genm(m, k, 6, cplx_out)
                    X = MH @ V
                    if e.axis in (1, -1):
                        V, X = V.T, X.T
                    c.close(trans(jnp.asarray(V)), X, 'adjoint on a matrix of vectors', tol, k=k)
                    ctx.execs()
                if len(e.in_shape) == 1:
                    ax = e.axis or 0
                    V = opcat.gen(m * 6, 7, cplx_out).reshape(m, 2, 3)
                    X = np.tensordot(MH, V, 1)
                    c.close(trans(jnp.asarray(np.moveaxis(V, 0, ax))), np.moveaxis(X, 0, ax), 'adjoint on a three dimensional stack of vectors', tol)
                    ctx.execs()
