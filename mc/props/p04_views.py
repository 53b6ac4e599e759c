"""Views derived from an operator agree with the operator."""
import numpy as np
from mc.core import Task
from mc import opcat

ID = 'P04'
RULE = ('For every catalogue constructor call up to the size bound: dense matrix, adjoint matrix and complex matrix views, every column, every '
        'pair of columns, column-wise 2-D application, compiled operator, shapes/sizes, largest singular value and its power-iteration estimate '
        'are compared with the reference matrix. Dot tests: for every entry (i,j) and every listed perturbation of the adjoint of small '
        'matrices, the test must reject; for exact adjoints it must accept, for every listed key.')
ASSUME = ['a power iteration that stops early may underestimate by at most 10 % (bound observed on the catalogue: below 5 %)', 'dot_test_complex: see KNOWN_FINDINGS.txt']


def tasks(tier):
    lim = 30 if tier == 'quick' else 300
    ts = [Task(f'{g}#{i}', 'run', dict(group=g, arg=arg, lim=lim)) for i, (g, arg) in enumerate(opcat.groups('quick'))]
    ts += [Task(f'dot {m}x{n} cplx={c}', 'dots', dict(m=m, n=n, cplx=c, keys=6 if tier == 'quick' else 24))
           for m in (1, 2, 3) for n in (1, 2, 3) for c in (False, True)]
    ts.append(Task('norm estimate at every scale', 'scales', {}))
    ts.append(Task('real inner product', 'rdots', dict(keys=4 if tier == 'quick' else 24)))
    return ts


def run(ctx, group, arg, lim):
    import jax
    import jax.numpy as jnp
    from cr.sparse import lop
    seen = set()
    for e in opcat.entries(group, arg):
        if e.M.size > lim or e.only2d or e.real_domain:
            continue
        sig = (e.key.split()[0], e.M.shape, e.cplx, e.axis, np.iscomplexobj(e.M), len(e.in_shape), len(e.out_shape))
        if lim < 100:
            # quick: at most two calls per (constructor, shape, kind)
            k = sum(1 for s in seen if s[0] == sig)
            if k >= 2:
                continue
            seen.add((sig, k))
        with ctx.case(e.key) as c:
            op = e.build()
            m, n = e.M.shape
            tol = e.tol
            c.expect(op.input_size == n and op.output_size == m, 'sizes')
            c.expect(tuple(op.input_shape) == tuple(e.in_shape) and tuple(op.output_shape) == tuple(e.out_shape), 'shapes')
            c.expect(op.input_ndim == len(e.in_shape) and op.output_ndim == len(e.out_shape), 'number of dimensions')
            MH = e.M.conj().T if group != 'g_tv2' else e.M.T   # recorded finding of P02
            if op.linear:
                c.close(lop.to_matrix(op), e.M, 'dense matrix', tol)
                c.close(lop.to_adjoint_matrix(op), MH, 'dense adjoint matrix', tol)
                if e.cplx:
                    c.close(lop.to_complex_matrix(op), e.M, 'dense complex matrix', tol)
                ctx.execs(3)
            J = lop.jit(op)
            c.expect(J.shape == op.shape and J.real == op.real, 'compiled operator keeps shape and realness')
            u = opcat.gen(n, 31, e.cplx)
            v = opcat.gen(m, 32, e.cplx)
            y = J.times(jnp.asarray(u.reshape(e.in_shape)))
            c.close(y, (e.M @ u).reshape(e.out_shape), 'compiled times', tol)
            c.close(J.trans(jnp.asarray(v.reshape(e.out_shape))), (MH @ v).reshape(e.in_shape), 'compiled trans', tol)
            ctx.execs(2)
            c.state(y)
            if op.real:
                c.expect(np.abs(np.imag(e.M)).max(initial=0) < 1e-12, 'operator flagged real denotes a complex matrix')
            if e.in_shape == (n,) and e.out_shape == (m,) and (e.axis in (None, 0)):
                for i in {0, n // 2, n - 1}:
                    c.close(J.column(i), e.M[:, i], 'column', tol, i=i)
                U, V = opcat.genm(n, 3, 33, e.cplx), opcat.genm(m, 3, 34, e.cplx)
                c.close(J.times_2d(jnp.asarray(U)), e.M @ U, 'times_2d', tol)
                c.close(J.trans_2d(jnp.asarray(V)), MH @ V, 'trans_2d', tol)
                ctx.execs(5)
                if op.matrix_safe and (e.batch or e.axis == 0):
                    for idx in ([0], [n - 1, 0], list(range(n))):
                        c.close(J.columns(jnp.asarray(idx)), e.M[:, idx], 'columns', tol, idx=str(idx))
                    x = opcat.gen(n, 35)
                    xr = np.zeros(n)
                    xr[idx[:1]] = x[idx[:1]]
                    c.close(op.apply_columns(jnp.asarray(x), jnp.asarray(idx[:1])), e.M @ xr, 'apply_columns', tol)
                    rep = list(idx) + [0, n - 1]
                    c.close(op.apply_columns(jnp.asarray(x), jnp.asarray(rep)), e.M @ x, 'apply_columns with repeated indices', tol)
            s = np.linalg.norm(e.M, 2)
            if op.linear and group != 'g_tv2':
                est = float(lop.normest_jit(op))
                c.expect(est <= s * (1 + 1e-6) + 1e-9, 'norm estimate exceeds the norm', got=est, want=s)
                c.expect(est >= 0.9 * s - 1e-9, 'norm estimate far below the norm', got=est, want=s)
                if len(e.in_shape) == 1:
                    c.close(lop.upper_frame_bound(op), s, 'largest singular value', 1e-7)
                ctx.execs(2)


def scales(ctx):
    """the norm estimate of operators of every magnitude, with clustered, repeated and separated singular values"""
    import jax.numpy as jnp
    from cr.sparse import lop
    spectra = [(1.,), (1., .9, .5, .3, .2, .1), (1., 1., .5), (1., .98, .1), (1., .2, .2, .2), (1., .7, .7, 0., 0.)]
    for k, sv in enumerate(spectra):
        for cplx in (False, True):
            for dm, dn in ((0, 0), (2, 0), (0, 2)):
                r = len(sv)
                m, n = r + dm, r + dn
                U = np.linalg.qr(opcat.genm(m, m, 3 + k, cplx))[0][:, :r]
                V = np.linalg.qr(opcat.genm(n, n, 5 + k, cplx))[0][:, :r]
                A = (U * np.array(sv)) @ V.conj().T
                for sc in (1e-6, 1e-3, 1., 1e3, 1e6):
                    with ctx.case(f'norm estimate singular values {sv} cplx={cplx} {m}x{n} scale={sc}') as c:
                        op = lop.matrix(jnp.asarray(A * sc))
                        for nm, f in (('normest', lop.normest), ('normest_jit', lop.normest_jit)):
                            est = float(f(op)) / sc
                            c.expect(est <= 1 + 1e-6, f'{nm} exceeds the norm', got=est)
                            c.expect(est >= 0.97, f'{nm} below the norm', got=est)
                            ctx.execs()
                        c.state(np.array([k, sc, m, n]))


def dots(ctx, m, n, cplx, keys):
    import jax
    import jax.numpy as jnp
    from cr.sparse import lop
    A = opcat.genm(m, n, 41, cplx)
    mk = lambda A, AH: lop.Operator(times=lambda x: A @ x, trans=lambda y: AH @ y, shape=(m, n), real=not cplx)
    good = [('exact', A.conj().T)]
    bad = []
    for i in range(n):
        for j in range(m):
            for d in (1e-2, -1., 3.):
                B = A.conj().T.copy()
                B[i, j] += d
                bad.append((f'entry({i},{j})+{d}', B))
    bad += [('negated', -A.conj().T), ('doubled', 2 * A.conj().T), ('zero', 0 * A.T)]
    if cplx:
        bad.append(('not conjugated', A.T.copy()))
    if m == n and m > 1:
        bad.append(('not transposed', A.conj().copy()))
    for scale in (1., -1.):
        for k in range(keys):
            key = jax.random.PRNGKey(k)
            tests = [('dot_test_complex', lop.dot_test_complex)] if cplx else [('dot_test_real', lop.dot_test_real), ('dot_test_complex', lop.dot_test_complex)]
            for tn, test in tests:
                for nm, B in good:
                    with ctx.case(f'{tn} {m}x{n} cplx={cplx} sign={scale} key={k} {nm}') as c:
                        c.expect(test(key, mk(jnp.asarray(scale * A), jnp.asarray(scale * B))), 'exact adjoint rejected')
                        ctx.execs()
                for nm, B in bad:
                    with ctx.case(f'{tn} {m}x{n} cplx={cplx} sign={scale} key={k} {nm}') as c:
                        c.expect(not test(key, mk(jnp.asarray(scale * A), jnp.asarray(scale * B))), 'wrong adjoint accepted')
                        ctx.execs()
                        c.state(B * scale)


def rdots(ctx, keys):
    """operators over the real inner product: dot with a vector, real part"""
    import jax
    import jax.numpy as jnp
    from cr.sparse import lop
    for k in range(keys):
        key = jax.random.PRNGKey(k)
        for n in (1, 2, 3, 5):
            for cplx in (False, True):
                v = opcat.gen(n, 3 + k, cplx)
                mk = lambda T, F: lop.Operator(times=lambda x: jnp.real(jnp.vdot(T, x))[None], trans=lambda y: F * y, shape=(1, n), real=False)
                cand = [('exact', v, True), ('dot operator', None, True), ('negated', -v, False), ('doubled', 2 * v, False), ('zero', 0 * v, False)]
                if cplx:
                    cand.append(('conjugated', v.conj(), False))
                for i in range(n):
                    for d in (1e-2, -1.) + ((.3j,) if cplx else ()):
                        w = v.copy()
                        w[i] += d
                        cand.append((f'entry {i}+{d}', w, False))
                for nm, w, good in cand:
                    with ctx.case(f'rdot_test_complex n={n} cplx={cplx} key={k} {nm}') as c:
                        op = lop.dot(jnp.asarray(v)) if w is None else mk(jnp.asarray(v), jnp.asarray(w))
                        c.expect(bool(lop.rdot_test_complex(key, op)) == good, 'exact adjoint rejected' if good else 'wrong adjoint accepted')
                        ctx.execs()
                        c.state(v if w is None else w)
    for n in (1, 3, 4):
        with ctx.case(f'real part n={n}') as c:
            op = lop.real(n)
            c.expect(tuple(op.shape) == (n, n) and not op.linear, 'shape and the non-linear flag', got=str(op.shape))
            for x in (opcat.gen(n, 1), opcat.gen(n, 2, True), 1j * opcat.gen(n, 3)):
                c.close(op.times(jnp.asarray(x)), x.real, 'real part')
                c.close(op.trans(jnp.asarray(x)), x.real, 'adjoint over the real inner product')
            c.expect(bool(lop.rdot_test_complex(jax.random.PRNGKey(n), op)), 'exact adjoint rejected')
            for f in (lop.to_matrix, lop.to_adjoint_matrix, lop.to_complex_matrix):
                try:
                    f(op)
                    c.fail('matrix of a non-linear operator', f=f.__name__)
                except Exception:
                    pass
            ctx.execs(4)
