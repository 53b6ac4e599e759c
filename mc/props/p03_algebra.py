"""Operator algebra: every expression denotes the matrix its operands denote."""
import numpy as np
from mc.core import Task
from mc.opcat import gen, genm, dft

ID = 'P03'
RULE = ('Breadth-first enumeration of all operator expressions up to the stated depth over a fixed leaf set (real, complex, identity, '
        'diagonal, Fourier, zero, matrix-unsafe, jit-unsafe and N-D shaped leaves; function and operator-overload spellings): unary '
        'neg/scale(real,complex)/transpose/hermitian/adjoint/power/gram/frame/partial_op/jit, binary add/subtract/compose/hcat/block_diag. '
        'The model state of an expression is its dense matrix plus flags, computed by NumPy; the implementation is executed on every basis '
        'vector, a complex vector and a matrix of vectors in both directions. A state is a distinct model matrix.')
ASSUME = ['partial_op picks/perm range over a fixed list per size; N-D operators take part in the shape-agnostic operations only']
CHUNKS = 24


def tasks(tier):
    ts = [Task(f'depth2 chunk {i}', 'run', dict(chunk=i, chunks=CHUNKS, depth=2 if tier == 'quick' else 3)) for i in range(CHUNKS)]
    ts += [Task('nd', 'run_nd', dict(depth=2 if tier == 'quick' else 3)), ]
    ts += [Task(f'unary chains {l} {k}', 'chains', dict(depth=3 if tier == 'quick' else 4, leaf=l, part=k), cost=2)
           for l in ('C22', 'C32', 'K2c') for k in range(4)]
    return ts


class E:
    __slots__ = ('key', 'op', 'M', 'msafe', 'jsafe', 'pows')

    def __init__(self, key, op, M, msafe=True, jsafe=True, pows=0):
        self.key, self.op, self.M, self.msafe, self.jsafe, self.pows = key, op, M, msafe, jsafe, pows


def leaves():
    import jax.numpy as jnp
    from cr.sparse import lop
    R22, R23, C22, C32 = genm(2, 2, 1), genm(2, 3, 2), genm(2, 2, 3, True), genm(3, 2, 4, True)
    d = gen(2, 5, True)
    h = gen(2, 6, True)
    pz = np.zeros((3, 2))
    pz[1:3] = np.eye(2)
    conv = np.array([[h[0], 0], [h[1], h[0]]])

    def unsafe():
        A = genm(2, 2, 9)
        return lop.Operator(times=lambda x: jnp.asarray(A @ np.asarray(x)), trans=lambda x: jnp.asarray(A.T @ np.asarray(x)),
                            shape=(2, 2), jit_safe=False), A
    U, UA = unsafe()
    return [
        E('R22', lop.matrix(jnp.asarray(R22)), R22), E('R23', lop.matrix(jnp.asarray(R23)), R23),
        E('C22', lop.matrix(jnp.asarray(C22)), C22), E('C32', lop.matrix(jnp.asarray(C32)), C32),
        E('I2', lop.identity(2), np.eye(2)), E('D2c', lop.diagonal(jnp.asarray(d)), np.diag(d)),
        E('S2c', lop.scalar_mult(2 - 1j, 2), (2 - 1j) * np.eye(2)),
        E('F2', lop.fourier_basis(2), dft(2).conj() / np.sqrt(2)), E('Z32', lop.zero(2, 3), np.zeros((3, 2))),
        E('K2c', lop.convolve(2, jnp.asarray(h)), conv),
        E('P32', lop.pad_zeros(2, 1, 0), pz, msafe=False), E('U22', U, UA, jsafe=False),
    ]


def scalars():
    import jax.numpy as jnp
    return [('2', 2, 2), ('-0.5', -0.5, -0.5), ('1j', 1j, 1j), ('np(1-2j)', np.complex128(1 - 2j), 1 - 2j),
            ('jnp(2+1j)', jnp.asarray(2 + 1j), 2 + 1j), ('0', 0, 0)]


def picks_of(m):
    L = [list(range(m)), list(range(m))[::-1], [m - 1], [0] * 2]
    if m > 1:
        L.append([m - 1, 0])
    return L


def unary(e, powers=True, nd=False, full=True):
    import jax.numpy as jnp
    from cr.sparse import lop
    k, A, M = e.key, e.op, e.M
    mk = lambda key, op, MM: E(key, op, MM, e.msafe, e.jsafe, e.pows)
    yield mk(f'-({k})', -A, -M)
    yield mk(f'neg({k})', lop.neg(A), -M)
    for nm, a, v in (scalars() if full else scalars()[2:4]):
        yield mk(f'{nm}*({k})', lop.scale(A, a), v * M)
    yield mk(f'adj({k})', lop.adjoint(A), M.conj().T)
    yield mk(f'herm({k})', lop.hermitian(A), M.conj().T)
    if not nd:
        yield mk(f'T({k})', lop.transpose(A), M.T)
    yield mk(f'gram({k})', lop.gram(A), M.conj().T @ M)
    yield mk(f'frame({k})', lop.frame(A), M @ M.conj().T)
    if e.jsafe and powers:
        yield mk(f'jit({k})', lop.jit(A), M)
    m, n = M.shape
    if powers and m == n and e.jsafe:
        for p in (0, 1, 2, 3):
            x = mk(f'({k})**{p}', A ** p if p != 2 else lop.power(A, p), np.linalg.matrix_power(M, p))
            x.pows += 1
            yield x
    if not nd:
        for pk in (picks_of(m) if full else picks_of(m)[-2:]):
            yield mk(f'({k})[{pk}]', lop.partial_op(A, jnp.asarray(pk)), M[pk])
            pm = list(np.roll(np.arange(n), 1))
            P = np.eye(n)[pm]
            yield mk(f'({k})[{pk},perm{pm}]', lop.partial_op(A, jnp.asarray(pk), jnp.asarray(pm)), (M @ P)[pk])


def binary(a, b, nd=False):
    from cr.sparse import lop
    A, B, M, N = a.op, b.op, a.M, b.M
    ms, js = a.msafe and b.msafe, a.jsafe and b.jsafe
    mk = lambda key, op, MM: E(key, op, MM, ms, js, a.pows + b.pows)
    if A.shape == B.shape:
        yield mk(f'({a.key}+{b.key})', A + B, M + N)
        yield mk(f'({a.key}-{b.key})', A - B, M - N)
        yield mk(f'subtract({a.key},{b.key})', lop.subtract(A, B), M - N)
    if A.shape[1] == B.shape[0]:
        yield mk(f'({a.key}@{b.key})', A @ B, M @ N)
        yield mk(f'compose({a.key},{b.key})', lop.compose(A, B), M @ N)
    if nd:
        return
    if A.shape[0] == B.shape[0]:
        yield mk(f'[{a.key},{b.key}]', lop.hcat(A, B), np.hstack([M, N]))
    bd = np.zeros((M.shape[0] + N.shape[0], M.shape[1] + N.shape[1]), complex)
    bd[:M.shape[0], :M.shape[1]] = M
    bd[M.shape[0]:, M.shape[1]:] = N
    if ms and js:
        yield mk(f'diag({a.key},{b.key})', lop.block_diag([A, B]), bd)


def judge(ctx, e, in_shape=None, out_shape=None):
    import jax.numpy as jnp
    with ctx.case(e.key) as c:
        op, M = e.op, e.M
        m, n = M.shape
        si, so = in_shape or (n,), out_shape or (m,)
        c.expect(op.shape == ((m, n) if in_shape is None else e.op.shape), 'shape', got=str(op.shape), want=str((m, n)))
        c.expect(op.input_size == n and op.output_size == m, 'input/output size')
        c.expect(tuple(op.input_shape) == tuple(si) and tuple(op.output_shape) == tuple(so), 'input/output shape')
        if op.real:
            c.expect(np.abs(M.imag).max(initial=0) < 1e-12, 'operator flagged real denotes a complex matrix')
        if not e.jsafe:
            c.expect(not op.jit_safe, 'jit_safe though an operand is not')
        tol = 1e-9 * max(1., np.abs(M).max(initial=0)) * 10
        In, Im = np.eye(n), np.eye(m)
        f = lambda g, v, s: np.asarray(g(jnp.asarray(v.reshape(s)))).ravel()
        F = np.array([f(op.times, In[i], si) for i in range(n)]).T
        c.close(F, M, 'times on basis vectors', tol)
        B = np.array([f(op.trans, Im[i], so) for i in range(m)]).T
        c.close(B, M.conj().T, 'trans on basis vectors', tol)
        u, v = gen(n, 21, True), gen(m, 22, True)
        c.close(op.times(jnp.asarray(u.reshape(si))), (M @ u).reshape(so), 'times on a complex vector', tol)
        c.close(op.trans(jnp.asarray(v.reshape(so))), (M.conj().T @ v).reshape(si), 'trans on a complex vector', tol)
        ctx.execs(n + m + 2)
        if op.matrix_safe and in_shape is None:
            U, V = genm(n, 3, 23, True), genm(m, 3, 24, True)
            c.close(op.times(jnp.asarray(U)), M @ U, 'times on a matrix of vectors', tol)
            c.close(op.trans(jnp.asarray(V)), M.conj().T @ V, 'trans on a matrix of vectors', tol)
            ctx.execs(2)
        c.state(M)


def level1(L):
    out = []
    for a in L:
        out += list(unary(a))
    for a in L:
        for b in L:
            out += list(binary(a, b))
    return out


def run(ctx, chunk, chunks, depth):
    L = leaves()
    L1 = level1(L)
    for i, e in enumerate(L + L1):
        if i % chunks == chunk:
            judge(ctx, e)
    # depth 2: every unary operation on, and every binary operation with a leaf (both orders) of, every depth-1 expression
    small = [l for l in L if l.key in ('R23', 'C22', 'P32')]
    if depth == 2:
        # parents of depth-2 expressions in the quick tier: one spelling per operation, core leaves
        core = [l for l in L if l.key in ('R22', 'R23', 'C22', 'C32', 'K2c', 'P32', 'U22')]
        L1 = [e for e in level1(core) if not e.key.startswith(('neg', 'herm', 'subtract', 'compose', '2*', '-0.5*', 'jnp', '0*', '-('))]
    for i, e in enumerate(L1):
        if i % chunks != chunk:
            continue
        for x in unary(e, powers=(e.pows == 0 and (depth > 2 or e.key.startswith(('T(', 'adj(', '1j*')))), full=depth > 2):
            judge(ctx, x)
            if depth > 2 and x.pows == 0:
                for y in unary(x, powers=False, full=False):
                    judge(ctx, y)
        if e.pows:
            continue
        for l in (L if depth > 2 else small):
            for x in binary(e, l):
                judge(ctx, x)
            for x in binary(l, e):
                judge(ctx, x)


def chains(ctx, depth, leaf, part):
    """all chains of unary operations on a square and a rectangular complex leaf"""
    L = {l.key: l for l in leaves()}
    cur = [L[leaf]]
    for d in range(depth):
        nxt = []
        for e in cur:
            for i, x in enumerate(unary(e, powers=False, full=False)):
                if d == 0 and i % 4 != part:
                    continue
                judge(ctx, x)
                if len(x.M) <= 3 and not x.key.startswith(('neg', 'herm', 'jit')):
                    nxt.append(x)
        cur = nxt


def run_nd(ctx, depth):
    import jax.numpy as jnp
    from cr.sparse import lop
    h = gen(4, 5, True).reshape(2, 2)

    def dense(op, n, si):
        return np.array([np.asarray(op.times(jnp.asarray(np.eye(n)[i].reshape(si)))).ravel() for i in range(n)]).T
    ops = [('conv2D', lop.convolve2D((2, 2), jnp.asarray(h)), (2, 2), (2, 2)),
           ('conv2Dr', lop.convolve2D((2, 2), jnp.asarray(h.real)), (2, 2), (2, 2)),
           ('dwt2D', lop.dwt2D((2, 2), 'haar', 1), (2, 2), (2, 2)),
           ('reshape', lop.reshape((4,), (2, 2)), (4,), (2, 2)),
           ('reshapeF', lop.reshape((2, 2), (4,), order='F'), (2, 2), (4,))]
    L = [E(k, o, dense(o, 4, si)) for k, o, si, so in ops]
    shp = lambda e: (e.op.input_shape, e.op.output_shape)

    def j(e):
        si, so = shp(e)
        judge(ctx, e, tuple(si) if isinstance(si, (tuple, list)) else (si,), tuple(so) if isinstance(so, (tuple, list)) else (so,))
    L1 = []
    for a in L:
        j(a)
        L1 += [x for x in unary(a, powers=False, nd=True)]
        for b in L:
            L1 += list(binary(a, b, nd=True))
    for e in L1:
        j(e)
        for x in unary(e, powers=False, nd=True, full=False):
            j(x)
        if depth > 2:
            for l in L:
                for x in list(binary(e, l, nd=True)) + list(binary(l, e, nd=True)):
                    j(x)
