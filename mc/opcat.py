"""Catalogue of every public linear-operator constructor with an independent
dense reference matrix.

An Entry describes one constructor call:

  key       text identifying the call
  build     zero-argument function returning the real operator
  M         reference matrix (numpy), acting on the C-order flattening of the input
  in_shape / out_shape
  cplx      the operator is linear over complex inputs as well
  rlin      the operator is only R-linear (input domain is real)
  axis      None, or 0/1 when the constructor takes an axis argument and has to
            act along that axis of a matrix of vectors
  batch     a matrix of vectors (n, k) is accepted as it is (axis 0)
  real      expected to be a real operator
  adj       'H' adjoint demanded; 'R' adjoint over the real domain
"""
import itertools
import numpy as np
import scipy.linalg
import scipy.signal


class Entry:
    def __init__(self, key, build, M, in_shape=None, out_shape=None, cplx=True, axis=None, batch=False,
                 adj=True, tol=1e-8, real_domain=False, shape=None,
                 only2d=False, slow=False):
        self.key = key
        self.build = build
        self.M = np.asarray(M)
        self.in_shape = in_shape if in_shape is not None else (self.M.shape[1],)
        self.out_shape = out_shape if out_shape is not None else (self.M.shape[0],)
        self.cplx = cplx
        self.axis = axis
        self.batch = batch
        self.adj = adj
        self.tol = tol
        self.real_domain = real_domain   # the input domain is real (forward takes the real part)
        self.shape = shape
        self.only2d = only2d             # applicable to matrices of vectors only (axis=1 of fft)
        self.slow = slow                 # eager execution re-traces on every call: run the compiled form


# deterministic "generic" data: no accidental equalities, no randomness at run time
def gen(n, seed=1, cplx=False):
    k = np.arange(1, n + 1, dtype=float)
    a = np.round(np.sin(1.7 * k * seed + 0.3 * seed) * 2 + np.cos(2.9 * k + seed), 6)
    a = np.where(np.abs(a) < 0.05, 0.37, a)
    if cplx:
        return a + 1j * gen(n, seed + 11)
    return a


def genm(m, n, seed=1, cplx=False):
    return gen(m * n, seed, cplx).reshape(m, n)


def conv_matrix(n, h, offset):
    """y[i] = full(x*h)[i+offset]"""
    h = np.asarray(h)
    m = len(h)
    M = np.zeros((n, n), dtype=h.dtype)
    for i in range(n):
        for j in range(n):
            t = i + offset - j
            if 0 <= t < m:
                M[i, j] = h[t]
    return M


def dft(n, m=None):
    m = n if m is None else m
    return np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(m)) / n)


def dct2_ortho(n):
    k = np.arange(n)[:, None]
    j = np.arange(n)[None, :]
    C = np.cos(np.pi * k * (2 * j + 1) / (2 * n)) * np.sqrt(2.0 / n)
    C[0] /= np.sqrt(2)
    return C


def tv_matrix(n, kind):
    D = -np.eye(n) + np.diag(np.ones(n - 1), 1)
    if kind == 'regular':
        D[-1] = 0
    elif kind == 'circular':
        D[-1] = 0
        D[-1, -1] -= 1
        D[-1, 0] += 1
    return D


def dwt_step(N, lo, hi):
    L = len(lo)
    W = np.zeros((N, N))
    for k in range(N // 2):
        for j in range(L):
            c = (2 * k + L // 2 - j) % N
            W[k, c] += lo[j]
            W[N // 2 + k, c] += hi[j]
    return W


def dwt_matrix(N, lo, hi, level):
    W = np.eye(N)
    size = N
    for _ in range(level):
        S = np.eye(N)
        S[:size, :size] = dwt_step(size, lo, hi)
        W = S @ W
        size //= 2
    return W


def next_pow2(n):
    p = 1
    while p < n:
        p *= 2
    return p


def kron_axes(shape, mats):
    """matrix acting on C-flattened arrays of `shape` with mats[ax] on each axis"""
    M = np.ones((1, 1))
    for ax, s in enumerate(shape):
        M = np.kron(M, mats[ax] if mats[ax] is not None else np.eye(s))
    return M


WAVELETS = ['haar', 'db2', 'db3', 'db4', 'sym4', 'coif1', 'sym5', 'db8']


def wave(name):
    import cr.wavelets as wt
    w = wt.to_wavelet(name)
    return np.asarray(w.dec_lo, float), np.asarray(w.dec_hi, float), int(w.dec_len)


def max_level(n, flen):
    if n < flen - 1 or flen < 2:
        return 0
    return max(0, int(np.floor(np.log2(n / (flen - 1.0)) + 1e-12)))


# ---------------------------------------------------------------------------
# groups: each yields Entries
# ---------------------------------------------------------------------------

def g_identity(sizes):
    from cr.sparse import lop
    for i, o in itertools.product(sizes, sizes):
        if abs(i - o) > 3 and min(i, o) > 3:
            continue
        for ax in (0, 1):
            yield Entry(f'identity in={i} out={o} axis={ax}', lambda i=i, o=o, ax=ax: lop.identity(i, o, axis=ax),
                        np.eye(o, i), axis=ax)
    for n in sizes:
        yield Entry(f'identity in={n}', lambda n=n: lop.identity(n), np.eye(n), axis=0)


def g_matrix(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for m, n in itertools.product(sizes, sizes):
        A = genm(m, n, 3)
        yield Entry(f'real_matrix {m}x{n}', lambda A=A: lop.real_matrix(jnp.asarray(A)), A)
        for ax in (0, 1):
            yield Entry(f'matrix {m}x{n} axis={ax}', lambda A=A, ax=ax: lop.matrix(jnp.asarray(A), axis=ax), A, axis=ax)
            C = genm(m, n, 5, True)
            yield Entry(f'matrix complex {m}x{n} axis={ax}', lambda C=C, ax=ax: lop.matrix(jnp.asarray(C), axis=ax), C, axis=ax)


def g_sparse(sizes):
    from cr.sparse import lop
    from jax.experimental.sparse import BCOO
    import jax.numpy as jnp
    for m, n in itertools.product(sizes, sizes):
        A = genm(m, n, 3) * (np.add.outer(np.arange(m), 2 * np.arange(n)) % 3 != 0)
        for ax in (0, 1):
            yield Entry(f'sparse_real_matrix {m}x{n} axis={ax}',
                        lambda A=A, ax=ax: lop.sparse_real_matrix(BCOO.fromdense(jnp.asarray(A)), axis=ax), A, axis=ax, cplx=False)


def g_diag(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        d = gen(n, 2)
        dc = gen(n, 4, True)
        for ax in (0, 1):
            yield Entry(f'diagonal n={n} axis={ax}', lambda d=d, ax=ax: lop.diagonal(jnp.asarray(d), axis=ax), np.diag(d), axis=ax)
            yield Entry(f'diagonal complex n={n} axis={ax}', lambda d=dc, ax=ax: lop.diagonal(jnp.asarray(d), axis=ax), np.diag(dc), axis=ax)
        for a in (2.5, -1.0, 0.0, 1 + 2j, -3j):
            yield Entry(f'scalar_mult alpha={a} n={n}', lambda a=a, n=n: lop.scalar_mult(a, n), a * np.eye(n), batch=True)


def g_zero(sizes):
    from cr.sparse import lop
    for i, o in itertools.product(sizes, sizes):
        for ax in (0, 1):
            yield Entry(f'zero in={i} out={o} axis={ax}', lambda i=i, o=o, ax=ax: lop.zero(i, o, axis=ax), np.zeros((o, i)), axis=ax)
    for n in sizes:
        yield Entry(f'zero in={n}', lambda n=n: lop.zero(n), np.zeros((n, n)), axis=0)


def g_simple(sizes):
    from cr.sparse import lop
    for n in sizes:
        yield Entry(f'flipud n={n}', lambda n=n: lop.flipud(n), np.eye(n)[::-1], batch=True)
        yield Entry(f'sum n={n}', lambda n=n: lop.sum(n), np.ones((1, n)), batch=True)
        yield Entry(f'symmetrize n={n}', lambda n=n: lop.symmetrize(n), np.vstack([np.eye(n)[::-1], np.eye(n)]), batch=True)
    for n in sizes:
        for b, a in itertools.product((0, 1, 2, 5), (0, 1, 3)):
            yield Entry(f'pad_zeros n={n} before={b} after={a}', lambda n=n, b=b, a=a: lop.pad_zeros(n, b, a),
                        np.vstack([np.zeros((b, n)), np.eye(n), np.zeros((a, n))]))


def g_restriction(sizes, maxlen=3):
    """every index sequence without repetition up to length maxlen, every subset, and repeated indices"""
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        seqs = set()
        for k in range(1, min(n, maxlen) + 1):
            seqs |= set(itertools.permutations(range(n), k))
        for k in range(1, n + 1):
            seqs |= set(itertools.combinations(range(n), k))
        # repeated indices: the adjoint accumulates
        seqs |= {(i, i) for i in range(n)} | {(n - 1, 0, n - 1), (0,) * (n + 1)}
        for I in sorted(seqs):
            for ax in (0, 1):
                yield Entry(f'restriction n={n} I={I} axis={ax}', lambda n=n, I=I, ax=ax: lop.restriction(n, jnp.array(I), axis=ax),
                            np.eye(n)[list(I)], axis=ax)


def g_heaviside(sizes):
    from cr.sparse import lop
    for n in sizes:
        w = np.sqrt(np.arange(n, 0, -1.0))
        L = np.tril(np.ones((n, n)))
        D = np.eye(n) - np.diag(np.ones(n - 1), -1)
        for ax in (0, 1):
            for norm in (True, False):
                H = L / w if norm else L
                Hi = w[:, None] * D if norm else D
                yield Entry(f'heaviside n={n} axis={ax} normalized={norm}',
                            lambda n=n, ax=ax, norm=norm: lop.heaviside(n, axis=ax, normalized=norm), H, axis=ax)
                yield Entry(f'inv_heaviside n={n} axis={ax} normalized={norm}',
                            lambda n=n, ax=ax, norm=norm: lop.inv_heaviside(n, axis=ax, normalized=norm), Hi, axis=ax)
            yield Entry(f'cumsum n={n} axis={ax}', lambda n=n, ax=ax: lop.cumsum(n, axis=ax), L, axis=ax)
            yield Entry(f'diff n={n} axis={ax}', lambda n=n, ax=ax: lop.diff(n, axis=ax), D, axis=ax)


def g_reshape(_):
    from cr.sparse import lop
    shapes = {4: [(4,), (2, 2), (1, 4), (4, 1)], 6: [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (1, 2, 3)],
              8: [(8,), (2, 4), (4, 2), (2, 2, 2), (1, 8)], 12: [(12,), (3, 4), (2, 2, 3), (3, 2, 2), (6, 2)]}
    for size, shs in shapes.items():
        for si, so in itertools.product(shs, shs):
            for order in ('C', 'F'):
                idx = np.arange(size).reshape(si)          # C-order labels of the input entries
                out = np.reshape(idx, so, order=order).ravel()
                yield Entry(f'reshape {si}->{so} order={order}', lambda si=si, so=so, order=order: lop.reshape(si, so, order=order),
                            np.eye(size)[out], si, so, shape=(so, si))
        for si in shs:
            yield Entry(f'arr2vec {si}', lambda si=si: lop.arr2vec(si), np.eye(size), si, (size,))


def g_dot(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        v = gen(n, 7)
        yield Entry(f'dot n={n}', lambda v=v: lop.dot(jnp.asarray(v)), v[None, :], cplx=False)
        for ax in (0, 1):
            yield Entry(f'dot n={n} axis={ax} stack', lambda v=v, ax=ax: lop.dot(jnp.asarray(v), axis=ax), v[None, :], cplx=False, axis=ax)
            yield Entry(f'dot n={n} axis={ax} adjoint stack', lambda v=v, ax=ax: lop.dot(jnp.asarray(v), adjoint=True, axis=ax), v[:, None], cplx=False, axis=ax)
        yield Entry(f'dot n={n} adjoint', lambda v=v: lop.dot(jnp.asarray(v), adjoint=True), v[:, None], cplx=False)
    for sh in [(2, 2), (2, 3), (3, 1), (1, 3), (2, 2, 2)]:
        v = gen(int(np.prod(sh)), 8).reshape(sh)
        yield Entry(f'dot shape={sh}', lambda v=v: lop.dot(jnp.asarray(v)), v.reshape(1, -1), sh, (1,), cplx=False)
        yield Entry(f'dot shape={sh} adjoint', lambda v=v: lop.dot(jnp.asarray(v), adjoint=True), v.reshape(-1, 1), (1,), sh, cplx=False)


def g_filters(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        # (filters with more taps than the signal has samples included)
        for ln in range(1, min(n + 2, 8) + 1):
            h = np.ones(ln) / ln
            for ax in (0, 1):
                if ax == 1 and ln > 4:
                    continue
                yield Entry(f'running_average n={n} length={ln} axis={ax}',
                            lambda n=n, ln=ln, ax=ax: lop.running_average(n, ln, axis=ax), conv_matrix(n, h, (ln - 1) // 2), axis=ax)
                h2 = gen(ln, 3)
                yield Entry(f'fir_filter n={n} taps={ln} axis={ax}',
                            lambda n=n, h2=h2, ax=ax: lop.fir_filter(n, jnp.asarray(h2), axis=ax), conv_matrix(n, h2, (ln - 1) // 2), axis=ax)
            h3 = gen(ln, 4, True)
            yield Entry(f'fir_filter complex n={n} taps={ln}',
                        lambda n=n, h3=h3: lop.fir_filter(n, jnp.asarray(h3)), conv_matrix(n, h3, (ln - 1) // 2), axis=0)


def g_convolve(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        for m in (1, 2, 3, 4, 5):
            for off in range(m):
                for ax in (0, 1):
                    h = gen(m, 6)
                    yield Entry(f'convolve n={n} taps={m} offset={off} axis={ax}',
                                lambda n=n, h=h, off=off, ax=ax: lop.convolve(n, jnp.asarray(h), off, axis=ax), conv_matrix(n, h, off), axis=ax)
                hc = gen(m, 9, True)
                yield Entry(f'convolve complex n={n} taps={m} offset={off}',
                            lambda n=n, h=hc, off=off: lop.convolve(n, jnp.asarray(h), off), conv_matrix(n, hc, off), axis=0)


def convnd_matrix(shape, h, offset, axes):
    """dense matrix of N-d convolution along axes with offsets"""
    size = int(np.prod(shape))
    M = np.zeros((size, size), dtype=h.dtype)
    hd = np.ones(len(shape), int)
    hh = np.moveaxis(h.reshape(h.shape + (1,) * (len(shape) - h.ndim)), range(h.ndim), axes) if h.ndim < len(shape) or tuple(axes) != tuple(range(h.ndim)) else h
    off = np.zeros(len(shape), int)
    for i, ax in enumerate(axes):
        off[ax] = offset[i]
    for src in np.ndindex(*shape):
        for t in np.ndindex(*hh.shape):
            dst = tuple(s + tt - o for s, tt, o in zip(src, t, off))
            if all(0 <= d < n for d, n in zip(dst, shape)):
                M[np.ravel_multi_index(dst, shape), np.ravel_multi_index(src, shape)] += hh[t]
    return M


def g_convnd(_, level=0):
    from cr.sparse import lop
    import jax.numpy as jnp
    shapes = [(3, 3), (2, 4), (4, 3)] + ([(5, 4), (1, 3), (3, 1)] if level else [])
    hs = [(1, 1), (2, 2), (3, 2), (2, 3), (3, 3)]
    for sh in shapes:
        for hsh in hs:
            h = gen(int(np.prod(hsh)), 5).reshape(hsh)
            for off in itertools.product(range(hsh[0]), range(hsh[1])):
                yield Entry(f'convolve2D {sh} h={hsh} offset={off}',
                            lambda sh=sh, h=h, off=off: lop.convolve2D(sh, jnp.asarray(h), off), convnd_matrix(sh, h, off, (0, 1)), sh, sh)
            yield Entry(f'convolve2D {sh} h={hsh}', lambda sh=sh, h=h: lop.convolve2D(sh, jnp.asarray(h)),
                        convnd_matrix(sh, h, (0, 0), (0, 1)), sh, sh)
            hc = gen(int(np.prod(hsh)), 5, True).reshape(hsh)
            yield Entry(f'convolve2D complex {sh} h={hsh}', lambda sh=sh, h=hc: lop.convolve2D(sh, jnp.asarray(h)),
                        convnd_matrix(sh, hc, (0, 0), (0, 1)), sh, sh)
    for sh in [(2, 3, 2), (3, 2, 2)]:
        for axes in [(0, 1), (0, 2), (1, 2)]:
            h = gen(4, 5).reshape(2, 2)
            for off in itertools.product((0, 1), (0, 1)):
                yield Entry(f'convolveND {sh} h=(2,2) axes={axes} offset={off}',
                            lambda sh=sh, h=h, off=off, axes=axes: lop.convolveND(sh, jnp.asarray(h), off, axes),
                            convnd_matrix(sh, h, off, axes), sh, sh)
        h = gen(8, 5).reshape(2, 2, 2)
        for off in itertools.product((0, 1), (0, 1), (0, 1)):
            yield Entry(f'convolveND {sh} h=(2,2,2) offset={off}',
                        lambda sh=sh, h=h, off=off: lop.convolveND(sh, jnp.asarray(h), off), convnd_matrix(sh, h, off, (0, 1, 2)), sh, sh)
    for sh in [(4,), (5,)]:
        for m in (1, 2, 3):
            for off in range(m):
                h = gen(m, 5)
                yield Entry(f'convolveND {sh} taps={m} offset={off}',
                            lambda sh=sh, h=h, off=off: lop.convolveND(sh, jnp.asarray(h), (off,)), conv_matrix(sh[0], h, off), sh, sh)
    for sh in [(3, 4), (4, 2)]:
        for ax in (0, 1):
            h = gen(3, 5)
            for off in range(3):
                yield Entry(f'convolveND {sh} taps=3 axis={ax} offset={off}',
                            lambda sh=sh, h=h, off=off, ax=ax: lop.convolveND(sh, jnp.asarray(h), (off,), (ax,)),
                            kron_axes(sh, [conv_matrix(sh[0], h, off) if ax == 0 else None, conv_matrix(sh[1], h, off) if ax == 1 else None]), sh, sh)


def walsh_matrix(n):
    """Hadamard matrix with rows in sequency order (number of sign changes), orthonormal"""
    H = scipy.linalg.hadamard(n)
    order = np.argsort([np.count_nonzero(np.diff(r)) for r in H], kind='stable')
    return H[order] / np.sqrt(n)


def g_onb(sizes):
    from cr.sparse import lop
    for n in sizes:
        F = dft(n).conj() / np.sqrt(n)
        yield Entry(f'fourier_basis n={n}', lambda n=n: lop.fourier_basis(n), F, batch=True)
        yield Entry(f'dirac_fourier_basis n={n}', lambda n=n: lop.dirac_fourier_basis(n), np.hstack([np.eye(n), F]), batch=True)
        yield Entry(f'cosine_basis n={n}', lambda n=n: lop.cosine_basis(n), dct2_ortho(n).T, batch=True, cplx=False)
        if n > 1 and n & (n - 1) == 0:
            yield Entry(f'walsh_hadamard_basis n={n}', lambda n=n: lop.walsh_hadamard_basis(n), walsh_matrix(n), cplx=True)


def g_fft(sizes):
    from cr.sparse import lop
    for m in sizes:
        for n in [None, m, m + 1, m + 2, m + 5, 2 * m]:
            nn = m if n is None else n
            for ax in (0, 1):
                yield Entry(f'fft m={m} n={n} axis={ax} mode=c2c', lambda m=m, n=n, ax=ax: lop.fft(m, n, axis=ax, mode='c2c'), dft(nn, m), axis=ax, only2d=ax == 1)
                yield Entry(f'fft m={m} n={n} axis={ax} mode=r2c', lambda m=m, n=n, ax=ax: lop.fft(m, n, axis=ax), dft(nn, m), axis=ax,
                            cplx=False, real_domain=True, only2d=ax == 1)


def g_dwt(sizes):
    from cr.sparse import lop
    for name in WAVELETS:
        lo, hi, fl = wave(name)
        for n in sizes:
            for lv in range(1, min(max_level(n, fl), 4) + 1):
                N = next_pow2(n)
                W = dwt_matrix(N, lo, hi, lv)[:, :n]
                for basis in (False, True):
                    for ax in ((0, 1) if (n in (8, 12) and name in ('haar', 'db2')) else (0,)):
                        yield Entry(f'dwt n={n} wavelet={name} level={lv} basis={basis} axis={ax}',
                                    lambda n=n, name=name, lv=lv, basis=basis, ax=ax: lop.dwt(n, wavelet=name, level=lv, basis=basis, axis=ax),
                                    W.T if basis else W, axis=ax, tol=2e-7)


def g_dwt2(shapes):
    from cr.sparse import lop
    for name in ('haar', 'db2', 'sym4'):
        lo, hi, fl = wave(name)
        for sh, axes in shapes:
            a0, a1 = axes or (0, 1)
            h, w = sh[a0], sh[a1]
            for lv in range(1, min(max_level(h, fl), max_level(w, fl), 3) + 1):
                hh, ww = next_pow2(h), next_pow2(w)
                # non-standard (Mallat) 2-D transform: one step on both axes, recursing on the approximation
                size = hh * ww
                W = np.eye(size)
                s0, s1 = hh, ww
                for _ in range(lv):
                    S0 = dwt_step(s0, lo, hi)
                    S1 = dwt_step(s1, lo, hi)
                    K = np.kron(S0, S1)
                    idx = (np.arange(s0)[:, None] * ww + np.arange(s1)[None, :]).ravel()
                    S = np.eye(size)
                    S[np.ix_(idx, idx)] = K
                    W = S @ W
                    s0, s1 = s0 // 2, s1 // 2
                cols = (np.arange(h)[:, None] * ww + np.arange(w)[None, :]).ravel()
                W = W[:, cols]                      # (hh*ww) x (h*w), rows along a0, columns along a1
                nd = len(sh)
                osh = list(sh)
                osh[a0], osh[a1] = hh, ww
                osh = tuple(osh)
                T = W.reshape(hh, ww, h, w)
                rest = [i for i in range(nd) if i not in (a0, a1)]
                M = np.zeros((int(np.prod(osh)), int(np.prod(sh))))
                for r in np.ndindex(*[sh[i] for i in rest]):
                    for i, j in np.ndindex(hh, ww):
                        o = [0] * nd
                        o[a0], o[a1] = i, j
                        for q, ri in zip(rest, r):
                            o[q] = ri
                        row = np.ravel_multi_index(o, osh)
                        for p, q2 in np.ndindex(h, w):
                            s = [0] * nd
                            s[a0], s[a1] = p, q2
                            for q, ri in zip(rest, r):
                                s[q] = ri
                            M[row, np.ravel_multi_index(s, sh)] = T[i, j, p, q2]
                for basis in (False, True):
                    yield Entry(f'dwt2D {sh} wavelet={name} level={lv} axes={axes} basis={basis}',
                                lambda sh=sh, name=name, lv=lv, axes=axes, basis=basis: lop.dwt2D(sh, wavelet=name, level=lv, axes=axes, basis=basis),
                                M.T if basis else M, osh if basis else sh, sh if basis else osh, tol=2e-7)


def g_calculus(sizes):
    from cr.sparse import lop
    for n in sizes:
        for dx in (1.0, 0.5, 3.0):
            F = tv_matrix(n, 'regular') / dx
            B = np.eye(n) - np.diag(np.ones(n - 1), -1)
            B[0] = 0
            C = 0.5 * (np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1))
            C[0] = 0
            C[-1] = 0
            yield Entry(f'first_derivative n={n} dx={dx} forward', lambda n=n, dx=dx: lop.first_derivative(n, dx=dx, kind='forward'), F)
            yield Entry(f'first_derivative n={n} dx={dx} backward', lambda n=n, dx=dx: lop.first_derivative(n, dx=dx, kind='backward'), B / dx)
            yield Entry(f'first_derivative n={n} dx={dx} centered', lambda n=n, dx=dx: lop.first_derivative(n, dx=dx, kind='centered'), C / dx)
            S = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1) - 2 * np.eye(n)
            S[0] = 0
            S[-1] = 0
            yield Entry(f'second_derivative n={n} dx={dx}', lambda n=n, dx=dx: lop.second_derivative(n, dx=dx), S / dx / dx)


def g_tv(sizes):
    from cr.sparse import lop
    for n in sizes:
        for kind in ('regular', 'dirichlet', 'circular'):
            for ax in (0, 1):
                yield Entry(f'tv n={n} kind={kind} axis={ax}', lambda n=n, kind=kind, ax=ax: lop.tv(n, kind, axis=ax), tv_matrix(n, kind), axis=ax)


def g_tv2(shapes):
    from cr.sparse import lop
    for sh in shapes:
        for kind in ('regular', 'dirichlet', 'circular'):
            M = np.kron(np.eye(sh[0]), tv_matrix(sh[1], kind)) + 1j * np.kron(tv_matrix(sh[0], kind), np.eye(sh[1]))
            yield Entry(f'tv2D {sh} kind={kind}', lambda sh=sh, kind=kind: lop.tv2D(sh, kind), M, sh, sh)


def g_circulant(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    for n in sizes:
        for r in sorted({1, 2, 3, n - 1, n} & set(range(1, n + 1))):
            c = gen(r, 4)
            cp = np.pad(c, (0, n - r))
            M = np.array([[cp[(i - j) % n] for j in range(n)] for i in range(n)])
            for ax in (0, 1):
                yield Entry(f'circulant n={n} r={r} axis={ax}', lambda n=n, c=c, ax=ax: lop.circulant(n, jnp.asarray(c), axis=ax), M, axis=ax, cplx=False)


def g_random(sizes):
    from cr.sparse import lop
    import cr.sparse.dict as crdict
    import jax
    k = jax.random.PRNGKey(3)
    for n in (3, 4):
        yield Entry(f'gaussian_dict {n} square by default', lambda n=n: lop.gaussian_dict(k, n), np.asarray(crdict.gaussian_mtx(k, n, n)))
        yield Entry(f'rademacher_dict {n} square by default', lambda n=n: lop.rademacher_dict(k, n), np.asarray(crdict.rademacher_mtx(k, n, n)))
        yield Entry(f'random_orthonormal_rows_dict {n} square by default', lambda n=n: lop.random_orthonormal_rows_dict(k, n), np.asarray(crdict.random_orthonormal_rows(k, n, n)))
        yield Entry(f'sparse_binary_dict {n} square by default', lambda n=n: lop.sparse_binary_dict(k, n, d=2), np.asarray(crdict.sparse_binary_mtx(k, n, n, d=2, dense=True)), cplx=False)
    yield Entry('sparse_binary_dict 12x4 default d', lambda: lop.sparse_binary_dict(k, 12, 4), np.asarray(crdict.sparse_binary_mtx(k, 12, 4, d=10, dense=True)), cplx=False)
    for key in (0, 1):
        k = jax.random.PRNGKey(key)
        for m, n in sizes:
            for ax in (0, 1):
                for norm in (True, False):
                    yield Entry(f'gaussian_dict key={key} {m}x{n} normalize={norm} axis={ax}',
                                lambda k=k, m=m, n=n, norm=norm, ax=ax: lop.gaussian_dict(k, m, n, normalize_atoms=norm, axis=ax),
                                np.asarray(crdict.gaussian_mtx(k, m, n, normalize_atoms=norm)), axis=ax)
                    yield Entry(f'rademacher_dict key={key} {m}x{n} normalize={norm} axis={ax}',
                                lambda k=k, m=m, n=n, norm=norm, ax=ax: lop.rademacher_dict(k, m, n, normalize_atoms=norm, axis=ax),
                                np.asarray(crdict.rademacher_mtx(k, m, n, normalize_atoms=norm)), axis=ax)
                    for dense in (True, False):
                        yield Entry(f'sparse_binary_dict key={key} {m}x{n} d=2 normalize={norm} dense={dense} axis={ax}',
                                    lambda k=k, m=m, n=n, norm=norm, dense=dense, ax=ax: lop.sparse_binary_dict(k, m, n, d=2, normalize_atoms=norm, dense=dense, axis=ax),
                                    np.asarray(crdict.sparse_binary_mtx(k, m, n, d=2, normalize_atoms=norm, dense=True)), axis=ax, cplx=False)
                if m <= 4 and n <= 5:
                    M = np.stack([np.asarray(jax.random.bernoulli(kk, shape=(m,))) for kk in jax.random.split(k, n)], 1).astype(float)
                    yield Entry(f'binary_dict_alg key={key} {m}x{n} axis={ax}', lambda k=k, m=m, n=n, ax=ax: lop.binary_dict_alg(k, m, n, axis=ax), M, axis=ax, slow=True)
                if m <= n:
                    yield Entry(f'random_orthonormal_rows_dict key={key} {m}x{n} axis={ax}',
                                lambda k=k, m=m, n=n, ax=ax: lop.random_orthonormal_rows_dict(k, m, n, axis=ax),
                                np.asarray(crdict.random_orthonormal_rows(k, m, n)), axis=ax)
                if m == n:
                    yield Entry(f'random_onb_dict key={key} n={n} axis={ax}', lambda k=k, n=n, ax=ax: lop.random_onb_dict(k, n, axis=ax),
                                np.asarray(crdict.random_onb(k, n)), axis=ax)


def g_windowed(sizes):
    from cr.sparse import lop
    import jax.numpy as jnp
    import math
    inner = [('matrix 2x2', lambda: lop.matrix(jnp.asarray(genm(2, 2, 3))), genm(2, 2, 3)),
             ('matrix 3x2', lambda: lop.matrix(jnp.asarray(genm(3, 2, 3))), genm(3, 2, 3)),
             ('matrix 2x4', lambda: lop.matrix(jnp.asarray(genm(2, 4, 3))), genm(2, 4, 3)),
             ('cosine 4', lambda: lop.cosine_basis(4), dct2_ortho(4).T),
             ('complex 3x3', lambda: lop.matrix(jnp.asarray(genm(3, 3, 5, True))), genm(3, 3, 5, True))]
    for nm, f, T in inner:
        tm, tn = T.shape
        for m in sizes:
            if m < tm:
                continue
            for ov in range(tm):
                off = tm - ov
                nb = max(1, math.ceil((m - tm) / off) + 1)
                full = np.zeros((tm + (nb - 1) * off, nb * tn), dtype=T.dtype)
                for b in range(nb):
                    full[b * off:b * off + tm, b * tn:(b + 1) * tn] += T
                for ax in ((0, 1) if nm == 'matrix 2x2' else (0,)):
                    yield Entry(f'windowed_op m={m} T={nm} overlap={ov} axis={ax}',
                                lambda m=m, f=f, ov=ov, ax=ax: lop.windowed_op(m, f(), ov, axis=ax), full[:m], axis=ax,
                                cplx=(nm != 'cosine 4'), slow=True)


def g_blockdiag(_):
    from cr.sparse import lop
    import jax.numpy as jnp
    parts = {
        'M23': (lambda: lop.matrix(jnp.asarray(genm(2, 3, 3))), genm(2, 3, 3)),
        'M31': (lambda: lop.matrix(jnp.asarray(genm(3, 1, 4))), genm(3, 1, 4)),
        'I2': (lambda: lop.identity(2), np.eye(2)),
        'Z12': (lambda: lop.zero(2, 1), np.zeros((1, 2))),
        'C22': (lambda: lop.matrix(jnp.asarray(genm(2, 2, 5, True))), genm(2, 2, 5, True)),
        'D4': (lambda: lop.cosine_basis(4), dct2_ortho(4).T),
    }
    names = list(parts)
    combos = list(itertools.product(names, repeat=2)) + [c for c in itertools.product(names[:5], repeat=3)]
    combos += [('M23', 'M31', 'M23', 'M31'), ('M31', 'Z12', 'C22', 'M23', 'M31'), ('I2', 'M23', 'M23', 'M31', 'I2', 'M23')]
    for c in combos:
        M = scipy.linalg.block_diag(*[parts[p][1] for p in c])
        for ax in ((0, 1) if len(c) == 2 else (0,)):
            yield Entry(f'block_diag {"+".join(c)} axis={ax}',
                        lambda c=c, ax=ax: lop.block_diag([parts[p][0]() for p in c], axis=ax), M, axis=ax,
                        cplx=('D4' not in c))


def g_axes(_):
    """every constructor with an axis argument: negative axis, and the last axis of three dimensional stacks"""
    from cr.sparse import lop
    from jax.experimental.sparse import BCOO
    import cr.sparse.dict as crdict
    import jax
    import jax.numpy as jnp
    A, C = genm(3, 4, 3), genm(4, 3, 5, True)
    S = A * (np.add.outer(np.arange(3), np.arange(4)) % 3 != 0)
    d, h, h4 = gen(4, 4, True), gen(3, 6, True), gen(4, 6)
    lo, hi, _ = wave('db2')
    k = jax.random.PRNGKey(3)
    L = np.tril(np.ones((4, 4)))
    D = np.eye(4) - np.diag(np.ones(3), -1)
    w = np.sqrt(np.arange(4, 0, -1.0))
    circ = np.array([[gen(4, 4)[(i - j) % 4] for j in range(4)] for i in range(4)])
    v = gen(4, 7)
    W2 = np.zeros((4, 6))
    for b in range(3):
        W2[b:b + 2, 2 * b:2 * b + 2] += genm(2, 2, 3)
    mk = [('identity 3->5', lambda ax: lop.identity(3, 5, axis=ax), np.eye(5, 3), True),
          ('identity 5->3', lambda ax: lop.identity(5, 3, axis=ax), np.eye(3, 5), True),
          ('matrix 3x4', lambda ax: lop.matrix(jnp.asarray(A), axis=ax), A, True),
          ('matrix complex 4x3', lambda ax: lop.matrix(jnp.asarray(C), axis=ax), C, True),
          ('sparse_real_matrix 3x4', lambda ax: lop.sparse_real_matrix(BCOO.fromdense(jnp.asarray(S)), axis=ax), S, False),
          ('diagonal 4', lambda ax: lop.diagonal(jnp.asarray(d), axis=ax), np.diag(d), True),
          ('zero 3->2', lambda ax: lop.zero(3, 2, axis=ax), np.zeros((2, 3)), True),
          ('restriction 4', lambda ax: lop.restriction(4, jnp.array([3, 0, 2]), axis=ax), np.eye(4)[[3, 0, 2]], True),
          ('heaviside 4', lambda ax: lop.heaviside(4, axis=ax), L / w, True),
          ('inv_heaviside 4', lambda ax: lop.inv_heaviside(4, axis=ax), w[:, None] * D, True),
          ('cumsum 4', lambda ax: lop.cumsum(4, axis=ax), L, True),
          ('diff 4', lambda ax: lop.diff(4, axis=ax), D, True),
          ('dot 4', lambda ax: lop.dot(jnp.asarray(v), axis=ax), v[None, :], False),
          ('dot adjoint 4', lambda ax: lop.dot(jnp.asarray(v), adjoint=True, axis=ax), v[:, None], False),
          ('running_average 5 length 4', lambda ax: lop.running_average(5, 4, axis=ax), conv_matrix(5, np.ones(4) / 4, 1), True),
          ('fir_filter 5', lambda ax: lop.fir_filter(5, jnp.asarray(h), axis=ax), conv_matrix(5, h, 1), True),
          ('convolve 5', lambda ax: lop.convolve(5, jnp.asarray(h4), 2, axis=ax), conv_matrix(5, h4, 2), True),
          ('fft 3->5', lambda ax: lop.fft(3, 5, axis=ax, mode='c2c'), dft(5, 3), True),
          ('dwt 6', lambda ax: lop.dwt(6, wavelet='db2', level=1, axis=ax), dwt_matrix(8, lo, hi, 1)[:, :6], True),
          ('dwt 6 basis', lambda ax: lop.dwt(6, wavelet='db2', level=1, axis=ax, basis=True), dwt_matrix(8, lo, hi, 1)[:, :6].T, True),
          ('tv 4 regular', lambda ax: lop.tv(4, 'regular', axis=ax), tv_matrix(4, 'regular'), True),
          ('tv 4 dirichlet', lambda ax: lop.tv(4, 'dirichlet', axis=ax), tv_matrix(4, 'dirichlet'), True),
          ('tv 4 circular', lambda ax: lop.tv(4, 'circular', axis=ax), tv_matrix(4, 'circular'), True),
          ('circulant 4', lambda ax: lop.circulant(4, jnp.asarray(gen(4, 4)), axis=ax), circ, False),
          ('gaussian_dict 3x5', lambda ax: lop.gaussian_dict(k, 3, 5, axis=ax), np.asarray(crdict.gaussian_mtx(k, 3, 5)), True),
          ('rademacher_dict 3x5', lambda ax: lop.rademacher_dict(k, 3, 5, axis=ax), np.asarray(crdict.rademacher_mtx(k, 3, 5)), True),
          ('random_onb_dict 4', lambda ax: lop.random_onb_dict(k, 4, axis=ax), np.asarray(crdict.random_onb(k, 4)), True),
          ('random_orthonormal_rows_dict 3x5', lambda ax: lop.random_orthonormal_rows_dict(k, 3, 5, axis=ax),
           np.asarray(crdict.random_orthonormal_rows(k, 3, 5)), True),
          ('sparse_binary_dict 4x6', lambda ax: lop.sparse_binary_dict(k, 4, 6, d=2, axis=ax),
           np.asarray(crdict.sparse_binary_mtx(k, 4, 6, d=2, dense=True)), False),
          ('binary_dict_alg 3x4', lambda ax: lop.binary_dict_alg(k, 3, 4, axis=ax),
           np.stack([np.asarray(jax.random.bernoulli(kk, shape=(3,))) for kk in jax.random.split(k, 4)], 1).astype(float), True),
          ('windowed_op 4', lambda ax: lop.windowed_op(4, lop.matrix(jnp.asarray(genm(2, 2, 3))), 1, axis=ax), W2, True),
          ('block_diag', lambda ax: lop.block_diag([lop.matrix(jnp.asarray(genm(2, 3, 3))), lop.matrix(jnp.asarray(genm(3, 1, 4))), lop.identity(2)], axis=ax),
           scipy.linalg.block_diag(genm(2, 3, 3), genm(3, 1, 4), np.eye(2)), True)]
    for nm, f, M, cplx in mk:
        for ax in (-1,) if nm.startswith('fft') else (-1, 2):
            yield Entry(f'{nm} axis={ax}', lambda f=f, ax=ax: f(ax), M, axis=ax, cplx=cplx, tol=2e-7, slow=nm[:3] in ('bin', 'win'))


def groups(tier):
    """list of (group function name, argument) — the catalogue, split into tasks"""
    t = tier == 'thorough'
    s1 = [1, 2, 3, 4, 5, 7, 8, 16] + ([6, 9, 12, 15, 17, 32, 64] if t else [33])
    s2 = [2, 3, 4, 5, 6, 7, 8, 16] + ([9, 12, 15, 17, 32, 64] if t else [33])
    s3 = [3, 4, 5, 6, 7, 8, 16] + ([9, 12, 15, 17, 32, 64] if t else [33])
    gs = [('g_identity', [1, 2, 3, 4, 5, 8, 16]), ('g_matrix', [1, 2, 3, 5] + ([4, 7, 16] if t else [])),
          ('g_sparse', [2, 3, 5]), ('g_diag', s1), ('g_zero', [1, 2, 3, 5]), ('g_simple', s1),
          ('g_restriction', [1, 2, 3, 4] + ([5, 6] if t else [])), ('g_heaviside', s1), ('g_reshape', None),
          ('g_dot', [1, 2, 3, 5, 8]), ('g_onb', s1 + [64]), ('g_tv', s2), ('g_calculus', s3), ('g_circulant', s1),
          ('g_random', [(3, 5), (5, 3), (4, 4), (6, 12)] + ([(16, 32), (8, 8)] if t else [])), ('g_blockdiag', None),
          ('g_tv2', [(2, 2), (3, 2), (2, 4), (4, 3), (5, 5)]), ('g_convnd', None), ('g_axes', None)]
    for s in [[1, 2, 3, 4], [5, 6, 7], [8, 9, 16]] + ([[10, 11], [12, 13], [15, 17], [32]] if t else []):
        gs.append(('g_filters', s))
        gs.append(('g_convolve', s if max(s) < 16 else [8, 9]))
        gs.append(('g_fft', s))
    for s in [[2, 3, 4, 5, 6, 7, 8], [9, 12, 15, 16], [17, 24, 32]] + ([[10, 11, 13, 14], [20, 28, 31], [33, 48, 64], [100, 128]] if t else [[64]]):
        gs.append(('g_dwt', s))
    shp = [((4, 4), None), ((4, 8), None), ((8, 4), None), ((3, 5), None), ((6, 4), (0, 1)), ((4, 8), (1, 0)), ((8, 8), None)]
    shp3 = [((2, 4, 4), (1, 2)), ((4, 4, 2), (0, 1)), ((4, 2, 4), (0, 2)), ((4, 3, 2), (0, 1)), ((2, 3, 4), (1, 2))]
    if t:
        shp += [((16, 8), None), ((5, 7), None), ((7, 12), (1, 0)), ((16, 16), None)]
    gs.append(('g_dwt2', shp))
    gs.append(('g_dwt2', shp3))
    gs.append(('g_windowed', [2, 3, 4, 5, 7]))
    gs.append(('g_windowed', [8, 9, 12] + ([10, 11, 16, 20] if t else [])))
    return gs


def entries(group, arg):
    return globals()[group](arg)
