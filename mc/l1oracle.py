"""Exact optima of small l1 problems by complete enumeration of supports, signs and bases (independent of the library)."""
import itertools
import numpy as np


class L1:
    """Enumerated candidates of min 1/2|Ax-y|^2 + lam*|w x|_1 (optionally x >= 0): x = u - lam v on a support with signs."""

    def __init__(self, A, y, w=None, nonneg=False):
        self.A, self.y, self.nonneg = A, y, nonneg
        m, n = A.shape
        self.w = np.ones(n) if w is None else np.asarray(w, float)
        As = A / self.w
        self.As = As
        U, V, S = [np.zeros(n)], [np.zeros(n)], [np.zeros(n)]
        for k in range(1, min(m, n) + 1):
            for I in itertools.combinations(range(n), k):
                B = As[:, I]
                G = B.T @ B
                if np.linalg.cond(G) > 1e10:
                    continue
                Gi = np.linalg.inv(G)
                u0 = Gi @ (B.T @ y)
                for s in itertools.product((1,) if nonneg else (1, -1), repeat=k):
                    u, v, sg = np.zeros(n), np.zeros(n), np.zeros(n)
                    u[list(I)] = u0
                    v[list(I)] = Gi @ np.array(s, float)
                    sg[list(I)] = s
                    U.append(u)
                    V.append(v)
                    S.append(sg)
        self.U, self.V, self.S = np.array(U), np.array(V), np.array(S)

    def solve(self, lam):
        """(x, objective) of the minimiser for lam"""
        X = self.U - lam * self.V
        ok = np.all(X * self.S >= -1e-12, axis=1)
        X = X[ok]
        R = self.y[:, None] - self.As @ X.T
        F = 0.5 * np.sum(R * R, axis=0) + lam * np.sum(np.abs(X), axis=1)
        i = int(np.argmin(F))
        return X[i] / self.w, float(F[i])

    @property
    def lam_max(self):
        g = self.As.T @ self.y
        return float(np.max(g) if self.nonneg else np.max(np.abs(g)))

    def l1_of(self, x):
        return float(np.sum(np.abs(self.w * x)))

    def bisect(self, ok):
        """largest lam in (0, lam_max) with ok(x(lam)) false->true ordering decreasing"""
        lo, hi = 1e-14, max(self.lam_max, 1e-13)
        for _ in range(70):
            mid = np.sqrt(lo * hi)
            if ok(self.solve(mid)[0]):
                lo = mid
            else:
                hi = mid
        return self.solve(lo)[0]

    def bpic(self, sigma):
        """min |w x|_1 st |Ax-y| <= sigma (optimal value)"""
        if np.linalg.norm(self.y) <= sigma:
            return 0.
        return self.l1_of(self.bisect(lambda x: np.linalg.norm(self.A @ x - self.y) <= sigma))

    def lasso(self, tau):
        """min 1/2|Ax-y|^2 st |w x|_1 <= tau (optimal value)"""
        lo, hi = 1e-14, max(self.lam_max, 1e-13)
        x = self.solve(lo)[0]
        if self.l1_of(x) > tau:
            for _ in range(70):
                mid = np.sqrt(lo * hi)
                if self.l1_of(self.solve(mid)[0]) > tau:
                    lo = mid
                else:
                    hi = mid
            x = self.solve(hi)[0]
        return 0.5 * float(np.sum((self.A @ x - self.y) ** 2))


def bp_opt(A, b, w=None, nonneg=False):
    """min |w x|_1 st A x = b over all bases; (value, all optimal x)"""
    m, n = A.shape
    w = np.ones(n) if w is None else w
    best, arg = np.inf, None
    for I in itertools.combinations(range(n), m):
        B = A[:, I]
        if abs(np.linalg.det(B)) < 1e-10:
            continue
        x = np.zeros(n)
        x[list(I)] = np.linalg.solve(B, b)
        if nonneg and np.min(x) < -1e-10:
            continue
        v = np.sum(np.abs(w * x))
        if v < best:
            best, arg = v, x
    return float(best), arg
