"""Independent solution of the discrete-ordinate boundary-value problem by multiple shooting.

No eigen-decomposition, no particular solutions: every layer is cut into slabs a few times the smallest
stream cosine thick, the (augmented) linear ODE is propagated over a slab with a matrix exponential, and the
propagation relations of all slabs plus the boundary conditions are solved together as one banded system.
"""
import numpy as np
from scipy.linalg import expm, solve_banded


class Reference:
    def __init__(self, p, n_max=160):
        self.p = p
        h0 = 2.5 * p.mup[0]
        self.n = np.maximum(1, np.ceil(p.th * p.scale / h0)).astype(int)
        assert np.all(self.n <= n_max), self.n
        self.tau = np.concatenate([[0.0]] + [p.tau0[l] + p.th[l] * np.arange(1, self.n[l] + 1) / self.n[l] for l in range(p.NLayers)])
        first = np.concatenate(([0], np.cumsum(self.n)))
        self.tau[first[1:]] = p.tau
        self.lay = np.repeat(np.arange(p.NLayers), self.n)
        self.first = first
        self.modes = np.array([self._solve(m) for m in range(p.NF)])  # (NF, NQuad, points)

    def _slab(self, m, l, h):
        """E, G, H with u(b) = E u(a) + G exp(-tau*(a)/mu0) + H [s(a), s'(a), ...] over a slab of thickness h."""
        p = self.p
        Q = p.NQuad
        ns = p.s.shape[1] if (m == 0 and p.s is not None) else 0
        D, X = p.kernel(m, l)
        A = np.zeros((Q + 1 + ns, Q + 1 + ns))
        A[:Q, :Q] = p.scale[l] / p.mu[:, None] * (np.eye(Q) - D * p.ww[None, :])
        if p.beam:
            A[:Q, Q] = -p.scale[l] * X / p.mu
            A[Q, Q] = -p.scale[l] / p.mu0
        if ns:
            A[:Q, Q + 1] = -(1 - p.om[l]) / p.mu
            for k in range(ns - 1):
                A[Q + 1 + k, Q + 2 + k] = 1.0
        M = expm(A * h)
        return M[:Q, :Q], M[:Q, Q], M[:Q, Q + 1:]

    def _solve(self, m):
        p = self.p
        Q, N = p.NQuad, p.N
        K = len(self.lay)
        kl = Q + N - 1
        n = Q * (K + 1)
        ab = np.zeros((2 * kl + 1, n))
        rhs = np.zeros(n)

        def put(r0, c0, B):
            i, j = np.meshgrid(np.arange(B.shape[0]), np.arange(B.shape[1]), indexing="ij")
            ab[kl + (r0 + i) - (c0 + j), c0 + j] = B

        put(0, N, np.eye(N))
        rhs[:N] = p.bval("bneg")[:, m]
        for l in range(p.NLayers):
            h = p.th[l] / self.n[l]
            E, G, H = self._slab(m, l, h)
            for k in range(self.first[l], self.first[l + 1]):
                r = N + k * Q
                put(r, k * Q, -E)
                put(r, (k + 1) * Q, np.eye(Q))
                f = np.zeros(Q)
                t = self.tau[k]
                if p.beam:
                    f = f + G * np.exp(-p.scaled(np.array([t]), np.array([l]))[0] / p.mu0)
                if H.shape[1]:
                    d, c = [], p.s[l]
                    for _ in range(H.shape[1]):
                        d.append(np.polynomial.polynomial.polyval(t, c))
                        c = np.polynomial.polynomial.polyder(c) if len(c) > 1 else np.zeros(1)
                    f = f + H @ np.array(d)
                rhs[r:r + Q] = f
        zero = p.reflect(m, np.zeros(N))
        R = np.stack([p.reflect(m, e) - zero for e in np.eye(N)], axis=1)
        put(N + K * Q, K * Q, np.hstack((np.eye(N), -R)))
        rhs[N + K * Q:] = p.bval("bpos")[:, m] + zero
        return solve_banded((kl, kl), ab, rhs).reshape(K + 1, Q).T
