"""Independent reference quantities for the discrete-ordinate problem.

Nothing here imports or copies the code under test: own associated-Legendre recurrence (normalised,
so no Pochhammer factors), own delta-M scaling, own kernels, own graded Gauss quadrature in depth.
"""
import functools
import numpy as np


@functools.lru_cache(maxsize=None)
def half_gauss(N):
    x, w = np.polynomial.legendre.leggauss(N)
    return (x + 1) / 2, w / 2


@functools.lru_cache(maxsize=None)
def _gl(n):
    return np.polynomial.legendre.leggauss(n)


def norm_legendre(m, lmax, x):
    """sqrt((l-m)!/(l+m)!) P_l^m(x) for l = m..lmax (rows), up to the (-1)^m phase."""
    x = np.asarray(x, dtype=float)
    out = np.zeros((max(lmax - m + 1, 0),) + x.shape)
    if lmax < m:
        return out
    p = np.ones_like(x)
    s = np.sqrt(np.maximum(1 - x * x, 0))
    for k in range(1, m + 1):
        p = p * s * np.sqrt((2 * k - 1) / (2 * k))
    out[0] = p
    if lmax > m:
        out[1] = np.sqrt(2 * m + 1) * x * p
    for l in range(m + 2, lmax + 1):
        i = l - m
        out[i] = ((2 * l - 1) * x * out[i - 1] - np.sqrt((l - 1) ** 2 - m * m) * out[i - 2]) / np.sqrt(l * l - m * m)
    return out


def phase_coeffs(ph, n):
    """Unweighted Legendre coefficients (length n) of a phase function descriptor."""
    l = np.arange(n)
    k = ph["k"]
    if k == "iso":
        c = np.zeros(n)
    elif k == "hg":
        c = float(ph["g"]) ** l if ph["g"] != 0 else np.zeros(n)
    elif k == "ray":
        c = np.zeros(n)
        if n > 2:
            c[2] = 0.1
    elif k == "mix":
        c = ph["a"] * (float(ph["g1"]) ** l) + (1 - ph["a"]) * (float(ph["g2"]) ** l)
    elif k == "dec":  # arbitrary signed coefficients with a decaying envelope
        c = np.zeros(n)
        v = ph["c"]
        for i in range(1, n):
            c[i] = v[(i - 1) % len(v)] * ph["r"] ** i
    else:
        raise KeyError(k)
    if "tw" in ph:  # one coefficient (counted from the end if negative) differs
        j, d = ph["tw"]
        j = 1 + j % (n - 1) if j >= 0 and n > 1 else n - 1
        if n > 1:
            c[j] = min(max(c[j] + d, -0.9), 0.95)
    c = c * ph.get("damp", 1.0) ** l
    c[0] = 1.0
    return c


class Problem:
    """Arrays and reference quantities of a problem spec (see gen.py)."""

    def __init__(self, spec):
        self.spec = spec
        L = spec["layers"]
        self.NQuad = spec["NQuad"]
        self.N = self.NQuad // 2
        self.NLayers = len(L)
        self.NLeg = spec.get("NLeg") or self.NQuad
        self.NF = spec.get("NF") or self.NQuad
        self.NLeg_all = self.NLeg + spec.get("extra", 0)
        self.th = np.array([float(x["th"]) for x in L])
        self.tau = np.array(spec["tau"], dtype=float) if spec.get("tau") else np.cumsum(self.th)
        self.th = np.diff(np.concatenate(([0.0], self.tau)))
        self.om = np.array([float(x["om"]) for x in L])
        self.g = np.array([phase_coeffs(x["ph"], self.NLeg_all) for x in L])
        self.f = np.array([self._f(x, i) for i, x in enumerate(L)])
        self.mu0, self.I0, self.phi0 = spec["mu0"], spec["I0"], spec["phi0"]
        self.beam = self.I0 > 0
        H = spec.get("H", 1.0)
        ns = spec.get("ns", 0)
        if ns:
            self.s = np.array([[float(c) / H**n for n, c in enumerate((list(x["s"]) + [0.0] * ns)[:ns])] for x in L])
        else:
            self.s = None
        # scaled quantities
        self.scale = 1 - self.om * self.f
        self.om_s = self.om * (1 - self.f) / self.scale
        self.g_s = (self.g[:, : self.NLeg] - self.f[:, None]) / (1 - self.f)[:, None]
        self.tau_s0 = np.concatenate(([0.0], np.cumsum(self.scale * self.th)))
        self.tau0 = np.concatenate(([0.0], self.tau))
        self.mup, self.w = half_gauss(self.N)
        self.mu = np.concatenate((self.mup, -self.mup))
        self.ww = np.concatenate((self.w, self.w))
        self._kern = {}
        self._leg = {}

    def _f(self, x, i):
        f = x.get("f", 0)
        if f == "g":
            n = self.NLeg
            # the recommended choice: the first coefficient that is dropped by the solver
            c = phase_coeffs(x["ph"], n + 1)[n]
            f = max(float(c), 0.0)
        f = float(f)
        gmin = float(np.min(self.g[i, : self.NLeg]))
        return float(min(f, max((0.6 + gmin) / 1.6, 0.0), 0.95))

    # ---- kernels -------------------------------------------------------------------------------
    def kernel(self, m, l):
        """(D, X): D[i,j] multiplies w_j u_j; X[i] multiplies exp(-tau*/mu0)."""
        key = (m, l)
        if key not in self._kern:
            Y = self._legendre(m)
            c = (2 * np.arange(m, self.NLeg) + 1) * self.g_s[l, m:]
            D = self.om_s[l] / 2 * (Y.T * c) @ Y
            X = np.zeros(self.NQuad)
            if self.beam:
                y0 = self._legendre0(m)
                X = self.om_s[l] * self.I0 / (4 * np.pi) * (1 if m == 0 else 2) * (Y.T * c) @ y0
            self._kern[key] = (D, X)
        return self._kern[key]

    def _legendre(self, m):
        if m not in self._leg:
            self._leg[m] = norm_legendre(m, self.NLeg - 1, np.append(self.mu, -self.mu0 if self.beam else 0.0))
        return self._leg[m][:, :-1]

    def _legendre0(self, m):
        self._legendre(m)
        return self._leg[m][:, -1]

    def k2(self, m, l):
        """Eigenvalues of the squared coefficient matrix, via a symmetrised independent route."""
        N = self.N
        D, _ = self.kernel(m, l)
        Dp, Dn = D[:N, :N], D[:N, N:]
        A = (np.diag(1 / self.w) - (Dp + Dn))  # symmetric
        B = (np.diag(1 / self.w) - (Dp - Dn))
        d = np.sqrt(self.w / self.mup)
        # eigenvalues of M^-1 W B W^... : (W^1/2..)
        A = d[:, None] * A * (d[None, :])
        B = d[:, None] * B * (d[None, :])
        return A, B

    def k2_eigs(self, m, l):
        A, B = self.k2(m, l)
        ea = np.linalg.eigvalsh(A)
        if ea[0] <= 0:
            return None
        try:
            Lc = np.linalg.cholesky(B)
        except np.linalg.LinAlgError:
            return None
        return np.linalg.eigvalsh(Lc.T @ A @ Lc)

    # ---- depth helpers -------------------------------------------------------------------------
    def layer_of(self, t):
        return np.minimum(np.searchsorted(self.tau, t, side="left"), self.NLayers - 1)

    def scaled(self, t, l=None):
        t = np.asarray(t, dtype=float)
        if l is None:
            l = self.layer_of(t)
        return self.tau_s0[l] + (t - self.tau0[l]) * self.scale[l]

    def source(self, t, l):
        """Isotropic source s(tau) of layer l (before the factor 1-omega)."""
        if self.s is None:
            return np.zeros_like(np.asarray(t, dtype=float))
        return np.polynomial.polynomial.polyval(np.asarray(t, dtype=float), self.s[l])

    def source_scale(self):
        """A magnitude that bounds the radiation up to an O(1) factor."""
        v = 0.0
        if self.beam:
            v = max(v, float(self.I0))
        for b in (self.bval("bpos"), self.bval("bneg")):
            v = max(v, float(np.max(np.abs(b))))
        if self.s is not None:
            v = max(v, float(np.max(np.abs(self.s) * self.tau[:, None] ** np.arange(self.s.shape[1]))))
        return v

    # ---- documented intensity corrections -------------------------------------------------------
    def _phase_sum(self, coeffs, nu):
        P = norm_legendre(0, len(coeffs) - 1, nu)
        return np.tensordot((2 * np.arange(len(coeffs)) + 1) * coeffs, P, axes=(0, 0))

    def _nu(self, mu, phi):
        s = np.sqrt(np.maximum(1 - mu**2, 0)) * np.sqrt(max(1 - self.mu0**2, 0.0))
        return -mu[:, None] * self.mu0 + s[:, None] * np.cos(np.asarray(phi)[None, :] - self.phi0)

    def tms(self, t, phi):
        """Difference of the single-scattering solutions with full and truncated phase function (NQuad, Nt, Nphi)."""
        t = np.asarray(t, dtype=float)
        nu = self._nu(self.mu, phi)
        S = np.array([
            self.om_s[l] * self.I0 / (4 * np.pi)
            * (self._phase_sum(self.g[l], nu) / (1 - self.f[l]) - self._phase_sum(self.g_s[l], nu))
            for l in range(self.NLayers)
        ])  # (NLayers, NQuad, Nphi)
        ts = self.scaled(t)
        out = np.zeros((self.NQuad, len(t), len(phi)))
        N = self.N
        for l in range(self.NLayers):
            A, B = self.tau_s0[l], self.tau_s0[l + 1]
            # upward: radiation from the part of the layer below the level
            a = np.maximum(ts, A)
            h = np.maximum(B - a, 0.0)
            c = 1 / self.mu0 + 1 / self.mup[:, None]
            e = np.exp(-a[None] / self.mu0 - (a - ts)[None] / self.mup[:, None]) * -np.expm1(-c * h[None]) / (c * self.mup[:, None])
            out[:N] += e[:, :, None] * S[l, :N][:, None, :]
            # downward: radiation from the part of the layer above the level
            b = np.minimum(ts, B)
            h = np.maximum(b - A, 0.0)
            c = 1 / self.mu0 - 1 / self.mup[:, None]
            lo = -A / self.mu0 - np.maximum(ts - A, 0)[None] / self.mup[:, None]
            hi = -b[None] / self.mu0 - np.maximum(ts - b, 0)[None] / self.mup[:, None]
            ac = np.abs(c)
            e = np.where(h[None] > 0, np.exp(np.where(c > 0, lo, hi)) * -np.expm1(-ac * h[None]) / (ac * self.mup[:, None]), 0.0)
            out[N:] += e[:, :, None] * S[l, N:][:, None, :]
        return out

    def ims(self, t, phi):
        """Documented secondary-scattering correction of downward directions (N, Nt, Nphi)."""
        t = np.asarray(t, dtype=float)
        th = self.th
        s1 = np.sum(self.om * th)
        s2 = np.sum(self.om * self.f * th)
        omf = s2 / np.sum(th)  # product of the average albedo and the average fraction
        R = self.g.copy()
        R[:, : self.NLeg] = self.f[:, None]
        Rb = np.sum(R * (self.om * th)[:, None], axis=0) / s2
        sm = self.mu0 / (1 - omf)
        nu = self._nu(-self.mup, phi)
        P = self._phase_sum(2 * Rb - Rb**2, nu)
        chi = np.zeros((self.N, len(t)))
        for j, tt in enumerate(t):
            if tt <= 0:
                continue
            x, w = graded_rule(0.0, tt, min(self.mup[0], sm), 16)
            chi[:, j] = (np.exp(-(tt - x)[None] / self.mup[:, None]) @ (w * x * np.exp(-x / sm))) / (self.mup * sm)
        return self.I0 / (4 * np.pi) * omf**2 / (1 - omf) * P[:, None, :] * chi[:, :, None]

    # ---- boundary & surface --------------------------------------------------------------------
    def bval(self, key):
        """Dirichlet values as N x NF array."""
        b = self.spec.get(key) or {"k": "s", "v": 0}
        out = np.zeros((self.N, self.NF))
        if b["k"] == "s":
            out[:, 0] = b["v"]
        elif b["k"] == "v":
            out[:, 0] = [float(b["v"][i % len(b["v"])]) for i in range(self.N)]
        else:
            rows = b["v"]
            for m in range(self.NF):
                r = rows[m % len(rows)]
                fac = b.get("decay", 0.5) ** m
                out[:, m] = [fac * float(r[i % len(r)]) for i in range(self.N)]
        return out

    def barg(self, key):
        b = self.spec.get(key) or {"k": "s", "v": 0}
        if b["k"] == "s":
            return b["v"]
        if b["k"] == "v":
            return self.bval(key)[:, 0].copy()
        return self.bval(key)

    def brdf_fn(self, m):
        """Reflectance mode m as a function of arrays (mu, mu')."""
        modes = self.spec.get("bdrf") or []
        if m >= len(modes):
            return None
        d = modes[m]
        if d["k"] in ("s",):
            return lambda mu, mup: np.full((len(mu), len(mup)), float(d["v"]))
        a, b, c, e = d["v"]
        return lambda mu, mup: a + b * np.asarray(mu)[:, None] + c * np.asarray(mup)[None, :] ** 2 + e * np.outer(mu, mup)

    def brdf_arg(self):
        out = []
        for m, d in enumerate(self.spec.get("bdrf") or []):
            out.append(float(d["v"]) if d["k"] == "s" else self.brdf_fn(m))
        return out

    def reflect(self, m, down, t_bottom_s=None):
        """Upward intensity of mode m caused by the surface, for downward intensity `down` (N,...)."""
        fn = self.brdf_fn(m)
        if fn is None:
            return np.zeros_like(down)
        R = (2.0 if m == 0 else 1.0) * fn(self.mup, self.mup) * (self.mup * self.w)[None, :]
        out = R @ down
        if self.beam:
            X = fn(self.mup, np.array([self.mu0]))[:, 0] * self.mu0 * self.I0 / np.pi * np.exp(-self.tau_s0[-1] / self.mu0)
            out = out + (X if down.ndim == 1 else X[:, None])
        return out


def graded_panels(a, b, h):
    """Breakpoints of [a, b], geometrically graded towards both ends, smallest panel ~ h."""
    L = b - a
    if L <= 2 * h:
        return np.array([a, b])
    d = [0.0]
    x = h
    while x < L / 2:
        d.append(x)
        x *= 2
    left = [a + v for v in d]
    right = [b - v for v in d]
    mid = [(a + b) / 2]
    pts = np.array(sorted(set(left + mid + right)))
    return pts


def graded_rule(a, b, h, n=12):
    """Gauss nodes and weights on the graded panels of [a, b]."""
    p = graded_panels(a, b, h)
    x, w = _gl(n)
    lo, hi = p[:-1, None], p[1:, None]
    nodes = (lo + hi) / 2 + (hi - lo) / 2 * x[None, :]
    ws = (hi - lo) / 2 * w[None, :]
    nodes = np.clip(nodes, a, b)
    return nodes.ravel(), ws.ravel()
