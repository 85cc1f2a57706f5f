import copy
import numpy as np
import scipy.constants as const
from scipy.linalg import solve_banded
from .base import *
from .p1 import all_outputs
from .p2 import only_flux_kw, compare, shifted, sub as subproblem

S = core.sub


# ------------------------------------------------------------------------------------------------- C18
def planck(T, nu):
    x = 100 * const.h * const.c * nu / (const.k * T)
    return 2e8 * const.h * const.c**2 * nu**3 * np.exp(-x) / -np.expm1(-x)


def band(T, lo, hi):
    """Band emission by composite Gauss quadrature, panels no wider than a tenth of the thermal wavenumber."""
    if T == 0 or hi <= lo:
        return 0.0
    w = const.k * T / (100 * const.h * const.c)
    n = int(min(max(4, np.ceil((min(hi, lo + 60 * w) - lo) / w)), 400))
    e = np.linspace(lo, min(hi, lo + 60 * w), n + 1)
    x, g = ref._gl(16)
    nodes = (e[:-1, None] + e[1:, None]) / 2 + (e[1:] - e[:-1])[:, None] / 2 * x
    return float(np.sum(planck(T, nodes) * g * (e[1:] - e[:-1])[:, None] / 2))


class C18(Prop):
    rule = ("random temperatures (0 to 6000 K, scalars and arrays) and wavenumbers (1e-9 to 5e4 cm^-1) vs the Planck law with expm1, band emission vs composite Gauss "
            "integration, additivity, monotonicity; generated source polynomials at layer boundaries; isothermal enclosures with random "
            "optical properties and surfaces built from the helpers vs the blackbody radiance; non-trivial = non-zero temperature")
    quick = 3000
    thorough = 60000

    def strategy(self):
        temp = st.one_of(st.sampled_from([0.0, 300.0, 1.0]), fl(2.0, 400.0), fl(100.0, 6000.0))
        nu = st.one_of(logu(0, 4.7), logu(0, 4.7), logu(0, 4.7), logu(-9, 0))
        return case_of(T=st.lists(temp, min_size=1, max_size=5), nu=nu, lo0=st.sampled_from([False, False, False, False, True]), width=st.one_of(logu(-1, 3.5), logu(-1, 5)), Tiso=fl(50.0, 2000.0),
                       spec=gen.problems(beam="no", thermal="no", bcs="zero", need_source=False, nquads=(2, 4, 6, 8, 12), layers=(1, 12), max_work=60),
                       scalar=st.booleans(), fr=fracs(3), phi=fl(0, 6))

    def check(self, case):
        T = np.array(case["T"])
        nu = case["nu"]
        want = np.array([0.0 if t == 0 else float(planck(t, nu)) for t in T])
        got = arr(call("Planck", S.Planck, T.copy(), nu), "Planck", () if len(T) == 1 else (len(T),)).reshape(-1)
        close("planck:value", got, want, 1e-10, np.abs(want) * 1.0 + 1e-300 + 1e-4 * want)
        if np.any(got[T == 0] != 0):
            raise Violation("Planck(0 K) is not zero")
        for t in T:
            close("planck:scalar", arr(call("Planck", S.Planck, float(t), nu), "Planck", ()), np.asarray(0.0 if t == 0 else planck(t, nu)), 1e-10, 0.0 if t == 0 else planck(t, nu))
        hot = arr(call("Planck", S.Planck, T * 1.01 + 1, nu), "Planck").reshape(-1)
        if np.any(hot < got * (1 - 1e-12)) or np.any(got < 0):
            raise Violation("Planck is not increasing in temperature: %s > %s at T=%s, wavenumber %s" % (got, hot, T, nu))
        cold = call("Planck", S.Planck, np.array([1e-3, 1e-300, 0.0]), 5e4)
        close("planck:cold limit", arr(cold, "Planck at low temperature", (3,)), np.zeros(3), 1e-12, 1.0)
        # band emission
        lo, hi = nu, nu + case["width"]
        mid = lo + 0.37 * case["width"]
        if case["lo0"]:
            lo = 0.0
        B = arr(call("blackbody_contrib_to_BCs", S.blackbody_contrib_to_BCs, T.copy(), lo, hi), "band", () if len(T) == 1 else (len(T),)).reshape(-1)
        wb = np.array([band(t, lo, hi) for t in T])
        sc = np.max(wb) + 1e-145
        close("planck:band", B, wb, 1e-6, sc)
        B1 = np.asarray(call("band", S.blackbody_contrib_to_BCs, T.copy(), lo, mid)).reshape(-1)
        B2 = np.asarray(call("band", S.blackbody_contrib_to_BCs, T.copy(), mid, hi)).reshape(-1)
        close("planck:additive", B1 + B2, B, 1e-6, sc)
        b1 = arr(call("band", S.blackbody_contrib_to_BCs, float(T[0]), lo, hi), "band of a scalar temperature", ())
        close("planck:band scalar", b1, np.asarray(wb[0]), 1e-6, wb[0] + 1e-145)
        close("planck:band kwargs", arr(call("band", S.blackbody_contrib_to_BCs, float(T[0]), lo, hi, epsrel=1e-10), "band", ()), np.asarray(wb[0]), 1e-6, wb[0] + 1e-145)
        # source polynomials
        p = prep(case)
        temps = np.array([T[i % len(T)] + (0 if T[i % len(T)] == 0 else 3.0 * (i // len(T))) for i in range(p.NLayers + 1)])
        tau_in = float(p.tau[0]) if p.NLayers == 1 and case["scalar"] else p.tau.copy()
        co = arr(call("generate_s_poly_coeffs", S.generate_s_poly_coeffs, tau_in, temps.copy(), lo, hi), "s_poly_coeffs", (p.NLayers, 2))
        wt = np.array([band(t, lo, hi) for t in temps])
        mags = np.abs(co[:, 0]) + np.abs(co[:, 1]) * p.tau + np.max(wt) + 1e-145
        close("planck:source top", co[:, 0] + co[:, 1] * p.tau0[:-1], wt[:-1], 1e-6, mags)
        close("planck:source bottom", co[:, 0] + co[:, 1] * p.tau, wt[1:], 1e-6, mags)
        half = (p.tau0[:-1] + p.tau) / 2
        close("planck:source linear", co[:, 0] + co[:, 1] * half, (wt[:-1] + wt[1:]) / 2, 1e-6, mags)
        # isothermal enclosure
        Ti = case["Tiso"]
        b = float(np.asarray(call("band", S.blackbody_contrib_to_BCs, Ti, lo, hi)))
        if b > 1e-140:
            co = call("generate_s_poly_coeffs", S.generate_s_poly_coeffs, p.tau.copy(), np.full(p.NLayers + 1, Ti), lo, hi)
            modes = p.brdf_arg()
            bpos = b
            if modes:
                em = call("generate_emissivity_from_BDRF", S.generate_emissivity_from_BDRF, p.N, modes[0])
                bpos = em * b
            s = Sol(p, b_pos=bpos, b_neg=b, s_poly_coeffs=co)
            t = core.taus(p, case["fr"], 8)
            o = all_outputs(s, t, np.array([case["phi"], 1.0]))
            # the spline loses accuracy where a layer is much thinner than its depth
            loss = float(np.max(p.tau / p.th))
            # layers whose scattering is below the documented threshold (about 1e-8) are treated as non-scattering
            tol = 1e-8 * amp(p) + 2e-7 + 1e-14 * loss + 1e-13 * p.kmin ** -2 * loss
            for k, f in (("u", 1.0), ("u0", 1.0), ("Fp", np.pi), ("Fm diffuse", np.pi), ("actinic up", 2 * np.pi), ("actinic down", 2 * np.pi)):
                close("equilibrium:%s" % k, o[k] / (f * b), np.ones(o[k].shape), tol, 1.0)
            close("equilibrium:direct", o["Fm direct"], np.zeros(len(t)), 1e-12, b)
        return bool(np.any(T > 0))


# ------------------------------------------------------------------------------------------------- C19
class C19(Prop):
    rule = ("random surface (1-6 number/function modes, 1-12 streams per hemisphere) with and without beam; all outputs with cached modes (no angle, "
            "beam angle), with constants replaced by constant functions and cached twice; cached modes evaluated directly; emissivity vs own "
            "quadrature; non-trivial = the surface reflects")
    quick = 3500
    thorough = 70000

    def strategy(self):
        a = gen.problems(bdrf="yes", nquads=(2, 4, 6, 8, 12, 24), layers=(1, 4), max_work=48, thick="moderate")
        b = gen.problems(bdrf="yes", beam="yes", nquads=(2, 2, 4, 6), layers=(1, 11), max_work=44)
        return case_of(spec=st.one_of(a, b), fr=fracs(2), phi=fl(0, 6.3), twice=st.booleans(), near=nears())

    def check(self, case):
        p = near_angle(prep(case), case["near"])
        modes = p.brdf_arg()
        N = p.N
        t = core.subset(p, core.taus(p, case["fr"], 5), case["fr"])
        phi = np.array([case["phi"], p.phi0])
        a = all_outputs(Sol(p), t, phi)
        variants = []
        variants.append(("cached", call("cache", S.cache_BDRF_Fourier_modes, N, list(modes))))
        if p.beam:
            variants.append(("cached with mu0", call("cache", S.cache_BDRF_Fourier_modes, N, list(modes), p.mu0)))
            variants.append(("cached with mu0 keyword", call("cache", S.cache_BDRF_Fourier_modes, N, BDRF_Fourier_modes=list(modes), mu0=p.mu0)))
        if case["twice"]:
            variants.append(("cached twice", call("cache", S.cache_BDRF_Fourier_modes, N, variants[0][1])))
        variants.append(("constant functions", [p.brdf_fn(m) for m in range(len(modes))]))
        variants.append(("integer or numpy scalars", [np.float64(m) if np.isscalar(m) else m for m in modes]))
        for name, ms in variants:
            if len(ms) != len(modes):
                raise Violation("%s: %d modes instead of %d" % (name, len(ms), len(modes)))
            b = all_outputs(Sol(p, "pydisort (%s)" % name, BDRF_Fourier_modes=ms), t, phi)
            compare("surface " + name, b, a, p, 1e-11 * amp(p), 1e-2 * p.mag)
            if name.startswith("cached"):
                for m in range(len(modes)):
                    args = [p.mup] + ([np.array([p.mu0])] if p.beam and "mu0" in name else [])
                    for mp in args:
                        v = call("cached mode", ms[m], p.mup, mp)
                        w = p.brdf_fn(m)(p.mup, mp)
                        close("surface:cached value", np.broadcast_to(arr(v, "cached mode"), w.shape), w, 1e-13, np.max(np.abs(w)) + 1e-290)
        # emissivity
        for z in (modes[0], p.brdf_fn(0)):
            e = arr(call("emissivity", S.generate_emissivity_from_BDRF, N, z), "emissivity")
            w = 1 - 2 * p.brdf_fn(0)(p.mup, p.mup) @ (p.mup * p.w)
            close("surface:emissivity", np.broadcast_to(e, (N,)), w, 1e-12, 1.0)
        return any((m["v"] != 0 if m["k"] == "s" else any(m["v"])) for m in p.spec["bdrf"])


# ------------------------------------------------------------------------------------------------- C20
class C20(Prop):
    rule = ("random orders, intervals, polynomials, matrices and directions; each numerical helper against its defining identity computed "
            "independently; non-trivial = always (each case exercises every helper)")
    quick = 12000
    thorough = 300000

    def strategy(self):
        def sp(lo, hi, *v):  # special values now and then
            return st.one_of(fl(lo, hi), fl(lo, hi), st.sampled_from(v))

        co = st.lists(sp(-3, 3, 0.0, 0.0, 1.0), min_size=1, max_size=7)
        return case_of(
            N=st.one_of(st.integers(1, 8), st.integers(1, 60)), M=st.one_of(st.integers(1, 8), st.integers(1, 60)), c=sp(-20, 20, 0.0, -1.0),
            L=st.one_of(fl(0.001, 40), fl(-10, -0.01), st.sampled_from([1.0, 2.0, -1.0])),
            k=st.integers(0, 130), nfd=st.integers(3, 40), poly=st.lists(co, min_size=1, max_size=4),
            a=st.lists(st.one_of(fl(0.05, 4), fl(-4, -0.05), st.sampled_from([1.0, -1.0, 0.5])), min_size=4, max_size=4),
            b=st.lists(sp(-5, 5, 0.0, 0.0, 1.0), min_size=4, max_size=4), xs=st.lists(sp(0.01, 3, 1.0), min_size=2, max_size=12), ys=st.lists(sp(-10, 10, 0.0, 1.0), min_size=1, max_size=12),
            n=st.integers(1, 14), lu=st.tuples(st.integers(0, 6), st.integers(0, 6)), ent=st.lists(sp(-2, 2, 0.0, 1.0), min_size=1, max_size=17),
            ang=st.lists(st.tuples(sp(-1, 1, -1.0, 1.0, 0.0), sp(-7, 13, 0.0)), min_size=1, max_size=4),
            ang2=st.lists(st.tuples(sp(-1, 1, -1.0, 1.0, 0.0), sp(-7, 13, 0.0)), min_size=1, max_size=3), sc=st.booleans(), mask=st.integers(0, 15),
        )

    def check(self, case):
        c, L, k = case["c"], case["L"], case["k"]
        d = c + L
        # Gauss-Legendre on [c, d] (and the default [0, 1]), checked on shifted Legendre polynomials
        for N, (lo, hi), args in ((case["N"], (c, d), (c, d)), (case["N"], (0.0, 1.0), ())):
            x, w = call("Gauss_Legendre_quad", S.Gauss_Legendre_quad, float(N) if case["sc"] else N, *args)
            x, w = arr(x, "nodes", (N,)), arr(w, "weights", (N,))
            self.rule_exact("Gauss-Legendre", x, w, lo, hi, k % (2 * N))
            self.rule_exact("Gauss-Legendre", x, w, lo, hi, 0)
            if np.any(x < min(lo, hi)) or np.any(x > max(lo, hi)) or len(set(x.tolist())) != N:
                raise Violation("Gauss-Legendre nodes outside the interval or repeated")
        n = 2 * case["M"] + 1
        for lo, hi, args in ((c, d, (c, d)), (0.0, 2 * np.pi, ())):
            x, w = call("Clenshaw_Curtis_quad", S.Clenshaw_Curtis_quad, n, *args)
            x, w = arr(x, "nodes", (n,)), arr(w, "weights", (n,))
            for deg in {k % n, n - 1, 0}:
                self.rule_exact("Clenshaw-Curtis", x, w, lo, hi, deg)
            close("Clenshaw-Curtis:ends", np.array([x[0], x[-1]]), np.array([lo, hi]), 1e-13, abs(lo) + abs(hi) + 1)
        # finite differences
        nf = case["nfd"]
        L1 = abs(L)
        x, D = call("generate_FD_mat", S.generate_FD_mat, nf, c, c + L1)
        close("FD:grid", arr(x, "grid", (nf,)), c + L1 * np.arange(nf) / (nf - 1), 1e-13, abs(c) + L1)
        z = (x - c) / L1
        q = (list(case["poly"][0]) + [0, 0, 0])[:3]
        f = q[0] + q[1] * z + q[2] * z * z
        h = L1 / (nf - 1)
        close("FD:quadratic", arr(D @ f, "derivative", (nf,)), (q[1] + 2 * q[2] * z) / L1, 1e-10 * (1 + abs(c) / L1), (abs(q[0]) + abs(q[1]) + abs(q[2]) + 1) / h)
        if D.shape != (nf, nf):
            raise Violation("FD matrix shape %s" % (D.shape,))
        # affine transformation of polynomials
        P = case["poly"]
        nc = max(len(r) for r in P)
        C = np.array([list(r) + [0.0] * (nc - len(r)) for r in P])
        a, b = np.array(case["a"][: len(P)]), np.array(case["b"][: len(P)])
        keep = C.copy(), a.copy(), b.copy()
        E = arr(call("affine_transform_poly_coeffs", S.affine_transform_poly_coeffs, C, a, b), "coefficients", C.shape)
        if not all(np.array_equal(u, v) for u, v in zip(keep, (C, a, b))):
            raise Violation("affine_transform_poly_coeffs modified its arguments")
        for i in range(len(P)):
            close("affine:coefficients", E[i], shifted(C[i], 1 / a[i], -b[i] / a[i]), 1e-10,
                  np.sum(np.abs(C[i]) * ((1 + np.abs(b[i])) / np.minimum(np.abs(a[i]), 1)) ** np.arange(nc)) + 1e-290)
        # whole-number scale factors and translations may be integers
        ai, bi = np.where(np.round(3 * a) == 0, 2, np.round(3 * a)).astype(int), np.round(case["n"] * 40 * b).astype(int)
        C8 = np.array([[r[k % len(r)] for k in range(8)] for r in P])
        E, F = (call("affine_transform_poly_coeffs", S.affine_transform_poly_coeffs, C8, v(ai), v(bi)) for v in (np.array, lambda u: u.astype(float)))
        for i in range(len(P)):
            close("affine:integers", E[i], F[i], 1e-12, np.sum(np.abs(C8[i]) * (1.0 + np.abs(bi[i])) ** np.arange(8)) + 1e-290)
        # linear spline
        xs = np.cumsum(case["xs"]) + c
        ys = np.array([case["ys"][i % len(case["ys"])] for i in range(len(xs))])
        K = arr(call("linear_spline_coefficients", S.linear_spline_coefficients, xs, ys), "spline", (len(xs) - 1, 2))
        if not np.array_equal(K, call("linear_spline_coefficients", S.linear_spline_coefficients, xs, ys, check_inputs=False)):
            raise Violation("linear_spline_coefficients without input checks differs")
        scale = np.abs(K[:, 0]) + np.abs(K[:, 1]) * (np.abs(xs[1:]) + np.abs(xs[:-1])) + 1
        close("spline:left", K[:, 0] + K[:, 1] * xs[:-1], ys[:-1], 1e-12, scale)
        close("spline:right", K[:, 0] + K[:, 1] * xs[1:], ys[1:], 1e-12, scale)
        # diagonal ordered form
        n = case["n"]
        lo_, up = min(case["lu"][0], n - 1), min(case["lu"][1], n - 1)
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if -lo_ <= j - i <= up:
                    A[i, j] = case["ent"][(3 * i + 7 * j) % len(case["ent"])] + (10 if i == j else 0) + 0.01 * i
        ab = arr(call("to_diag_ordered_form", S.to_diag_ordered_form, A.copy(), up, lo_), "diagonal form", (lo_ + up + 1, n))
        for i in range(n):
            for j in range(n):
                if -lo_ <= j - i <= up and ab[up + i - j, j] != A[i, j]:
                    raise Violation("diagonal ordered form: entry (%d, %d) is %r instead of %r" % (i, j, ab[up + i - j, j], A[i, j]))
        rhs = np.arange(1.0, n + 1)
        try:
            if np.linalg.cond(A) < 1e8:
                close("diagonal form:solution", solve_banded((lo_, up), ab, rhs), np.linalg.solve(A, rhs), 1e-6, np.max(np.abs(np.linalg.solve(A, rhs))))
        except np.linalg.LinAlgError:
            pass
        # scattering angle
        mu, phi = (np.array([z[i] for z in case["ang"]]) for i in (0, 1))
        mp, pp = (np.array([z[i] for z in case["ang2"]]) for i in (0, 1))
        vec = lambda m, f: np.array([np.sqrt(1 - m * m) * np.cos(f), np.sqrt(1 - m * m) * np.sin(f), m + 0 * f])
        want = np.array([[[[vec(m, f) @ vec(n_, g) for g in pp] for n_ in mp] for f in phi] for m in mu])
        # each argument as a scalar or as an array
        args, w = [], want
        for ax, v in enumerate((mu, phi, mp, pp)):
            if case["mask"] >> ax & 1:
                args.append(float(v[0]))
                w = np.take(w, [0], axis=ax)
            else:
                args.append(v)
        got = call("calculate_nu", S.calculate_nu, *args)
        w = np.squeeze(w)
        close("nu:dot product", arr(got, "nu", w.shape), w, 1e-12, 1.0)
        # small helpers
        v = arr(call("prepend", S.prepend, xs, len(xs), c), "prepend", (len(xs) + 1,))
        if v[0] != c or not np.array_equal(v[1:], xs):
            raise Violation("prepend returned %s" % v)
        u = np.array(case["b"])
        lo, hi = -6.0, 6.0
        got = arr(call("transform_interval", S.transform_interval, u, c, d, lo, hi), "transform_interval", u.shape)
        close("transform:interval", got, c + (u - lo) / (hi - lo) * (d - c), 1e-12, abs(c) + abs(d) + 1)
        close("transform:interval ends", arr(S.transform_interval(np.array([lo, hi]), c, d, lo, hi), "ends"), np.array([c, d]), 1e-12, abs(c) + abs(d) + 1)
        close("transform:weights", arr(call("transform_weights", S.transform_weights, u, c, d, lo, hi), "weights"), u * (d - c) / (hi - lo), 1e-12, np.max(np.abs(u)) * abs(L) + 1e-12)
        r = call("atleast_2d_append", S.atleast_2d_append, xs)
        if np.shape(r) != (len(xs), 1) or not np.array_equal(np.ravel(r), xs):
            raise Violation("atleast_2d_append of a vector has shape %s" % (np.shape(r),))
        r = call("atleast_2d_append", S.atleast_2d_append, c, A, xs, np.zeros((2, 3, 4)))
        if len(r) != 4 or [np.shape(z) for z in r] != [(1, 1), A.shape, (len(xs), 1), (2, 3, 4)] or r[0][0, 0] != c or not np.array_equal(r[1], A):
            raise Violation("atleast_2d_append of several arrays: %s" % ([np.shape(z) for z in r],))
        return True

    def rule_exact(self, name, x, w, lo, hi, deg):
        z = (2 * x - (lo + hi)) / (hi - lo)
        Pd = np.polynomial.legendre.legval(z, [0] * deg + [1])
        cond = 1 + (abs(lo) + abs(hi)) / abs(hi - lo)
        close("%s:degree" % name, np.asarray(w @ Pd), np.asarray(hi - lo if deg == 0 else 0.0), 1e-12 * cond * (1 + deg) ** 2, abs(hi - lo))
        if deg == 0:
            return
        # also a monomial-free check with a non-symmetric polynomial of the same degree
        Q = Pd + np.polynomial.legendre.legval(z, [0] * (deg - 1) + [1])
        close("%s:degree" % name, np.asarray(w @ Q), np.asarray(hi - lo if deg == 1 else 0.0), 1e-12 * cond * (1 + deg) ** 2, 2 * abs(hi - lo))


# ------------------------------------------------------------------------------------------------- C21
class C21(Prop):
    rule = ("random atmospheres: upside-down copy with exchanged boundary sources and mirrored internal source; reflection and transmission "
            "matrices of every mode from unit illuminations tested for reciprocity; beam along a quadrature direction vs equivalent "
            "boundary illumination; non-trivial = some scattering layer")
    quick = 6000
    thorough = 80000

    def strategy(self):
        a = gen.problems(beam="no", bdrf="none", nquads=(2, 4, 6, 8, 12), layers=(1, 13), max_work=70)
        b = gen.problems(beam="no", thermal="no", bcs="zero", bdrf="lambert", need_source=False, nquads=(2, 4, 6, 8), layers=(1, 11), max_work=40)
        c = gen.problems(beam="yes", thermal="no", bcs="zero", nquads=(2, 4, 6, 8, 12), layers=(1, 11), max_work=60)
        return st.one_of(case_of(kind=st.just("mirror"), spec=a, fr=fracs(4), phi=fl(0, 6.3)),
                         case_of(kind=st.just("recip"), spec=b),
                         case_of(kind=st.just("beam"), spec=c, fr=fracs(4), j=st.integers(0, 40)))

    def check(self, case):
        return getattr(self, case["kind"])(case)

    def mirror(self, case):
        p = prep(case)
        tb = float(p.tau[-1])
        spec = copy.deepcopy(p.spec)
        spec["layers"] = spec["layers"][::-1]
        spec["tau"] = (tb - p.tau0[:-1][::-1]).tolist()
        spec["bpos"], spec["bneg"] = p.spec["bneg"], p.spec["bpos"]
        over = {}
        q = ref.Problem(spec)
        if p.s is not None:
            over["s_poly_coeffs"] = np.array([shifted(p.s[l], -1.0, tb) for l in range(p.NLayers)][::-1])
        t = core.taus(p, case["fr"], 8)
        tm = np.clip(tb - t, 0.0, float(q.tau[-1]))
        phi = np.array([case["phi"], 1.0])
        a = all_outputs(Sol(p), t, phi)
        b = all_outputs(Sol(q, "pydisort (upside down)", **over), tm, phi)
        N = p.N
        flip = lambda v: np.concatenate((v[:, N:], v[:, :N]), axis=1)
        w = {"Fp": b["Fm diffuse"], "Fm diffuse": b["Fp"], "u0": flip(b["u0"]), "u": flip(b["u"]), "actinic up": b["actinic down"], "actinic down": b["actinic up"]}
        loss = 1.0
        if p.s is not None:
            mag2 = np.max([np.sum(np.abs(shifted(np.abs(p.s[l]), 1.0, tb))) for l in range(p.NLayers)])
            loss = 1 + mag2 / p.mag
        compare("mirror", a, w, p, 1e-8 * amp(p), 1e-3 * p.mag * loss)
        return bool(np.any(p.om > 0))

    def recip(self, case):
        p = prep(case)
        N, NF = p.N, p.NF
        R = np.zeros((NF, N, N))
        T = np.zeros((NF, N, N))
        R2 = np.zeros((NF, N, N))
        T2 = np.zeros((NF, N, N))
        ends = np.array([0.0, float(p.tau[-1])])
        for j in range(N):
            e = np.zeros((N, NF))
            e[j] = 1.0
            M = Sol(p, b_neg=e).modes(ends)
            R[:, :, j] = M[:, :N, 0]
            M0 = Sol(p, b_neg=e, BDRF_Fourier_modes=[]).modes(ends)
            T[:, :, j] = M0[:, N:, 1]
            M = Sol(p, b_pos=e, BDRF_Fourier_modes=[]).modes(ends)
            R2[:, :, j] = M[:, N:, 1]
            T2[:, :, j] = M[:, :N, 0]
        wm = p.w * p.mup
        g = wm[:, None] * R  # scale: w_i mu_i R_ij w_j mu_j / (w_j mu_j)
        for name, X in (("top reflection", R), ("bottom reflection", R2)):
            Y = X / wm[None, None, :]
            close("reciprocity:%s" % name, Y, np.swapaxes(Y, 1, 2), 1e-9 * amp(p), (np.max(np.abs(X)) + 1e-2) / np.minimum(wm[:, None], wm[None, :])[None] + 1e-12 + 0 * Y)
        Y, Z = T / wm[None, None, :], T2 / wm[None, None, :]
        close("reciprocity:transmission", Y, np.swapaxes(Z, 1, 2), 1e-9 * amp(p), 1.0 / np.minimum(wm[:, None], wm[None, :])[None] + 0 * Y)
        return bool(np.any(p.om > 0))

    def beam(self, case):
        spec = dict(case["spec"])
        N = spec["NQuad"] // 2
        mup = ref.half_gauss(N)[0]
        j = case["j"] % N
        spec["mu0"] = float(mup[j])
        p = prep({"spec": spec}, nudge=False)
        if p.resdist < 1e-4:
            return False
        t = core.taus(p, case["fr"], 8)
        a = Sol(p).modes(t)
        b = np.zeros((N, p.NF))
        b[j] = p.I0 / (2 * np.pi * p.w[j])
        b[j, 1:] *= 2
        q = subproblem(p, I0=0)
        q.phi0 = p.phi0
        M = Sol(q, "pydisort (boundary illumination)", I0=0, b_neg=b).modes(t)
        direct = np.exp(-p.scaled(t) / p.mu0)
        M = M.copy()
        M[:, N + j, :] -= b[j][:, None] * direct[None, :]
        g = np.max(np.abs(a))
        close("beam as boundary source", M, a, 1e-9 * amp(p) / p.w[j], g + 1e-2 * p.mag)
        return bool(np.any(p.om > 0))


# ------------------------------------------------------------------------------------------------- C22
def src_range(p, l):
    """Smallest and largest value of the internal source in layer l (ends and stationary points)."""
    c = p.s[l]
    a, b = float(p.tau0[l]), float(p.tau[l])
    x = [a, b] + np.linspace(a, b, 17).tolist()
    d = np.polynomial.polynomial.polyder(c) if len(c) > 1 else np.zeros(1)
    d = np.trim_zeros(d, "b")
    if len(d) > 1:
        x += [float(min(max(r.real, a), b)) for r in np.polynomial.polynomial.polyroots(d)]
    v = np.polynomial.polynomial.polyval(np.array(x), c)
    return float(np.min(v)), float(np.max(v))


class C22(Prop):
    rule = ("random problem with non-negative sources whose scaled mode-0 kernels (computed independently) are non-negative; u0, fluxes and actinic "
            "fluxes >= 0, monotone under increases of each source, of an albedo and of the surface reflectance, and bounded by the largest source without beam and surface; non-trivial = kernel "
            "condition met with scattering")
    quick = 3500
    thorough = 70000

    def strategy(self):
        tame = ["iso", "ray", "iso"]
        a = gen.problems(signed=False, nquads=(2, 4, 6, 8, 12), kinds=tame, max_work=80, layers=(1, 13), deltaM="none")
        h = gen.problems(signed=False, nquads=(2, 4, 6, 8, 12, 16), max_work=80, layers=(1, 13))
        b = gen.problems(signed=False, nquads=(2, 4, 6, 8), kinds=tame, beam="no", bdrf="none", layers=(1, 11), max_work=60, deltaM="none")
        c = gen.problems(signed=False, nquads=(2, 4, 6, 8), beam="no", bdrf="none", thermal="yes", bcs="zero", layers=(1, 4))
        return case_of(spec=st.one_of(a, h, b, c), fr=fracs(5), inc=st.sampled_from(["I0", "bpos", "bneg", "s", "om", "om", "surf"]), x=fl(0.01, 3))

    def check(self, case):
        p = prep(case)
        for l in range(p.NLayers):
            D, X = p.kernel(0, l)
            if np.min(D) < 0 or np.min(X) < 0:
                label("kernel negative")
                return False
        if p.s is not None:
            lowest = min(src_range(p, l)[0] for l in range(p.NLayers))
            if lowest < 0:
                label("source negative")
                return False
        s = Sol(p, **only_flux_kw(p))
        t = core.taus(p, case["fr"], 10)
        keys = ("u0", "Fp", "Fm diffuse", "Fm direct", "actinic up", "actinic down")
        o = all_outputs(s, t, None)
        eps = 1e-10 * amp(p) * p.mag
        for k in keys:
            if np.min(o[k]) < -eps * 10:
                raise Violation("%s is negative: %.6g (sources of magnitude %.3g)" % (k, float(np.min(o[k])), p.mag))
        inc, x = case["inc"], case["x"]
        over = dict(only_flux_kw(p))
        if inc == "I0":
            if p.beam:
                over["I0"] = p.I0 * (1 + x)
        elif inc == "s":
            base = p.s if p.s is not None else np.zeros((p.NLayers, 1))
            base = base.copy()
            base[int(x * 100) % p.NLayers, 0] += x
            over["s_poly_coeffs"] = base
        elif inc == "om":
            # more scattering and no more extinction: every order of scattering gains
            j = int(x * 100) % p.NLayers
            om = p.om.copy()
            om[j] += max(0.97 - om[j], 0) * x / 3
            over["omega_arr"] = om
            if p.s is not None:  # with the emission (1 - omega) s kept
                q = p.s.copy()
                q[j] *= (1 - p.om[j]) / (1 - om[j])
                over["s_poly_coeffs"] = q
        elif inc == "surf":
            old = core.kwargs_of(p).get("BDRF_Fourier_modes") or [0.0]
            if np.isscalar(old[0]):
                over["BDRF_Fourier_modes"] = [old[0] + max(0.95 - old[0], 0) * x / 3] + list(old[1:])
        else:
            v = p.bval(inc)[:, 0].copy()
            v[int(x * 100) % p.N] += x
            over["b_pos" if inc == "bpos" else "b_neg"] = v
        label("more " + inc)
        o2 = all_outputs(Sol(p, "pydisort (increased %s)" % inc, **over), t, None)
        for k in keys:
            dlt = o2[k] - o[k]
            if np.min(dlt) < -(eps + 1e-10 * amp(p) * (p.mag + x)) * 20:
                raise Violation("increasing %s decreased %s by %.6g" % (inc, k, float(-np.min(dlt))))
        if not p.beam and not p.spec.get("bdrf"):
            top = max(np.max(p.bval("bpos")[:, 0]), np.max(p.bval("bneg")[:, 0]))
            if p.s is not None:
                top = max(top, max(src_range(p, l)[1] for l in range(p.NLayers)))
            if np.max(o["u0"]) > top * (1 + 1e-9) + 10 * eps:
                raise Violation("intensity %.12g exceeds the largest source %.12g" % (float(np.max(o["u0"])), top))
            label("bounded")
        return bool(np.any(p.om > 1e-6))


# ------------------------------------------------------------------------------------------------- C23
class C23(Prop):
    rule = ("random problem; convergence measure for random angle sets in ordinary and antiderivative mode, with and without corrections, "
            "autograd and returned depths, bracketed by the ratio over clearly counted and possibly counted values computed from the harmonics "
            "of u; non-trivial = measure is non-zero")
    quick = 4500
    thorough = 80000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 11), max_work=80)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 5))
        q = dict(fr=fracs(4), phi=st.lists(fl(-7, 13), min_size=1, max_size=4), anti=st.booleans(), ta=st.booleans(), ag=st.sampled_from([False, False, True]),
                 sc=st.sampled_from([False, False, False, True]))
        return st.one_of(case_of(spec=a, nt=st.just(False), **q), case_of(spec=b, nt=st.just(True), **q))

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        kw = {"autograd_compatible": True} if case["ag"] else {}
        plain = Sol(p, **kw)
        s = Sol(p, **dict(kw, NT_cor=True)) if nt else plain
        t = core.taus(p, case["fr"], 5)
        t = t[2:] if len(t) > 2 else t
        phi = np.array(case["phi"])
        anti = case["anti"]
        ta, pa = t, phi
        if case["sc"]:
            t, phi = t[:1], phi[:1]
            ta, pa = float(t[0]), float(phi[0])
        out = call("u with convergence measure", s.u_, ta, pa, is_antiderivative_wrt_tau=anti, return_Fourier_error=True, return_tau_arr=case["ta"])
        if not isinstance(out, tuple) or len(out) != 2 + case["ta"]:
            raise Violation("u with return_Fourier_error returned %s values" % (len(out) if isinstance(out, tuple) else 1))
        e = float(np.asarray(out[1]))
        if not (np.ndim(out[1]) == 0 and np.isfinite(e) and e >= 0):
            raise Violation("convergence measure is %r" % (out[1],))
        U = s.u(t, phi, anti)
        close("convergence:intensity unchanged", arr(out[0], "u").reshape(U.shape), U, 1e-12, np.max(np.abs(U)) + 1e-290)
        V = plain.u(t, phi, anti)
        last = plain.modes(t, anti)[-1]
        term = np.abs(last[:, :, None] * np.cos((p.NF - 1) * (p.phi0 - phi))[None, None, :])
        g = np.max(np.abs(V)) + 1e-3 * p.mag
        if anti:
            g = g + np.max(np.abs(plain.modes(t, True)))
        err = 1e-11 * amp(p) * g
        A = np.abs(V)
        # sources are normalised internally; "negligible" is 1e-8 of their magnitude
        smax = max(p.source_scale(), 1e-290)
        if p.s is not None and np.min(p.s) < 0:
            smax = max(smax, float(np.max(np.abs(p.s) / p.scale[:, None] ** (1 + np.arange(p.s.shape[1])))))
        smin = max([float(p.I0) if p.beam else 0.0, float(np.max(p.bval("bpos"))), float(np.max(p.bval("bneg")))])
        if p.s is not None:
            q = (1 - p.om)[:, None] * p.s
            smin = max(smin, float(q[0, 0]), float(np.polynomial.polynomial.polyval(p.tau[-1], q[-1])), 1e-3 * float(np.max(q)))
        sure = A > 1e-6 * smax
        maybe = A > 1e-10 * smin
        with np.errstate(all="ignore"):
            lo = np.max(np.where(sure, (term - err) / (A + err), 0.0))
            hi = np.max(np.where(maybe, (term + err) / np.maximum(A - err, 1e-300), 0.0))
        if np.any(maybe & (A <= 10 * err)):
            hi = np.inf
        if e < lo * (1 - 1e-8) - 1e-12 or e > hi * (1 + 1e-8) + 1e-12:
            raise Violation("convergence measure %.12g outside [%.12g, %.12g]" % (e, lo, hi))
        label("bracket tight" if hi - lo < 1e-6 * (1 + hi) else "bracket loose")
        return e > 0


# ------------------------------------------------------------------------------------------------- C24
class C24(Prop):
    rule = ("non-scattering stacks: every mode of the intensity vs the formal solution by graded quadrature; zero-albedo layers inside scattering "
            "stacks: same between the layer's boundaries; weakly scattering stacks (albedo 1e-5..1e-3): intensity vs first-order scattering; "
            "non-trivial = source or boundary radiation present")
    quick = 3500
    thorough = 70000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 11), max_work=60)
        b = gen.problems(nquads=(2, 4, 6, 8), layers=(2, 11), max_work=60)
        c = gen.problems(nquads=(2, 4, 6, 8), layers=(1, 3), thermal="no", deltaM="any", thick="moderate")
        return st.one_of(case_of(kind=st.just("none"), spec=a, fr=fracs(4)), case_of(kind=st.just("mixed"), spec=b, l=st.integers(0, 20), fr=fracs(4)),
                         case_of(kind=st.just("weak"), spec=c, fr=fracs(3), w=fl(-5, -3)))

    def transport(self, p, m, down0, up0, t):
        pass

    def check(self, case):
        spec = copy.deepcopy(case["spec"])
        kind = case["kind"]
        if kind == "none":
            for lay in spec["layers"]:
                lay["om"] = 0.0
        elif kind == "mixed":
            lz = case["l"] % len(spec["layers"])
            spec["layers"][lz]["om"] = 0.0
        else:
            for lay in spec["layers"]:
                lay["om"] = float("%.4g" % (10.0 ** case["w"] * (0.3 + 0.7 * lay["om"])))
        p = prep({"spec": spec}) if kind != "weak" else prep({"spec": spec}, res=1e-3)
        s = Sol(p)
        N = p.N
        if kind == "weak":
            return self.weak(p, s, case)
        t = core.taus(p, case["fr"], 8)
        if kind == "mixed":
            a, b = inside(p, lz)
            t = np.unique(np.clip(np.concatenate(([a, b], a + (b - a) * np.array(case["fr"]))), a, b))
            M = s.modes(t)
            for m in range(p.NF):
                for j in range(len(t)):
                    # downward from the top of the layer, upward from its bottom
                    dn = M[m, N:, 0] * np.exp(-(t[j] - t[0]) / p.mup) + (self.emit(p, t[0], t[j], lz, t[j]) if m == 0 else 0)
                    up = M[m, :N, -1] * np.exp(-(t[-1] - t[j]) / p.mup) + (self.emit(p, t[j], t[-1], lz, t[j]) if m == 0 else 0)
                    sc = np.max(np.abs(M[m])) + 1e-3 * p.mag
                    close("non-scattering layer:down", M[m, N:, j], dn, 1e-9 * amp(p), sc)
                    close("non-scattering layer:up", M[m, :N, j], up, 1e-9 * amp(p), sc)
            return True
        M = s.modes(t)
        tb = float(p.tau[-1])
        for m in range(p.NF):
            dnb = self.down(p, m, np.array([tb]))[:, 0]
            ground = p.bval("bpos")[:, m] + p.reflect(m, dnb)
            want = np.concatenate((self.up(p, m, t, ground), self.down(p, m, t)))
            close("formal solution", M[m], want, 1e-9 * amp(p), np.max(np.abs(want)) + 1e-3 * p.mag)
        return True

    def emit(self, p, lo, hi, l, t):
        """Emission of the part [lo, hi] of layer l seen at depth t, per stream."""
        if p.s is None or hi <= lo:
            return 0.0
        x, w = ref.graded_rule(lo, hi, p.mup[0])
        return np.exp(-np.abs(t - x)[None] / p.mup[:, None]) @ (w * p.source(x, l)) / p.mup

    def down(self, p, m, t):
        out = p.bval("bneg")[:, m][:, None] * np.exp(-t[None] / p.mup[:, None])
        if m == 0 and p.s is not None:
            for j, tt in enumerate(t):
                for l in range(p.NLayers):
                    hi = min(tt, p.tau[l])
                    if hi > p.tau0[l]:
                        out[:, j] += self.emit(p, p.tau0[l], hi, l, tt)
        return out

    def up(self, p, m, t, ground):
        tb = p.tau[-1]
        out = ground[:, None] * np.exp(-(tb - t)[None] / p.mup[:, None])
        if m == 0 and p.s is not None:
            for j, tt in enumerate(t):
                for l in range(p.NLayers):
                    lo = max(tt, p.tau0[l])
                    if p.tau[l] > lo:
                        out[:, j] += self.emit(p, lo, p.tau[l], l, tt)
        return out

    def weak(self, p, s, case):
        """First-order scattering of boundary radiation, surface radiation and beam (scaled problem)."""
        N = p.N
        t = core.taus(p, case["fr"], 4)
        M = s.modes(t)
        tsb = p.tau_s0[-1]
        ts = p.scaled(t)
        om = float(np.max(p.om))
        for m in range(p.NF):
            bn, bp = p.bval("bneg")[:, m], p.bval("bpos")[:, m]
            ground0 = bp + p.reflect(m, bn * np.exp(-tsb / p.mup))

            def J(x, l):  # scattering source at scaled depths x, all streams
                u = np.concatenate((ground0[:, None] * np.exp(-(tsb - x)[None] / p.mup[:, None]), bn[:, None] * np.exp(-x[None] / p.mup[:, None])))
                D, X = p.kernel(m, l)
                j = (D * p.ww[None]) @ u
                if p.beam:
                    j = j + X[:, None] * np.exp(-x / p.mu0)[None]
                return j

            def downs(tt):
                out = bn * np.exp(-tt / p.mup)
                for l in range(p.NLayers):
                    a, b = p.tau_s0[l], min(tt, p.tau_s0[l + 1])
                    if b > a:
                        x, w = ref.graded_rule(a, b, short(p))
                        out = out + (np.exp(-(tt - x)[None] / p.mup[:, None]) * J(x, l)[N:]) @ w / p.mup
                return out

            ground = bp + p.reflect(m, downs(tsb))
            for j, tt in enumerate(ts):
                up = ground * np.exp(-(tsb - tt) / p.mup)
                for l in range(p.NLayers):
                    a, b = max(tt, p.tau_s0[l]), p.tau_s0[l + 1]
                    if b > a:
                        x, w = ref.graded_rule(a, b, short(p))
                        up = up + (np.exp(-(x - tt)[None] / p.mup[:, None]) * J(x, l)[:N]) @ w / p.mup
                want = np.concatenate((up, downs(tt)))
                mag = p.I0 * p.beam + np.max(np.abs(p.bval("bpos"))) + np.max(np.abs(p.bval("bneg")))
                nl = 1 + np.max(np.abs(p.g_s) @ (2 * np.arange(p.NLeg) + 1))
                close("single scattering", M[m][:, j], want, 1.0, mag * nl * nl * (10 * om * om) + 1e-7 * mag * nl)
        return True


def relaid(a, how):
    """An array equal to `a` in another memory layout."""
    how %= 4
    if how == 0:
        b = np.asfortranarray(a)
    elif how == 1:
        b = np.repeat(a, 2, axis=-1)[..., ::2]
    elif how == 2:
        b = a[::-1].copy()[::-1]
    else:
        b = a.copy()
        b.flags.writeable = False
    return b


# ------------------------------------------------------------------------------------------------- C25
class C25(Prop):
    rule = ("random problem with extreme thicknesses (1e-12 to 1e6), up to 64 streams and 40 layers, tiny and zero albedos and many modes; all outputs in "
            "both modes for scalar, one-element and array depths and azimuths have the documented shape and are finite; single-layer inputs "
            "as scalars, and inputs of other number type or memory layout, give the same results; non-trivial = always")
    quick = 4000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 16), layers=(1, 25), max_work=100)
        b = gen.problems(nquads=(20, 32, 48, 64), layers=(1, 2), max_work=64)
        c = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 12), max_work=60)
        d = gen.problems(nquads=(2, 4), layers=(1, 1))
        ex = st.lists(st.one_of(st.none(), st.sampled_from([-12.0, -9.0, 3.0, 4.0, 6.0]), fl(-12, 6)), min_size=1, max_size=5)
        rest = dict(ex=ex, fr=fracs(3), phi=st.lists(fl(-7, 13), min_size=1, max_size=3), nt=st.booleans(), ag=st.sampled_from([False, False, False, True]),
                    of=st.sampled_from([False, False, False, True]), src=st.integers(0, 9), res=resonances())
        return case_of(spec=st.one_of(a, a, a, a, c, c, d, b), **rest)

    def check(self, case):
        spec = copy.deepcopy(case["spec"])
        for i, lay in enumerate(spec["layers"]):
            e = case["ex"][i % len(case["ex"])]
            if e is not None:
                lay["th"] = float(10.0**e)
        # very thin layers below very thick ones must still be distinct depths
        depth = 0.0
        for lay in spec["layers"]:
            lay["th"] = max(lay["th"], 1e-13 * depth)
            depth += lay["th"]
        if case["src"] == 0:
            spec.update(I0=0, bpos={"k": "s", "v": 0}, bneg={"k": "s", "v": 0}, ns=0)
        nt = case["nt"] and spec["I0"] > 0
        p = prep({"spec": spec}, nt=nt)
        if not nt:
            p = resonant(p, case["res"])
        kw = {"NT_cor": True} if case["nt"] else {}
        if case["nt"] and spec["I0"] == 0:
            kw = {"NT_cor": True, "mu0": 0.0}
        if case["ag"]:
            kw["autograd_compatible"] = True
        if case["of"]:
            kw.update(only_flux_kw(p))
        s = Sol(p, **kw)
        mu = arr(s.mu, "mu_arr", (p.NQuad,))
        if np.any(mu[:p.N] <= 0) or not np.allclose(mu[:p.N], -mu[p.N:], atol=1e-15) or np.any(np.abs(mu) >= 1):
            raise Violation("mu_arr is not upward then mirrored downward: %s" % mu)
        t = core.taus(p, case["fr"], 8)
        phi = np.array(case["phi"])
        big = 1e3 * p.mag * (1 + float(p.tau[-1]))
        for anti in (False, True):
            o = all_outputs(s, t, phi, anti)
            for k, v in o.items():
                if not anti and k in ("Fp", "Fm diffuse", "Fm direct", "u0") and np.max(np.abs(v)) > 1e3 * (p.mag + 1e-300) * amp(p):
                    raise Violation("%s is unreasonably large: %.3g for sources of magnitude %.3g" % (k, float(np.max(np.abs(v))), p.mag))
            for tt in (float(t[-1]), t[-1:], t[:1].copy(), 0, np.float64(t[0]), np.array(t[0])):
                fl_ = (anti,) if anti else ()
                shp = ()
                for name, f, pick in (("Fp", s.Fp_, None), ("Fm diffuse", s.Fm_, 0), ("Fm direct", s.Fm_, 1), ("actinic up", s.actinic()[0], None),
                                      ("actinic down", s.actinic()[1], None)):
                    y = call(name, f, tt, *fl_)
                    if pick is not None:
                        y = y[pick]
                    if np.ndim(tt) == 0:
                        arr(y, name + " at a scalar depth", ())
                    elif np.size(y) != 1:
                        raise Violation("%s at one depth has size %d" % (name, np.size(y)))
                arr(call("u0", s.u0_, tt, *fl_), "u0 at one depth", (p.NQuad,))
                if s.u_ is not None:
                    arr(call("u", s.u_, tt, float(phi[0]), *fl_), "u at one depth and azimuth", (p.NQuad,))
                    exp = (p.NQuad,) + ((len(phi),) if len(phi) > 1 else ())
                    arr(call("u", s.u_, tt, phi, *fl_), "u at one depth", exp)
            if s.u_ is not None:
                arr(call("u", s.u_, t, float(phi[0]), *((anti,) if anti else ())), "u at one azimuth", (p.NQuad, len(t)))
        # whole-number depths may come as integers
        ti = np.unique(np.floor(t)).astype(int)
        ki = int(ti[-1])
        for anti in (False, True):
            o = all_outputs(s, ti.astype(float), phi, anti)
            compare("integer depths (antiderivatives: %s)" % anti, all_outputs(s, ti, phi, anti), o, p, 1e-9, 1e-3 * p.mag * (1 + ki if anti else 1))
            o1 = all_outputs(s, np.array([float(ki)]), phi, anti)
            fl_ = (anti,) if anti else ()
            for name, f, pick in (("Fp", s.Fp_, None), ("Fm diffuse", s.Fm_, 0), ("Fm direct", s.Fm_, 1), ("u0", s.u0_, None)):
                y = call(name, f, ki, *fl_)
                y = y if pick is None else y[pick]
                close(name + " at an integer depth (antiderivatives: %s)" % anti, np.squeeze(y), np.squeeze(o1[name]), 1e-9, 1e-3 * p.mag * (1 + ki if anti else 1))
        if p.NLayers == 1:
            over = dict(tau_arr=float(p.tau[0]), omega_arr=float(p.om[0]), Leg_coeffs_all=p.g[0].copy())
            if np.any(p.f > 0):
                over["f_arr"] = float(p.f[0])
            if p.s is not None:
                over["s_poly_coeffs"] = p.s[0].copy()
            b = all_outputs(Sol(p, "pydisort (scalar inputs)", **dict(kw, **over)), t, phi)
            compare("scalar inputs", b, all_outputs(s, t, phi), p, 1e-11, 1e-3 * p.mag)
            label("scalar inputs")
        if case["src"] == 1 and not nt:
            # whole-number inputs may come as integer arrays
            L = p.NLayers
            over = dict(tau_arr=np.cumsum(1 + np.minimum(np.floor(p.th), 5)).astype(int), omega_arr=p.om.copy(), b_pos=(np.arange(p.N) % 3).astype(int), b_neg=2,
                        s_poly_coeffs=(np.arange(2 * L).reshape(L, 2) % 3).astype(int))
            if p.om[0] < 0.5:
                over["omega_arr"] = np.zeros(L, dtype=int)
                over["Leg_coeffs_all"] = np.eye(1, p.NLeg_all, dtype=int).repeat(L, axis=0)
                over["f_arr"] = np.zeros(L, dtype=int)
            if p.beam:
                over.update(mu0=1, I0=3, phi0=0)
            asf = {k: (v.astype(float) if isinstance(v, np.ndarray) else float(v)) for k, v in over.items()}
            ti = np.minimum(np.arange(4), over["tau_arr"][-1])
            x = all_outputs(Sol(p, "pydisort (integer inputs)", **dict(kw, **over)), ti, np.array([1, 2]))
            y = all_outputs(Sol(p, "pydisort (whole-number inputs)", **dict(kw, **asf)), ti.astype(float), np.array([1.0, 2.0]))
            compare("integer inputs", x, y, p, 1e-11, 1.0)
            label("integer inputs")
        if case["src"] in (2, 3):
            # equal inputs in another memory layout, or read-only
            over = {k: relaid(v, case["src"] + i) for i, (k, v) in enumerate(core.kwargs_of(p).items()) if isinstance(v, np.ndarray)}
            over.update({k: relaid(v, 1) for k, v in kw.items() if isinstance(v, np.ndarray)})
            x = all_outputs(Sol(p, "pydisort (strided or read-only inputs)", **dict(kw, **over)), relaid(t, case["src"]), relaid(phi, 1))
            compare("strided or read-only inputs", x, all_outputs(s, t, phi), p, 1e-10 * amp(p), 1e-3 * p.mag)
            label("strided inputs")
        return True


# ------------------------------------------------------------------------------------------------- C26
class C26(Prop):
    rule = ("random problem cut at two random depths (interfaces, interior points, top or bottom); the part solved alone with the computed per-mode "
            "intensities as boundary sources, attenuated beam and shifted source vs the original inside the part; non-trivial = proper part of a "
            "scattering atmosphere")
    quick = 4000
    thorough = 80000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 13), max_work=90)
        b = gen.problems(nquads=(2, 4, 6, 8), layers=(1, 6), deltaM="yes", beam="yes", thermal="any", bdrf="yes")
        cut = st.tuples(st.integers(0, 12), st.one_of(st.sampled_from([0.0, 1.0]), fl(0, 1)))
        return case_of(spec=st.one_of(a, b), a=cut, b=cut, fr=fracs(4), phi=fl(0, 6.3), keep=st.booleans())

    def check(self, case):
        p = prep(case)
        tb = float(p.tau[-1])
        at = lambda c: float(min(p.tau0[c[0] % p.NLayers] + c[1] * p.th[c[0] % p.NLayers], p.tau[c[0] % p.NLayers]))
        a, b = sorted((at(case["a"]), at(case["b"])))
        if b - a < 1e-6 * tb + 1e-7:
            a, b = 0.0, tb
        s = Sol(p)
        M = s.modes(np.array([a, b]))
        N = p.N
        lay, tau, src = [], [], []
        for l in range(p.NLayers):
            lo, hi = max(a, p.tau0[l]), min(b, p.tau[l])
            if hi - lo > 1e-10 * tb:
                lay.append(dict(p.spec["layers"][l], _l=l))
                tau.append(hi - a)
                src.append(l)
        tau[-1] = b - a
        spec = dict(p.spec, layers=lay, tau=tau, bdrf=[], bpos={"k": "s", "v": 0}, bneg={"k": "s", "v": 0})
        over = {"b_neg": M[:, N:, 0].T.copy(), "b_pos": M[:, :N, 1].T.copy()}
        if case["keep"] and a == 0:  # a part that reaches the top or the bottom may keep its own boundary condition there
            spec["bneg"] = p.spec["bneg"]
            del over["b_neg"]
        if case["keep"] and b == tb:
            spec["bpos"], spec["bdrf"] = p.spec["bpos"], p.spec["bdrf"]
            del over["b_pos"]
        q = ref.Problem(spec)
        I0 = 0.0
        if p.beam:
            I0 = float(p.I0 * np.exp(-p.scaled(np.array([a]))[0] / p.mu0))
            over["I0"] = I0
        if p.s is not None:
            over["s_poly_coeffs"] = np.array([shifted(p.s[l], 1.0, a) for l in src])
        if p.beam and I0 < 1e-200:
            over["I0"] = 0.0
        r = Sol(q, "pydisort (part)", **over)
        fr = np.array([0.0, 1.0] + list(case["fr"]))
        t = np.clip(np.concatenate((fr * (b - a), np.array(tau[:4]))), 0.0, b - a)
        to = np.clip(t + a, a, b)
        phi = np.array([case["phi"], p.phi0])
        x, y = all_outputs(r, t, phi), all_outputs(s, to, phi)
        for o in (x, y):
            o["F down total"] = o["Fm diffuse"] + o["Fm direct"]
        ok = t <= np.array(tau[-1])
        loss = 1.0
        if p.s is not None:
            loss = 1 + float(np.max(np.abs(p.s) @ (tb ** np.arange(p.s.shape[1])))) / p.mag
        compare("part", x, y, p, 1e-8 * amp(p), 1e-3 * p.mag * loss, keys=["u", "u0", "Fp", "F down total", "actinic up"])
        return bool(np.any(p.om > 0) and (a > 0 or b < tb))
