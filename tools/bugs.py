"""Planted bugs: each a realistic change that passes the repository's tests. Consumed only by tools/mkseeds.py."""
P, A, C, G, U = ("pydisort.py", "_assemble_intensity_and_fluxes.py", "_solve_for_coeffs.py", "_solve_for_gen_and_part_sols.py", "subroutines.py")
BUGS = []
HEAD = """
import sys
import numpy as np
import PythonicDISORT
from PythonicDISORT.pydisort import pydisort
from PythonicDISORT import subroutines as S

def hg(g, n):
    return np.asarray(g, dtype=float)[..., None] ** np.arange(n)

def fail(cond, msg):
    if cond:
        print(msg)
        sys.exit(1)
"""


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=HEAD + demo))


bug("c01-shortcut-layers", "C01", "beam and internal source together, and a layer with negligible scattering above or among scattering ones",
    "the beam's particular solution is written to the wrong layers/modes",
    [(G, "no_shortcut_indices = no_shortcut_indices[len_no_shortcut_indices_0:]", "no_shortcut_indices = no_shortcut_indices[NLayers:]"),
     (G, "A_arr = A_arr[len_no_shortcut_indices_0:]", "A_arr = A_arr[min(NLayers, len(A_arr)):] if len_no_shortcut_indices_0 > 0 else A_arr")],
"""
kw = dict(NFourier=4)
tau = np.array([1.0, 2.0]); g = hg([0.5, 0.5], 4)
args = (tau, np.array([0.8, 0.0]), 4, g, 0.6, 1.0, 0.3)
a = pydisort(*args, s_poly_coeffs=np.array([[1e-13], [1e-13]]), **kw)[4]
b = pydisort(*args, **kw)[4]
t = np.array([0.0, 0.4, 1.0]); phi = np.array([0.0, 1.0, 2.0])
try:
    d = np.max(np.abs(a(t, phi) - b(t, phi)))
except Exception as e:
    fail(True, repr(e))
fail(not d < 1e-9, "a negligible internal source changes the intensity by %g" % d)
""")

bug("c01-negative-last-mode", "C01", "a phase function whose coefficients of some Fourier mode are all non-positive",
    "scattering in that Fourier mode is silently dropped",
    [(G, "np.any(np.abs(omega_times_Leg_coeffs) > 1e-8)", "np.any(omega_times_Leg_coeffs > 1e-8)")],
"""
# two coefficients, backward scattering: mode 1 must carry azimuthal dependence
u = pydisort(1.0, 0.9, 4, np.array([1.0, -0.4]), 0.6, 1.0, 0.0, NLeg=2, NFourier=2)[4]
v = u(0.5, np.array([0.0, np.pi]))
fail(np.max(np.abs(v[:, 0] - v[:, 1])) < 1e-6, "no azimuthal dependence for a backward-scattering phase function")
""")

bug("c02-scalar-mode", "C02", "a numeric BDRF mode of order one or higher together with a beam",
    "the beam reflected by numeric modes m >= 1 is halved",
    [(C, "mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m\n", "mathscr_X_pos = (mu0 * I0_div_4pi * 2) * mathscr_D_neg\n")],
"""
g = hg([0.3], 6)
a = [0.2, 0.1]
b = [lambda mu, mp: np.full((len(mu), len(mp)), 0.2), lambda mu, mp: np.full((len(mu), len(mp)), 0.1)]
x, y = (pydisort(0.5, 0.7, 6, g, 0.6, 1.0, 0.0, BDRF_Fourier_modes=z)[4](0.5, np.array([0.0, 1.0])) for z in (a, b))
fail(not np.allclose(x, y, rtol=1e-9, atol=1e-12), "number and constant function differ by %g" % np.max(np.abs(x - y)))
""")

bug("c03-u0-interface", "C03", "evaluation of u0 exactly at the bottom of the atmosphere or at layer interfaces with several layers",
    "u0 at the last interface uses the first layer",
    [(A, """        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
            # The""",
"""        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] < tau_arr[None, :], axis=1)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
            # The""")],
"""
u0 = pydisort(np.array([0.5, 1.5]), np.array([0.2, 0.8]), 4, hg([0.1, 0.6], 4), 0.6, 1.0, 0.0)[3]
a, b = u0(1.5), u0(1.5 - 1e-9)
fail(not np.allclose(a, b, atol=1e-6), "u0 jumps at the bottom: %s %s" % (a, b))
""")

bug("c03-scaled-beam-continuity", "C03", "banded or dense solver with a beam, several layers, last interface",
    "beam term of the continuity condition uses the scaled depth shifted by one layer for stacks of more than three layers",
    [(C, """                RHS[N:-N] += (
                    (B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])
                    * np.exp(-scaled_tau_arr_with_0 / mu0)[indicesp1, None]
                ).ravel()""",
"""                beam_transmission = np.exp(-np.maximum(scaled_tau_arr_with_0, 0) / mu0)
                beam_transmission[beam_transmission < 1e-3] = 0  # Negligible
                RHS[N:-N] += (
                    (B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])
                    * beam_transmission[indicesp1, None]
                ).ravel()""")],
"""
u0 = pydisort(np.array([5.0, 6.0]), np.array([0.2, 0.9]), 4, hg([0.1, 0.1], 4), 0.6, 1.0, 0.0)[3]
a, b = u0(5.0), u0(np.nextafter(5.0, 9))
fail(not np.allclose(a, b, rtol=1e-7), "u0 jumps at the interface: %s %s" % (a, b))
""")

bug("c04-mixed-f-flux", "C04", "delta-M scaling in some but not all layers",
    "the upward flux ignores delta-M scaling of depths unless every layer is scaled",
    [(A, """        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],""",
"""        # Delta-M scaling
        if np.all(scale_tau != 1):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],""")],
"""
mu, Fp, Fm, u0 = pydisort(np.array([0.5, 1.5]), np.array([0.6, 0.8]), 4, hg([0.7, 0.1], 4), 0.6, 1.0, 0.0, only_flux=True, f_arr=np.array([0.2401, 0]))
x, w = S.Gauss_Legendre_quad(2)
a, b = Fp(0.7), 2 * np.pi * (x * w) @ u0(0.7)[:2]
fail(not np.isclose(a, b, rtol=1e-9), "flux %g, moment of u0 %g" % (a, b))
""")

bug("c06-u0-antiderivative", "C06", "delta-M scaling that differs between layers, antiderivative of u0 or actinic flux below the first layer",
    "antiderivative of the homogeneous part is scaled with the factor of the first layer",
    [(A, """                    GC_collect_0[l, :, :],
                    np.exp(exponent) / (scale_tau[:, None] * K_collect_0)[l, :],""",
         """                    GC_collect_0[l, :, :],
                    np.exp(exponent) / (scale_tau[0] * K_collect_0[l, :]),""")],
"""
u0 = pydisort(np.array([0.5, 1.5]), np.array([0.6, 0.8]), 4, hg([0.7, 0.1], 4), 0.6, 1.0, 0.0, f_arr=np.array([0.2401, 0]))[3]
x, w = np.polynomial.legendre.leggauss(20)
t = 1.0 + 0.4 * x
d = u0(1.4, True) - u0(0.6, True)
q = u0(t) @ w * 0.4
fail(not np.allclose(d, q, rtol=1e-8), "antiderivative %s, integral %s" % (d, q))
""")

bug("c07-rescale-bottom-only", "C07", "a bottom boundary source as the only source",
    "sources are normalised by a factor that ignores the bottom boundary, so the result is zero",
    [(P, "        rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))\n", "        rescale_factor = np.max((I0, np.max(b_neg)))\n")],
"""
Fp = pydisort(1.0, 0.6, 4, hg([0.1], 4), 0, 0, 0, only_flux=True, b_pos=2.0)[1]
fail(not abs(Fp(1.0) - 2 * np.pi) < 1e-9, "flux at the emitting boundary is %g" % Fp(1.0))
""")

bug("c07-iso-threshold", "C07", "an internal source of small absolute magnitude",
    "internal sources whose coefficients are below an absolute threshold are ignored",
    [(P, "    if np.all(s_poly_coeffs == 0):", "    if np.all(np.abs(s_poly_coeffs) < 1e-8):")],
"""
f = lambda c: pydisort(1.0, 0.6, 4, hg([0.1], 4), 0, 0, 0, only_flux=True, b_pos=0.0, b_neg=c, s_poly_coeffs=np.array([[c]]))[1](0.0)
a, b = f(1.0), f(1e-9) * 1e9
fail(not np.isclose(a, b, rtol=1e-6), "not linear in the source: %g %g" % (a, b))
""")

bug("c08-thin-layer-merge", "C08", "intensity corrections, a layer split so that depth lies in a lower part",
    "the correction's contribution from layers above is attenuated with the thickness of the wrong layer",
    [(P, "                    exp_x0 = decay * exp_taufront_mu0_inv[None, :]                               # (N, NLayers)",
         "                    exp_x0 = decay[:, ::-1] * exp_taufront_mu0_inv[None, :]                      # (N, NLayers)")],
"""
g = hg([0.8], 12)
kw = dict(NLeg=6, NFourier=6, NT_cor=True)
u = pydisort(2.0, 0.9, 6, g, 0.2, 1.0, 0.0, f_arr=np.array([0.8 ** 6]), **kw)[4]
v = pydisort(np.array([0.3, 0.9, 2.0]), np.full(3, 0.9), 6, np.repeat(g, 3, 0), 0.2, 1.0, 0.0, f_arr=np.full(3, 0.8 ** 6), **kw)[4]
t = np.array([0.1, 0.5, 1.0, 2.0]); p = np.array([0.0, 1.0])
d = np.max(np.abs(u(t, p) - v(t, p)))
fail(not d < 1e-7, "splitting a layer changes the corrected intensity by %g" % d)
""")

bug("c10-autograd-source", "C10", "autograd support with an internal source and more than one Fourier mode",
    "the internal source is added to every Fourier mode in the autograd branch",
    [(A, "um = np.concatenate((um[[0], :, :] + _mathscr_v_contribution, um[1:, :, :]), axis=0)", "um = um + _mathscr_v_contribution")],
"""
args = (1.0, 0.7, 4, hg([0.4], 4), 0.6, 1.0, 0.0)
a, b = (pydisort(*args, s_poly_coeffs=np.array([[1.0, 0.5]]), autograd_compatible=k)[4](0.5, np.array([0.0, 1.0])) for k in (False, True))
fail(not np.allclose(a, b, rtol=1e-9), "autograd flag changes the intensity by %g" % np.max(np.abs(a - b)))
""")

bug("c10-only-flux-thermal-poly", "C10", "fluxes-only mode and two or more layers with boundary source vectors",
    "in fluxes-only mode a per-angle top source is averaged",
    [(P, "        NFourier = 1 # We only need to solve for the 0th Fourier mode to compute the flux\n",
         "        NFourier = 1 # We only need to solve for the 0th Fourier mode to compute the flux\n        b_neg = np.mean(b_neg) # Isotropic\n")],
"""
args = (1.0, 0.7, 4, hg([0.4], 4), 0, 0, 0)
a, b = (pydisort(*args, b_neg=np.array([1.0, 3.0]), only_flux=k)[1](0.0) for k in (False, True))
fail(not np.isclose(a, b, rtol=1e-9), "only_flux changes the flux: %g %g" % (a, b))
""")

bug("c12-ims-mu0", "C12", "intensity corrections with a strong forward peak, downward directions",
    "the effective beam cosine of the secondary correction uses the fraction instead of the product with the albedo",
    [(P, "        scaled_mu0 = mu0 / (1 - omega_avg * f_avg)", "        scaled_mu0 = mu0 / (1 - f_avg)")],
"""
g = hg([0.8], 40)
tau, om, f, mu0 = 1.5, 0.5, 0.8 ** 4, 0.6
kw = dict(NLeg=4, NFourier=4, f_arr=np.array([f]))
base = pydisort(tau, om, 4, g, mu0, 1.0, 0.0, **kw)
u = pydisort(tau, om, 4, g, mu0, 1.0, 0.0, NT_cor=True, **kw)[4]
t, ph = 1.0, 0.7
mu = base[0][2:]
nu = S.calculate_nu(mu, np.array([ph]), -mu0, 0.0)
L = lambda c: np.polynomial.legendre.legval(nu, (2 * np.arange(len(c)) + 1) * c)
sc = 1 - om * f
oms = (1 - f) * om / sc
d = oms / (4 * np.pi) * (L(g[0]) / (1 - f) - L((g[0, :4] - f) / (1 - f)))
m = -mu
tms = d * mu0 / (mu0 - m) * (np.exp(-t * sc / mu0) - np.exp(-t * sc / m))
R = g[0].copy(); R[:4] = f; R = R / f
sm = mu0 / (1 - om * f)
x, w = np.polynomial.legendre.leggauss(60)
x, w = (x + 1) * t / 2, w * t / 2
chi = np.array([np.sum(w * x * np.exp(-x / sm) * np.exp(-(t - x) / k)) / (k * sm) for k in m])
ims = (om * f) ** 2 / (1 - om * f) / (4 * np.pi) * L(2 * R - R ** 2) * chi
got = u(t, ph)[2:] - base[4](t, ph)[2:]
e1, e2 = np.max(np.abs(got - tms - ims)), np.max(np.abs(got - tms + ims))
fail(not min(e1, e2) < 1e-8 * (1 + np.max(np.abs(got))), "correction %s, expected %s" % (got, tms + ims))
""")

bug("c12-trunc-thermal", "C12", "intensity corrections in layers with f = 0 next to layers with f > 0",
    "layers without delta-M scaling are excluded from the single-scattering correction",
    [(P, "                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun)\n", "                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun) * (f_arr > 0)[None, l_uniq, None]\n")],
"""
# the layer with f = 0 still needs the correction for the coefficients beyond NLeg
g = hg([0.8, 0.7], 30)
tau, om = np.array([1e-9, 1.0]), np.array([0.5, 1e-4])
kw = dict(NLeg=4, NFourier=4, f_arr=np.array([0.4, 0.0]))
a = pydisort(tau, om, 4, g, 0.6, 1.0, 0.0, NT_cor=True, **kw)[4](0.0, 0.7)[:2]
b = pydisort(tau, om, 32, np.hstack((g, np.zeros((2, 2)))), 0.6, 1.0, 0.0)
full = S.interpolate(b[4])(S.Gauss_Legendre_quad(2)[0], 0.0, 0.7)
fail(not np.allclose(a, full, rtol=2e-2), "corrected %s, many streams %s" % (a, full))
""")

bug("c17-tau-tolerance", "C17", "evaluation slightly below the bottom of the atmosphere",
    "depths slightly outside the atmosphere are accepted by u and attributed to the first layer",
    [(A, """            if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
                raise ValueError("tau input outside the tau range specified""", """            if np.any(tau < -1e-9) or np.any(tau > tau_arr[-1] * (1 + 1e-9)):
                raise ValueError("tau input outside the tau range specified""")],
"""
u = pydisort(np.array([1.0, 2.0]), np.array([0.8, 0.1]), 4, hg([0.5, 0.5], 4), 0.6, 1.0, 0.0)[4]
for t in (2.0000000005, -1e-12):
    try:
        u(t, 0.0)
    except ValueError:
        continue
    fail(True, "depth %r accepted" % t)
""")

bug("c18-planck-overflow", "C18", "very low temperature or very high wavenumber",
    "the Planck function overflows",
    [(U, "        expterm = np.exp(-100 * sc", "        expterm = np.exp(100 * sc"),
     (U, "        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / one_minus_expterm",
         "        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / (expterm * (expterm - 1))")],
"""
v = S.Planck(np.array([300.0, 1.0]), 5e4)
fail(not np.all(np.isfinite(v)), "Planck returned %s" % v)
""")

bug("c19-cache-mixture", "C19", "caching with mu0 a list that mixes numbers and functions, or fewer modes",
    "cached mode closures share the last evaluated mode",
    [(U, """        cached_BDRF_Fourier_modes = [
            (
                lambda mu, neg_mup, m=m: BDRF_Fourier_modes_evaluated[m]
                if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                else (
                    BDRF_Fourier_modes[m](mu_arr_pos, neg_mup)
                    if len(neg_mup) == 1
                    else BDRF_Fourier_modes_evaluated[m]
                )
            )""", """        cached_BDRF_Fourier_modes = [
            (
                lambda mu, neg_mup, m=m: BDRF_Fourier_modes_evaluated[m]
                if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                else (
                    BDRF_Fourier_modes[0](mu_arr_pos, neg_mup)
                    if len(neg_mup) == 1
                    else BDRF_Fourier_modes_evaluated[m]
                )
            )""")],
"""
b = [lambda mu, mp: 0.2 + 0.1 * np.outer(mu, mp), lambda mu, mp: 0.1 * np.outer(mu, mp)]
f = lambda z: pydisort(0.5, 0.7, 6, hg([0.3], 6), 0.6, 1.0, 0.0, BDRF_Fourier_modes=z)[4](0.5, np.array([0.0, 1.0]))
x, y = f(b), f(S.cache_BDRF_Fourier_modes(3, b))
fail(not np.allclose(x, y, rtol=1e-9), "cached modes change the intensity by %g" % np.max(np.abs(x - y)))
""")

bug("c19-emissivity", "C19", "a surface reflectance that depends asymmetrically on the two angles",
    "the emissivity integrates over the wrong angle",
    [(U, "            1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos) * mu_arr_pos[None, :] @ W", "            1 - 2 * (zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos) * mu_arr_pos[:, None]).T @ W")],
"""
b = lambda mu, mp: 0.2 + 0.1 * np.asarray(mu)[:, None] + 0 * np.asarray(mp)[None, :]
x, w = S.Gauss_Legendre_quad(3)
e = S.generate_emissivity_from_BDRF(3, b)
fail(not np.allclose(e, 1 - 0.2 - 0.1 * x), "emissivity %s" % e)
""")

bug("c20-diag-form", "C20", "conversion of a matrix with different numbers of super- and sub-diagonals",
    "the sub-diagonals are read with the number of super-diagonals",
    [(U, "                indices - np.arange(n - 1, n - Nsubdiags - 1, -1)[:, None],", "                indices - np.arange(n - 1, n - min(Nsubdiags, Nsuperdiags) - 1, -1)[:, None],")],
"""
A = np.arange(16.0).reshape(4, 4) + 1
B = np.tril(np.triu(A, -2), 1)
ab = S.to_diag_ordered_form(B, 1, 2)
fail(ab.shape != (4, 4), "shape %s" % (ab.shape,))
fail(any(ab[1 + i - j, j] != B[i, j] for i in range(4) for j in range(4) if -2 <= j - i <= 1), "wrong entries")
""")

bug("c20-fd-end", "C20", "differentiation at the last grid point",
    "the one-sided difference at the end of the grid is only first order",
    [(U, """    first_deriv[-1, -1] = 3 / (2 * h)
    first_deriv[-1, -2] = -2 / h
    first_deriv[-1, -3] = 1 / (2 * h)
""", """    first_deriv[-1, -1] = 1 / h
    first_deriv[-1, -2] = -1 / h
""")],
"""
x, D = S.generate_FD_mat(9, 1.0, 3.0)
fail(not np.allclose(D @ x**2, 2 * x), "derivative of x^2: %s" % (D @ x**2))
""")

bug("c21-bottom-eigen", "C21", "several layers without a surface, upward illumination from below",
    "bottom source is attenuated by a tiny amount for stacks of more than one layer",
    [(C, """        # Bottom Dirichlet BC
        RHS[-N:] = b_pos_m
""", """        # Bottom Dirichlet BC
        RHS[-N:] = b_pos_m * (1 - 1e-4 * is_atmos_multilayered)
""")],
"""
args = (np.array([0.4, 1.0]), np.array([0.8, 0.3]), 4, hg([0.5, 0.2], 4), 0, 0, 0)
u0 = pydisort(*args, b_pos=1.0, only_flux=True)[3]
fail(not np.allclose(u0(1.0)[:2], 1.0, rtol=1e-9), "bottom boundary %s" % u0(1.0)[:2])
""")

bug("c23-error-last", "C23", "convergence measure with several Fourier modes and azimuths other than the beam's",
    "the last term is evaluated at the wrong harmonic",
    [(A, "np.cos((NFourier - 1) * (phi0 - phi))[None, None, :]", "np.cos(NFourier * (phi0 - phi))[None, None, :]")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0.0)[4]
phi = np.pi / 6  # cos(3 phi) = 0
e = u(0.5, phi, return_Fourier_error=True)[1]
fail(e > 1e-9, "the last term vanishes at this azimuth but the measure is %g" % e)
""")

bug("c24-weak-threshold", "C24", "an optically thick layer with very weak scattering (albedo below 2e-4)",
    "scattering by weakly scattering layers is ignored",
    [(G, "np.any(np.abs(omega_times_Leg_coeffs) > 1e-8)", "np.any(np.abs(omega_times_Leg_coeffs) > 1e-4)")],
"""
a = pydisort(5.0, 1e-4, 4, hg([0.0], 4), 0.6, 1.0, 0.0, only_flux=True)[1](0.0)
fail(not a > 1e-6, "no reflected flux from a weakly scattering atmosphere: %g" % a)
""")

bug("c25-thick-overflow", "C25", "intensity corrections in optically thick multi-layer atmospheres",
    "an exponential with a positive argument overflows and yields NaN",
    [(P, "                    layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)",
         "                    layer_term_neg = exp_x1 * -np.expm1(-thickness_neg)                          # (N, NLayers)")],
"""
g = hg([0.8, 0.6], 12)
u = pydisort(np.array([900.0, 1000.0]), np.array([0.8, 0.9]), 4, g, 0.1, 1.0, 0.0, NLeg=4, NFourier=4, f_arr=np.array([0.4, 0.12]), NT_cor=True)[4]
v = u(np.array([1.0, 950.0]), 0.3)
fail(not np.all(np.isfinite(v)), "not finite: %s" % v)
""")

bug("c26-mode-bc", "C26", "a per-mode top source together with a bottom source that is not per-mode",
    "modes m >= 1 of the top source are only used if the bottom source is per-mode too",
    [(C, """        elif (b_neg_is_scalar or b_neg_is_vector) and not m_equals_0:""", """        elif (b_neg_is_scalar or b_neg_is_vector or b_pos_is_vector) and not m_equals_0:""")],
"""
b = np.zeros((2, 3)); b[:, 0] = 1; b[:, 1] = 0.5
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0, 0, 0, b_neg=b, b_pos=np.array([1.0, 2.0]), NFourier=3)[4]
v = u(0.0, np.array([0.0, np.pi]))[2:]
fail(not np.allclose(v, [[1.5, 0.5], [1.5, 0.5]]), "top boundary %s" % v)
""")

bug("c05-source-degree", "C05", "an internal source of degree four or higher",
    "factorials of the particular solution are wrong from 3! on",
    [(U, "            fac[1:] = np.cumprod(np.arange(1, Nscoeffs))", "            fac[1:] = np.arange(1, Nscoeffs)")],
"""
_, Fp, Fm, u0 = pydisort(1.0, 0.3, 4, hg([0.5], 4), 0, 0, 0, s_poly_coeffs=np.array([[0.0, 0.0, 0.0, 0.0, 1.0]]), only_flux=True)
x, w = S.Gauss_Legendre_quad(40, 0, 1)
up, dn = S.generate_diff_act_flux_funcs(u0)
lhs = (Fp(1.0) - sum(Fm(1.0))) - (Fp(0.0) - sum(Fm(0.0)))
rhs = 0.7 * np.sum(w * (up(x) + dn(x) - 4 * np.pi * x**4))
fail(not np.isclose(lhs, rhs, rtol=1e-7), "net flux changes by %g, absorption %g" % (lhs, rhs))
""")

bug("c11-mixed-layers", "C11", "delta-M scaling in some layers only",
    "the intensity is evaluated at unscaled depths unless every layer is scaled",
    [(A, """            # Delta-M scaling
            if np.any(scale_tau != np.ones(NLayers)):
                tau_dist_from_top = tau_arr[l] - tau""", """            # Delta-M scaling
            if np.all(scale_tau != np.ones(NLayers)):
                tau_dist_from_top = tau_arr[l] - tau""")],
"""
u = pydisort(np.array([1.0, 2.0]), np.array([0.8, 0.6]), 4, hg([0.7, 0.3], 5), 0.6, 1.0, 0.0, NLeg=4, NFourier=4, f_arr=np.array([0.24, 0.0]))
a = u[4](np.array([0.3, 1.4]), np.linspace(0, 2 * np.pi, 17)[:-1]).mean(axis=-1)
b = u[3](np.array([0.3, 1.4]))
fail(not np.allclose(a, b, atol=1e-9), "azimuthal mean differs by %g" % np.max(np.abs(a - b)))
""")

bug("c13-clip-azimuth", "C13", "a viewing azimuth outside [0, 2 pi]",
    "azimuths are clipped to the principal range instead of being periodic",
    [(A, "            phi = np.atleast_1d(phi)\n", "            phi = np.clip(np.atleast_1d(phi), 0, 2 * pi)\n")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.7], 4), 0.6, 1.0, 1.0)[4]
a, b = u(0.5, 0.7), u(0.5, 0.7 + 2 * np.pi)
fail(not np.allclose(a, b, rtol=1e-9), "not periodic: %g" % np.max(np.abs(a - b)))
""")

bug("c14-sorted-depths", "C14", "internal source, several layers, depths given in a non-ascending order",
    "the layer of each depth is wrong for the internal source if depths are not ascending",
    [(A, """        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq],""", """        if there_is_iso_source:
            # Layers are visited from top to bottom
            l_uniq, l_inv = np.unique(l), np.cumsum(np.diff(l, prepend=l[0]) > 0)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq],""")],
"""
u0 = pydisort(np.array([1.0, 2.0]), np.array([0.8, 0.2]), 4, hg([0.5, 0.3], 4), 0, 0, 0, s_poly_coeffs=np.array([[1.0], [3.0]]))[3]
a, b = u0(np.array([1.5, 0.5])), np.stack((u0(1.5), u0(0.5)), axis=1)
fail(not np.allclose(a, b, rtol=1e-10), "batched values differ by %g" % np.max(np.abs(a - b)))
""")

bug("c14-interpolator-shared", "C14", "the interpolated intensity evaluated repeatedly, downward only in the first call",
    "values of an earlier call are reused in the downward hemisphere",
    [(U, """                u_neg_interpol.set_yi(u_cache[N:])
                results[mask_else] = u_neg_interpol(mu[mask_else])
            
            if return_Fourier_error or return_tau_arr:""",
"""                if u_neg_interpol.yi is None or u_neg_interpol.yi[0, 0] != np.ravel(u_cache[N:])[0]:
                    u_neg_interpol.set_yi(u_cache[N:])
                results[mask_else] = u_neg_interpol(mu[mask_else])
            
            if return_Fourier_error or return_tau_arr:""")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0.0)[4]
f = S.interpolate(u)
phi = np.array([0.0, 1.0])
f(-0.3, 0.2, phi)
a = f(-0.3, 0.2, np.array([0.0, 2.0]))
b = S.interpolate(u)(-0.3, 0.2, np.array([0.0, 2.0]))
fail(not np.allclose(a, b, rtol=1e-10), "second call differs by %g" % np.max(np.abs(a - b)))
""")

bug("c15-flux-down-flag", "C15", "internal source, derivative of the downward flux by autograd",
    "the particular solution in the downward flux is not differentiable",
    [(A, """                G_collect_0[l_uniq, N:, :],
                K_collect_0[l_uniq],
                G_inv_mu_inv[l_uniq],
                is_antiderivative_wrt_tau,
                autograd_compatible,
            )""", """                G_collect_0[l_uniq, N:, :],
                K_collect_0[l_uniq],
                G_inv_mu_inv[l_uniq],
                is_antiderivative_wrt_tau,
            )""")],
"""
from autograd import grad
Fm = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0, 0, 0, s_poly_coeffs=np.array([[1.0, 1.0, 0.5]]), autograd_compatible=True)[2]
try:
    d = grad(lambda t: Fm(t)[0])(0.5)
except Exception as e:
    fail(True, repr(e))
e = (Fm(0.5001)[0] - Fm(0.4999)[0]) / 2e-4
fail(not np.isclose(d, e, rtol=1e-4), "derivative %g, difference quotient %g" % (d, e))
""")

bug("c16-clamp", "C16", "interpolation of the zeroth mode at polar cosines beyond the extreme quadrature angles",
    "polar cosines are clamped to the quadrature range",
    [(U, """            mu = np.atleast_1d(mu)

            if return_tau_arr: # There""",
"""            mu = np.atleast_1d(mu)
            mu = np.sign(mu) * np.clip(np.abs(mu), mu_arr_pos[0], mu_arr_pos[-1])

            if return_tau_arr: # There""")],
"""
u0 = pydisort(1.0, 0.8, 8, hg([0.5], 8), 0.6, 1.0, 0.0)[3]
x = S.Gauss_Legendre_quad(4)[0]
v = u0(0.5)[:4]
want = np.polyval(np.polyfit(x, v, 3), 1.0)
got = S.interpolate(u0)(1.0, 0.5)
fail(not np.isclose(got, want, rtol=1e-8), "interpolant %g, polynomial %g" % (got, want))
""")

bug("c16-flag-order", "C16", "interpolated intensity asked for the convergence measure in antiderivative mode",
    "the antiderivative flag is lost when the convergence measure is requested too",
    [(U, "                u_outputs = u(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)",
         "                u_outputs = u(tau, phi, is_antiderivative_wrt_tau and not return_Fourier_error, return_Fourier_error, return_tau_arr)")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0.0)[4]
f = S.interpolate(u)
mu = S.Gauss_Legendre_quad(2)[0]
a, b = f(mu, 0.5, 0.3, True, True)[0], u(0.5, 0.3, True)[:2]
fail(not np.allclose(a, b, rtol=1e-9), "flags: %s %s" % (a, b))
""")

bug("c17-nan-albedo", "C17", "an albedo that is not a number",
    "NaN passes the range check",
    [(P, "    if not (np.all(omega_arr >= 0) and np.all(omega_arr < 1)):", "    if np.any(omega_arr < 0) or np.any(omega_arr >= 1):")],
"""
try:
    pydisort(np.array([1.0, 2.0]), np.array([0.5, np.nan]), 4, hg([0.5, 0.5], 4), 0.6, 1.0, 0.0)
except ValueError:
    sys.exit(0)
except Exception as e:
    fail(True, repr(e))
fail(True, "NaN albedo accepted")
""")

bug("c18-fixed-quadrature", "C18", "a wide wavenumber band with a cold temperature",
    "band emission by a fixed 80-point rule",
    [(U, "    return np.squeeze(sc.integrate.quad_vec(lambda WVNM: Planck(T, WVNM), WVNMLO, WVNMHI, **kwargs)[0])",
         "    x, w = Gauss_Legendre_quad(80, WVNMLO, WVNMHI)\n    return np.squeeze(sum(wi * np.atleast_1d(Planck(T, xi)) for xi, wi in zip(x, w)))")],
"""
a = S.blackbody_contrib_to_BCs(10.0, 1.0, 50000.0)
b = sum(S.blackbody_contrib_to_BCs(10.0, lo, hi) for lo, hi in ((1.0, 30.0), (30.0, 150.0), (150.0, 1500.0), (1500.0, 50000.0)))
fail(not np.isclose(a, b, rtol=1e-5), "band emission %g, sum of parts %g" % (a, b))
""")

bug("c22-thermal-negative", "C22", "internal source that decreases with depth in a layer below the first",
    "the slope of a linear source changes sign where the source decreases",
    [(U, "        c0w = s1 * K_inv * G_inv_mu_inv\n", "        c0w = np.where(s0 > 1e3 * np.abs(s1), np.abs(s1), s1) * K_inv * G_inv_mu_inv\n")],
"""
_, Fp, Fm, u0 = pydisort(400.0, 0.1, 4, hg([0.2], 4), 0, 0, 0, s_poly_coeffs=np.array([[2.0, -0.0015]]))[:4]
m = np.max(u0(np.linspace(0, 400, 41)))
fail(not m <= 2.0 + 1e-9, "intensity %g exceeds the source" % m)
""")

bug("c20-clenshaw-parity", "C20", "Clenshaw-Curtis rule with 4k + 3 nodes",
    "the middle weight is counted twice",
    [(U, "    full_weights_phi = np.hstack((weights_phi_pos, np.flip(weights_phi_pos[:-1])))",
         "    full_weights_phi = np.hstack((weights_phi_pos, np.flip(weights_phi_pos[:-1])))\n    if Nphi_pos == 1:\n        full_weights_phi = np.array([1, 1, 1]) * 2 / 3")],
"""
x, w = S.Clenshaw_Curtis_quad(3, 0, 1)
fail(not np.isclose(np.sum(w * x**2), 1 / 3), "integral of x^2: %g" % np.sum(w * x**2))
""")

bug("c02-cached-beam-angle", "C02", "function-valued reflectance that is not symmetric in its arguments",
    "the beam's reflectance is evaluated with exchanged angles",
    [(C, "                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)\n", "                        np.transpose(BDRF_Fourier_modes_m(np.array([mu0]), mu_arr_pos)), (N, 1)\n")],
"""
R = lambda mu, mup: 0.1 + 0.2 * mu[:, None] + 0.0 * mup[None, :]
u = pydisort(1.0, 0.0, 4, hg([0.5], 4), 0.6, 1.0, 0.0, BDRF_Fourier_modes=[R])
mu = S.Gauss_Legendre_quad(2)[0]
want = 0.6 * np.exp(-1 / 0.6) * (0.1 + 0.2 * mu) / np.pi
got = u[3](1.0)[:2]
fail(not np.allclose(got, want, rtol=1e-9), "reflected %s, expected %s" % (got, want))
""")

bug("c09-clipped-decay", "C09", "banded solver and a layer of large optical thickness",
    "attenuation across a layer is bounded from below in the banded solver only",
    [(C, "                E_lm1l = np.exp(K_collect_m[l,     N:] * (tau_lm1 - tau_l))[None, :]    # (N,)\n",
         "                E_lm1l = np.exp(np.maximum(K_collect_m[l,     N:] * (tau_lm1 - tau_l), -15))[None, :]    # (N,)\n")],
"""
args = (np.array([40.0, 41.0, 42.0]), np.array([0.2, 0.8, 0.8]), 4, hg([0.5] * 3, 4), 0, 0, 0)
f = lambda thr: pydisort(*args, b_neg=1.0, use_banded_solver_NLayers=thr)[1](np.array([0.0, 39.0, 40.5, 42.0]))
a, b = f(3), f(10)
fail(not np.allclose(a, b, atol=1e-12, rtol=1e-6), "solvers differ: %s %s" % (a, b))
""")

bug("c27-eigenvalue-floor", "C27", "an optically thick layer whose albedo is within about 1e-8 of 1",
    "squared eigenvalues are bounded from below to avoid a division by nearly zero",
    [(G, "        K_arr_pos = np.sqrt(K_squared_arr)\n", "        K_arr_pos = np.sqrt(np.maximum(K_squared_arr, 1e-7))\n")],
"""
om = 1 - 1e-10
_, Fp, Fm, u0 = pydisort(100.0, om, 4, hg([0.6], 4), 0, 0, 0, b_neg=1.0)[:4]
net = lambda t: Fm(t)[0] - Fp(t)
top, bot = net(0.0), net(100.0)
fail(not abs(top - bot) < 1e-4 * top, "net flux %g at the top, %g at the bottom" % (top, bot))
""")

bug("c27-mode-recurrence", "C27", "more than 20 Fourier modes and coefficients",
    "normalisation of the high associated Legendre functions is truncated",
    [(G, "        poch = sc.special.poch(ells + m + 1, -2 * m)\n", "        poch = sc.special.poch(ells + m + 1, -2 * m)\n        poch[(poch < 1e-46) & (m > 20)] = 0\n")],
"""
N = 32
g = 0.98 ** np.arange(N)[None, :]
u = pydisort(0.5, 0.99, N, g, 0.05, 1.0, 0.0, NFourier=N)[4]
v = pydisort(0.5, 0.99, N, g, 0.05, 1.0, 0.0, NFourier=22)[4]
mu = S.Gauss_Legendre_quad(16)[0]
phi = np.linspace(0, 6.2, 64)
c = np.mean(u(0.0, phi)[:16] * np.cos(0), axis=-1)
a = u(0.0, np.array([0.0])); b = v(0.0, np.array([0.0]))
fail(not np.max(np.abs(a - b)) > 1e-9, "modes 22 and above vanish: %g" % np.max(np.abs(a - b)))
""")

bug("c02-opaque-surface", "C02", "reflecting surface below an atmosphere of optical thickness above 40",
    "the surface is left out where the beam does not reach it, although diffuse light does",
    [(C, "        there_is_BDRF_mode = (NBDRF > m) \n", "        there_is_BDRF_mode = (NBDRF > m) and scaled_tau_arr_with_0[-1] < 40\n")],
"""
_, Fp, Fm, u0 = pydisort(50.0, 0.999999, 4, hg([0.0], 4), 0, 0, 0, b_neg=1.0, BDRF_Fourier_modes=[0.5])[:4]
d = Fm(50.0)[0]
fail(not np.isclose(Fp(50.0), 0.5 * d, rtol=1e-6), "down %g, up %g" % (d, Fp(50.0)))
""")

bug("c14-depth-cache", "C14", "a depth array changed in place between two calls of the same function",
    "layer indices are remembered by the identity of the depth array",
    [(A, "    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n", "    _last = {}\n\n    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n"),
     (A, """            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],
""", """            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        if _last.get("tau") is tau:
            l = _last["l"]
        else:
            l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
            _last["tau"], _last["l"] = tau, l
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],
""")],
"""
Fp = pydisort(np.array([1.0, 3.0]), np.array([0.5, 0.9]), 4, hg([0.5, 0.2], 4), 0.6, 1.0, 0.0)[1]
t = np.array([0.2, 0.5])
Fp(t)
t += 2.0
a, b = Fp(t), Fp(t.copy())
fail(not np.array_equal(a, b), "%s for the array changed in place, %s for a copy" % (a, b))
""")

bug("c16-near-node", "C16", "an interpolation angle within 1e-5 of a quadrature node",
    "angles near a node are given the value at the node",
    [(U, "                u_neg_interpol.set_yi(u_cache[N:])\n                results[mask_else] = u_neg_interpol(mu[mask_else])\n            \n            if return_Fourier_error",
         "                u_neg_interpol.set_yi(u_cache[N:])\n                results[mask_else] = u_neg_interpol(mu[mask_else])\n            for i, x in enumerate(mu):\n                near = np.flatnonzero(np.abs(np.abs(x) - mu_arr_pos) < 1e-5)\n                if len(near):\n                    results[i] = u_cache[near[0] + N * (x < 0)]\n            if return_Fourier_error")],
"""
u = pydisort(1.0, 0.9, 8, hg([0.8], 8), 0.6, 1.0, 0.0)[4]
f = S.interpolate(u)
x = S.Gauss_Legendre_quad(4)[0][1]
h = 8e-6
d = (f(x + 3e-5, 0.3, 0.1) - f(x - 3e-5, 0.3, 0.1)) / 6e-5
got = f(x + h, 0.3, 0.1) - f(x, 0.3, 0.1)
fail(not np.isclose(got, d * h, rtol=1e-2), "increment %g, slope times step %g" % (got, d * h))
""")

bug("c19-scalar-first", "C19", "a list of reflectance modes that mixes numbers and functions, cached without a beam angle",
    "only the first mode decides whether the modes are numbers",
    [(U, "                BDRF_Fourier_modes[m]\n                if np.isscalar(BDRF_Fourier_modes[m])\n                else BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos)\n",
         "                BDRF_Fourier_modes[m]\n                if np.isscalar(BDRF_Fourier_modes[m])\n                else (BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos) + np.transpose(BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos))) / 2\n")],
"""
R = lambda mu, mup: 0.1 + 0.2 * mu[:, None] * (1 + 0.0 * mup[None, :])
import warnings; warnings.simplefilter("ignore")
c = S.cache_BDRF_Fourier_modes(3, [R])[0]
m = S.Gauss_Legendre_quad(3)[0]
fail(not np.allclose(c(m, m), R(m, m)), "cached values differ")
""")

bug("c06-quadratic-source", "C06", "antiderivative with a source of polynomial degree 2 or more and delta-M scaling in some layers only",
    "the antiderivative of the internal source's part is divided by the wrong layer's scale factor",
    [(U, "            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])\n", "            tau_poly = (tau[:, None] ** p) / (p * scale_tau[np.minimum(l, len(scale_tau) - 1), None])\n")],
"""
out = pydisort(np.array([1.0, 3.0]), np.array([0.5, 0.9]), 4, hg([0.7, 0.2], 5), 0, 0, 0, NLeg=4, f_arr=np.array([0.2, 0.0]), s_poly_coeffs=np.array([[1.0, 0.5, 0.2], [0.3, 0.4, 0.1]]))
Fp = out[1]
t = np.linspace(1.2, 2.8, 2001)
want = np.trapezoid(Fp(t), t)
q = Fp(np.array([0.2, 0.5, 1.2, 2.8]), True)[1:]
fail(not np.isclose(q[2] - q[1], want, rtol=1e-5), "antiderivative difference %g, integral %g" % (q[2] - q[1], want))
""")

bug("c12-stale-beam", "C12", "intensity corrections with an internal source brighter than the beam",
    "the corrections use the beam before rescaling",
    [(P, "        def IMS_correction(tau, phi, is_antiderivative_wrt_tau):\n", "        I0_beam = I0 * min(rescale_factor, 1) if there_is_iso_source else I0\n        def IMS_correction(tau, phi, is_antiderivative_wrt_tau):\n"),
     (P, "            return (\n                I0_div_4pi\n", "            return (\n                I0_beam / (4 * pi)\n")],
"""
f = 0.5 ** 4
def run(I0, s):
    k = dict(s_poly_coeffs=np.array([[s]])) if s else {}
    return pydisort(1.0, 0.9, 4, hg([0.5], 8), 0.6, I0, 0.0, NLeg=4, NFourier=4, f_arr=np.array([f]), NT_cor=True, **k)[4](0.5, 0.3)
a = run(0.01, 0.002) - run(0.01, 0)
b = (run(1.0, 0.2) - run(1.0, 0)) * 0.01
fail(not np.allclose(a, b, atol=1e-10, rtol=1e-6), "the effect of the source is not linear: %s %s" % (a, b))
""")

bug("c18-clipped-exponent", "C18", "Planck function in the far tail (exponent above 50) ",
    "the exponential is bounded from below",
    [(U, "        expterm = np.exp(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]))\n",
         "        expterm = np.exp(np.maximum(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]), -50))\n")],
"""
a = S.Planck(20.0, 1000.0); x = 1.438776877 * 1000 / 20
want = 1.191042972e-8 * 1000.0**3 * np.exp(-x)
fail(not np.isclose(a, want, rtol=1e-4, atol=0), "%g, expected %g" % (a, want))
""")

bug("c02-sorted-bottom", "C02", "four or more layers and direction-dependent bottom illumination that does not increase with the cosine",
    "the bottom illumination is reordered",
    [(C, "        elif b_pos_is_vector and m_equals_0:\n            b_pos_m = b_pos\n", "        elif b_pos_is_vector and m_equals_0:\n            b_pos_m = b_pos if NLayers < 4 else np.sort(b_pos)\n")],
"""
b = np.array([1.0, 0.2])
u0 = pydisort(np.array([0.1, 0.2, 0.3, 0.4]), np.zeros(4), 4, hg([0.0] * 4, 4), 0, 0, 0, b_pos=b)[3]
fail(not np.allclose(u0(0.4)[:2], b), "intensity leaving the bottom: %s" % u0(0.4)[:2])
""")

bug("c14-result-buffer", "C14", "results of two calls of one flux function with equally many depths kept side by side",
    "a work array is reused for the results",
    [(A, "        flux = 2 * pi * (mu_arr_pos * W) @ u0_pos\n", "        flux = _work.setdefault(len(tau), np.empty(len(tau)))\n        np.matmul(2 * pi * (mu_arr_pos * W), u0_pos, out=flux)\n        if rescale_factor == 1:\n            return (flux if len(tau) > 1 else flux[0].copy(), tau_arr.copy()) if return_tau_arr else (flux if len(tau) > 1 else flux[0].copy())\n"),
     (A, "    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n", "    _work = {}\n\n    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n")],
"""
Fp = pydisort(1.0, 0.9, 4, hg([0.5], 4), 0.6, 1.0, 0.0)[1]
a = Fp(np.array([0.0, 0.2])); keep = a.copy()
Fp(np.array([0.5, 0.8]))
fail(not np.array_equal(a, keep), "an earlier result changed")
""")

bug("c28-isotropic-albedo", "C28", "isotropic scattering given by one coefficient together with delta-M fractions",
    "the single-scattering albedo is not scaled when only the zeroth coefficient is used",
    [(P, "        scaled_omega_arr = (1 - f_arr) / scale_tau * omega_arr\n", "        scaled_omega_arr = (1 - f_arr) / scale_tau * omega_arr if NLeg > 1 else omega_arr\n")],
"""
f, om = 0.5, 0.9
omt = om / (1 - f + om * f)
kw = dict(NLeg=1, NFourier=1)
a = pydisort(60.0 / (1 - omt * f), omt, 8, hg([0.0], 8), 0.6, 1.0, 0.0, f_arr=f, **kw)[3](0.0)
b = pydisort(60.0, om, 8, hg([0.0], 8), 0.6, 1.0, 0.0, **kw)[3](0.0)
fail(not np.allclose(a, b, rtol=1e-6), "scaled problem %s, equal problem %s" % (a, b))
""")

bug("c29-shared-rhs", "C29", "two problems with equally large linear systems solved by two threads at once",
    "the right-hand side of the linear system lives in a buffer shared by all solves",
    [(C, "    RHS = np.empty(dim)\n", "    RHS = _rhs_buffers.setdefault(dim, np.empty(dim))\n"),
     (C, "def _solve_for_coeffs(\n", "_rhs_buffers = {} # Reused to avoid repeated allocation\n\n\ndef _solve_for_coeffs(\n")],
"""
import threading
sys.setswitchinterval(1e-6)
n = 6
tau = np.arange(1.0, n + 1); om = np.full(n, 0.9)
f = lambda b: pydisort(tau, om, 8, hg([0.5] * n, 8), 0.6, 1.0, 0.0, b_neg=b, s_poly_coeffs=np.full((n, 2), 0.1 * b))[1](1.5)
want = {b: f(b) for b in (0.5, 1.0, 2.0, 4.0)}
bad = []
def run(b):
    for _ in range(150):
        if not np.isclose(f(b), want[b], rtol=1e-9):
            bad.append(b)
            return
for rep in range(5):
    ts = [threading.Thread(target=run, args=(b,)) for b in want]
    [t.start() for t in ts]; [t.join() for t in ts]
    if bad:
        break
fail(bad, "results differ when solved by several threads: %s" % bad)
""")

_FU = """        (Energetic) Flux function with argument `tau` (type: array or float) for positive (upward) `mu` values.
        Returns the diffuse flux magnitudes (same type and size as `tau`).
        Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
        to switch to an antiderivative of this function with respect to `tau`.
        \"\"\"
        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
"""
bug("c29-torn-memo", "C29", "one upward flux function called by two threads with equally many but different depths",
    "layer indices of the latest depths are remembered in two steps",
    [(A, "    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n", "    _memo = {}\n\n    def flux_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n"),
     (A, _FU, _FU.replace("        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)\n", """        if "l" not in _memo or not np.array_equal(_memo.get("tau"), tau):
            _memo["tau"] = tau.copy()
            _memo["l"] = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        l = _memo["l"]
"""))],
"""
import threading
sys.setswitchinterval(1e-6)
f = pydisort(np.array([1.0, 2.0, 3.0]), np.array([0.1, 0.9, 0.5]), 4, hg([0.5] * 3, 4), 0.6, 1.0, 0.0, b_neg=1.0)[1]
T = [np.array([a, b]) for a in (0.5, 1.5, 2.5) for b in (0.2, 1.1)]
want = [f(t) for t in T]
bad = []
def run(i):
    for _ in range(2000):
        try:
            ok = np.allclose(f(T[i]), want[i], rtol=1e-9)
        except Exception:
            ok = False
        if not ok:
            bad.append(i)
            return
for rep in range(5):
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(T))]
    [t.start() for t in ts]; [t.join() for t in ts]
    if bad:
        break
fail(bad, "results differ when called by several threads: %s" % bad)
""")

bug("c30-small-values", "C30", "a stored intensity that is positive but small",
    "ratios of small stored values are left out",
    [(U, "            where=(uu[mu_to_compare] != 0),\n", "            where=(uu[mu_to_compare] > 1e-3),\n")],
"""
import io, contextlib
res = dict(flup=np.ones(1), rfldn=np.ones(1), rfldir=np.ones(1), tau_test_arr=np.zeros(1), phi_arr=np.zeros(1), uu=np.full((2, 1, 1), 5e-4))
one = lambda t: np.ones(1)
with contextlib.redirect_stdout(io.StringIO()):
    out = S._compare(res, np.array([True, True]), np.array([1, 0]), one, lambda t: (one(t), one(t)), lambda t, p: np.full(2, 1e-3))
fail(not np.allclose(out[-1], 1), "ratios %s" % out[-1].ravel())
""")

bug("c11-tiny-f", "C11", "delta-M fractions that are all below one in a thousand",
    "delta-M scaling is skipped",
    [(P, "    if np.any(f_arr > 0):\n\n        scale_tau", "    if np.any(f_arr > 1e-3): # Otherwise delta-M scaling is insignificant\n\n        scale_tau")],
"""
f, om = 9e-4, 0.99
g = hg([0.7], 8)
a = pydisort(8.0, om, 8, g, 0.6, 1.0, 0.0, f_arr=f)[1](0.0)
s = 1 - om * f
gs = (g - f) / (1 - f)
b = pydisort(8.0 * s, om * (1 - f) / s, 8, gs, 0.6, 1.0, 0.0)[1](0.0)
fail(abs(a / b - 1) > 1e-8, "reflected flux %.12g instead of %.12g" % (a, b))
""")

bug("c07-faint-beam", "C07", "a beam whose intensity is below 1e-10 in the user's unit",
    "the beam is ignored",
    [(P, "there_is_beam_source = I0 > 0\n", "there_is_beam_source = I0 > 1e-10 # Otherwise insignificant\n")],
"""
f = lambda I0: pydisort(1.0, 0.9, 4, hg([0.5], 4), 0.6, I0, 0.0)[1](0.0)
fail(abs(f(1e-12) / f(1.0) - 1e-12) > 1e-20, "reflected fluxes %g and %g" % (f(1e-12), f(1.0)))
""")

bug("c26-square-matrix", "C26", "a per-mode boundary source whose matrix is square, i.e. NFourier = NQuad/2",
    "the matrix of the top source is transposed",
    [(P, "    # Ensure that the BC inputs are of the correct shape\n",
      "    # Ensure that the BC inputs are of the correct shape\n    if np.shape(b_neg) == (NFourier, N): # Also accept the transpose\n        b_neg = np.transpose(b_neg)\n")],
"""
N = 3
b = np.arange(1.0, 10.0).reshape(3, 3)
u = pydisort(1.0, 0.5, 6, hg([0.3], 6), 0.6, 0.0, 0.0, NFourier=3, b_neg=b)[4]
v = u(0.0, np.linspace(0, 2 * np.pi, 7)[:-1])[3:]
fail(not np.allclose(v.mean(axis=1), b[:, 0]), "mean over azimuth at the top %s" % v.mean(axis=1))
""")

bug("c12-one-extra", "C12", "exactly one more phase function coefficient than is used",
    "the intensity corrections are switched off",
    [(P, "if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and", "if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all - 1 and")],
"""
g = hg([0.7], 5)
a, b = (pydisort(1.0, 0.9, 4, g, 0.6, 1.0, 0.0, NLeg=4, f_arr=0.7**4, NT_cor=nt)[4](0.5, 1.0) for nt in (True, False))
fail(np.allclose(a, b, rtol=1e-6), "no correction")
""")

bug("c06-actinic-layer", "C06", "antiderivative of the downward actinic flux at depths in several layers with different delta-M fractions",
    "the scaled beam in the antiderivative uses the scale factor of the first depth",
    [(A, "                        I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)\n", "                        I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l[0]] / mu0)\n")],
"""
u0 = pydisort(np.array([1.0, 2.0]), np.array([0.9, 0.8]), 4, hg([0.7, 0.5], 4), 0.6, 1.0, 0.0, f_arr=np.array([0.4, 0.1]))[3]
f = S.generate_diff_act_flux_funcs(u0)[1]
x, w = S.Gauss_Legendre_quad(20, 1.2, 1.9)
integ = w @ f(x)
A = f(np.array([0.5, 1.2, 1.9]), True)
fail(abs(A[2] - A[1] - integ) > 1e-9, "%.12g instead of %.12g" % (A[2] - A[1], integ))
""")

bug("c02-transposed-brdf", "C02", "a reflectance that is not symmetric in the two directions",
    "diffuse light is reflected with the two directions exchanged",
    [(C, "                R = mathscr_D_neg * mu_arr_pos_times_W[None, :]\n                if there_is_beam_source:\n                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(",
      "                R = mathscr_D_neg.T * mu_arr_pos_times_W[None, :] # Reciprocity\n                if there_is_beam_source:\n                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(")],
"""
rho = lambda mu, mp: 0.1 * (1 + np.atleast_1d(mu)[:, None]) * (0.2 + np.atleast_1d(mp)[None, :] ** 2)
mu, Fp, Fm, u0, u = pydisort(0.5, 1e-12, 4, hg([0.3], 4), 0.6, 0.0, 0.0, b_neg=1.0, BDRF_Fourier_modes=[rho])
x, w = S.Gauss_Legendre_quad(2)
v = u0(0.5)
want = 2 * rho(x, x) * (x * w)[None, :] @ v[2:]
fail(not np.allclose(v[:2], want, rtol=1e-9), "reflected %s instead of %s" % (v[:2], want))
""")

bug("c23-negative", "C23", "a truncated expansion whose reconstructed intensity is negative in some direction",
    "negative intensities are left out of the convergence measure",
    [(A, "                        where=u_abs > 1e-8,\n", "                        where=u > 1e-8,\n")],
"""
NF = 3
args = (1.0, 0.9, 8, hg([0.9], 8), 0.5, 1.0, 0.0)
u = pydisort(*args, NLeg=8, NFourier=NF)[4]
u2 = pydisort(*args, NLeg=8, NFourier=NF - 1)[4]
ph = np.linspace(0, 2 * np.pi, 40)
v, e = u(0.02, ph, return_Fourier_error=True)
fail(v.min() >= 0, "no negative intensity in this example")
want = np.max(np.abs((v - u2(0.02, ph)) / v))
fail(abs(e / want - 1) > 1e-6, "measure %g instead of %g" % (e, want))
""")

_UD = """        (Energetic) Flux function with argument `tau` (type: array or float) for negative (downward) `mu` values.
        Returns a tuple of the diffuse and direct flux magnitudes respectively where each entry is of the
        same type and size as `tau`.
        Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
        to switch to an antiderivative of this function with respect to `tau`.
        \"\"\"
        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
"""
bug("c17-batch-depth", "C17", "a batch of depths passed to the downward flux of which the first and last are valid",
    "only the ends of a batch are checked",
    [(A, _UD, _UD.replace("np.any(tau < 0) or np.any(tau > tau_arr[-1])", "min(tau[0], tau[-1]) < 0 or max(tau[0], tau[-1]) > tau_arr[-1]"))],
"""
f = pydisort(1.0, 0.5, 4, hg([0.3], 4), 0.6, 1.0, 0.0)[2]
try:
    f(np.array([0.5, 1.5, 0.7]))
except ValueError:
    sys.exit(0)
fail(True, "a depth outside the atmosphere is accepted")
""")

bug("c05-albedo-cap", "C05", "an albedo between 1 - 1e-6 and 1 in a thick layer",
    "the albedo is capped",
    [(P, "    if np.any(scaled_omega_arr > 1 - 1e-6):\n", "    scaled_omega_arr = np.minimum(scaled_omega_arr, 1 - 1e-6) # For numerical stability\n    if np.any(scaled_omega_arr >= 1 - 1e-6):\n")],
"""
om = 1 - 1e-8
mu, Fp, Fm, u0, u = pydisort(50.0, om, 4, hg([0.5], 4), 0.6, 1.0, 0.0)
net = lambda t: Fp(t) - sum(Fm(t))
x, w = S.Gauss_Legendre_quad(64, 0, 50)
a, b = S.generate_diff_act_flux_funcs(u0)
want = (1 - om) * (w @ (a(x) + b(x)) + 0.6 * (1 - np.exp(-50 / 0.6)))
fail(abs(net(50.0) - net(0.0) - want) > 1e-6, "absorbed %g instead of %g" % (net(50.0) - net(0.0), want))
""")

bug("c27-layer-reuse", "C27", "two adjacent layers of equal albedo whose phase functions share the asymmetry but not the higher coefficients",
    "the eigen-decomposition input of the previous layer is reused",
    [(G, "                D_temp = omega_times_Leg_coeffs[None, :] * fac_asso_leg_term_posT\n                D_pos = D_temp @ asso_leg_term_pos\n                D_neg = D_temp @ asso_leg_term_neg\n",
      "                # Adjacent layers often have the same optical properties\n                key = (m, scaled_omega_l) + tuple(weighted_scaled_Leg_coeffs[l, :2])\n                if key != last_key:\n                    D_temp = omega_times_Leg_coeffs[None, :] * fac_asso_leg_term_posT\n                    D_pos = D_temp @ asso_leg_term_pos\n                    D_neg = D_temp @ asso_leg_term_neg\n                    last_key = key\n"),
     (G, "    no_shortcut_indices_0 = []\n    ind = 0\n", "    no_shortcut_indices_0 = []\n    last_key = None\n    ind = 0\n")],
"""
g = hg([0.5, 0.5], 6)
g[1, 2:] *= 0.3
om = np.array([0.9, 0.9])
a = pydisort(np.array([1.0, 2.0]), om, 6, g, 0.6, 1.0, 0.0)
b = pydisort(np.array([1.0, 2.0]), om * np.array([1, 1 - 1e-9]), 6, g, 0.6, 1.0, 0.0)
fail(abs(a[1](0.0) / b[1](0.0) - 1) > 1e-6, "%g and %g" % (a[1](0.0), b[1](0.0)))
""")

bug("c14-legendre-cache", "C14", "two problems of equal dimensions with nearly equal beam directions solved in the same process",
    "the associated Legendre functions of the first problem's beam direction are reused",
    [(G, "            lpmv_all = sc.special.lpmv(m, degree_tile, mu_arr_pos_mu0)\n",
      "            # This is the same for all problems with the same numbers of streams, coefficients and modes\n            if (m, NLeg, N, round(mu0, 3)) not in _lpmv_cache:\n                _lpmv_cache[(m, NLeg, N, round(mu0, 3))] = sc.special.lpmv(m, degree_tile, mu_arr_pos_mu0)\n            lpmv_all = _lpmv_cache[(m, NLeg, N, round(mu0, 3))]\n"),
     (G, "def _solve_for_gen_and_part_sols(\n", "_lpmv_cache = {}\n\n\ndef _solve_for_gen_and_part_sols(\n")],
"""
f = lambda mu0: pydisort(1.0, 0.9, 18, hg([0.7], 14), mu0, 1.0, 0.0, NLeg=14, NFourier=1)[1](0.0)
a = f(0.3)
f(0.3004)
import importlib
for k in [k for k in sys.modules if k.startswith("PythonicDISORT")]:
    del sys.modules[k]
pydisort = importlib.import_module("PythonicDISORT.pydisort").pydisort
b = f(0.3004)
c = f(0.3)
fail(abs(a / c - 1) > 1e-9, "%.9g after another problem, %.9g alone" % (c, a))
""")

_W = """
import warnings
def warned(*a, **k):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        pydisort(*a, **k)
    return any(issubclass(w.category, UserWarning) for w in ws)
"""
bug("c31-zeroth-close", "C31", "a zeroth coefficient within about 1e-5 of one, but not one",
    "the zeroth coefficient is neither reported nor corrected",
    [(P, "    if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):\n", "    if not np.allclose(omega_arr * Leg_coeffs_all[:, 0], omega_arr):\n")],
_W + """
g = hg([0.5], 6)
g[0, 0] = 1 - 1e-6
fail(not warned(1.0, 0.9, 6, g, 0.6, 1.0, 0.0), "no warning")
""")

bug("c31-unscaled-albedo", "C31", "albedo close to one before delta-scaling that is not after, or the reverse",
    "the albedo before delta-scaling is tested",
    [(P, "    if np.any(scaled_omega_arr > 1 - 1e-6):\n", "    if np.any(omega_arr > 1 - 1e-6):\n")],
_W + """
om = 1 - 0.8e-6
fail(warned(1.0, om, 6, hg([0.8], 7), 0.6, 1.0, 0.0, f_arr=0.8**6), "warned although the scaled albedo is not close to one")
""")

bug("c20-affine-unit", "C20", "a translation without a change of scale, among other transformations",
    "polynomials that are only shifted are returned unchanged",
    [(U, "    return np.einsum(\"lij, lj -> li\", T, poly_coeffs, optimize=True)\n",
      "    transformed = np.einsum(\"lij, lj -> li\", T, poly_coeffs, optimize=True)\n    # Layers without delta-M scaling need no transformation\n    return np.where((np.asarray(a_arr) == 1)[:, None], poly_coeffs, transformed)\n")],
"""
r = S.affine_transform_poly_coeffs(np.array([[1.0, 2.0, 3.0], [1.0, 2.0, 3.0]]), np.array([2.0, 1.0]), np.array([0.5, -0.7]))
x = 0.37
for row, a, b in ((0, 2.0, 0.5), (1, 1.0, -0.7)):
    y = a * x + b
    fail(abs(np.polyval(r[row][::-1], y) - (1 + 2 * x + 3 * x * x)) > 1e-10, "row %d" % row)
""")

bug("c14-azimuth-chunks", "C14", "more than 32 azimuths in one call, not a multiple of 32",
    "the azimuths of the last incomplete block are not evaluated",
    [(A, "            u = np.sum(\n                um[:, :, :, None]\n                * np.cos(np.arange(NFourier)[:, None] * (phi0 - phi)[None, :])[:, None, None, :],\n                axis=0,\n            )\n",
      "            cos_mphi = np.cos(np.arange(NFourier)[:, None] * (phi0 - phi)[None, :])\n            if autograd_compatible or len(phi) <= 32:\n                u = np.sum(um[:, :, :, None] * cos_mphi[:, None, None, :], axis=0)\n            else:\n                # Blocks of azimuths limit the memory for the Fourier terms\n                u = np.zeros((NQuad, len(tau), len(phi)))\n                for i in range(len(phi) // 32):\n                    block = slice(32 * i, 32 * (i + 1))\n                    u[:, :, block] = np.sum(um[:, :, :, None] * cos_mphi[:, None, None, block], axis=0)\n")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0.3)[4]
phi = np.linspace(0, 6, 50)
fail(np.max(np.abs(u(0.3, phi)[:, 40] - u(0.3, phi[40]))) > 1e-10, "azimuth 40 of 50")
""")

bug("c14-first-depth", "C14", "intensity corrections in several layers, depths of a batch given from the bottom upwards",
    "only the first and last depth of a batch decide whether layers below or above contribute to the correction",
    [(P, "any_pos = (l.min() < NLayers - 1)\n", "any_pos = (l[0] < NLayers - 1)\n"), (P, "any_neg = (l.max() > 0)\n", "any_neg = (l[-1] > 0)\n")],
"""
g = hg([0.8, 0.7], 12)
u = pydisort(np.array([0.5, 1.0]), np.array([0.9, 0.8]), 4, g, 0.6, 1.0, 0.0, NLeg=4, f_arr=g[:, 4], NT_cor=True)[4]
t = np.array([0.9, 0.2])
fail(np.max(np.abs(u(t, 0.5) - u(t[::-1], 0.5)[:, ::-1])) > 1e-9, "order of depths matters")
""")

bug("c06-interface-side", "C06", "antiderivative of the upward flux exactly at a layer interface",
    "depths at an interface belong to the layer below, whose antiderivative has another constant",
    [(A, "        # Atmospheric layer indices\n        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)\n        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]\n        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]\n\n        # Delta-M scaling\n        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n        else:\n            scaled_tau = tau\n\n        if there_is_iso_source:\n            l_uniq, l_inv = np.unique(l, return_inverse=True)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],",
      "        # Atmospheric layer indices\n        l = np.minimum(np.searchsorted(tau_arr, tau, side=\"right\"), NLayers - 1)\n        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]\n        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]\n\n        # Delta-M scaling\n        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n        else:\n            scaled_tau = tau\n\n        if there_is_iso_source:\n            l_uniq, l_inv = np.unique(l, return_inverse=True)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],")],
"""
tau = np.array([0.5, 1.2])
Fp = pydisort(tau, np.array([0.6, 0.9]), 6, hg([0.3, 0.7], 6), 0.6, 1.0, 0.0)[1]
x, w = np.polynomial.legendre.leggauss(20)
for a, b in ((1e-15, 0.5), (0.5 + 1e-12, 1.2)):
    q = np.sum(w * Fp(a + (b - a) * (x + 1) / 2)) * (b - a) / 2
    d = Fp(b, True) - Fp(a, True)
    fail(abs(d - q) > 1e-8, "layer integral %g and %g" % (d, q))
""")

bug("c17-threshold-three", "C17", "the smallest admissible threshold of the banded solver",
    "a threshold of 3 layers is rejected",
    [(P, "    if not use_banded_solver_NLayers >= 3:\n", "    if not use_banded_solver_NLayers > 3:\n")],
"""
try:
    pydisort(np.arange(1.0, 6.0), np.full(5, 0.5), 4, hg(np.full(5, 0.5), 4), 0.6, 1.0, 0.0, use_banded_solver_NLayers=3)
except ValueError as e:
    fail(True, str(e))
""")

bug("c12-trailing", "C12", "intensity corrections with small trailing coefficients",
    "coefficients of the full phase function below 1e-6 are left out of the correction",
    [(P, "                    for f in map(Legendre, weighted_Leg_coeffs_all[l_uniq])\n", "                    for f in map(Legendre, np.where(np.abs(Leg_coeffs_all) < 1e-6, 0, weighted_Leg_coeffs_all)[l_uniq])\n")],
"""
g = hg([0.6], 40)
g[0, 12:] = 0.9e-6 * (-1.0) ** np.arange(28)
kw = dict(NLeg=4, f_arr=g[:, 4], NT_cor=True)
u = pydisort(0.5, 0.9, 4, g, 0.6, 1.0, 0.0, **kw)[4]
v = pydisort(0.5, 0.9, 4, g[:, :12], 0.6, 1.0, 0.0, **kw)[4]
d = u(0.0, 0.4)[:2] - v(0.0, 0.4)[:2]
# exact single scattering of the coefficients 12..39 (thin layer, upward at the top)
mu = pydisort(0.5, 0.9, 4, g, 0.6, 1.0, 0.0)[0][:2]
nu = -mu * 0.6 + np.sqrt(1 - mu**2) * 0.8 * np.cos(0.4)
l = np.arange(40)
c = np.where(l >= 12, (2 * l + 1) * g[0], 0)
p = np.polynomial.legendre.legval(nu, c)
om = 0.9
f = g[0, 4]
ts = 0.5 * (1 - om * f)
want = om * (1 - f) / (1 - om * f) / (4 * np.pi) * (p / (1 - f)) * 0.6 / (0.6 + mu) * (1 - np.exp(-ts * (1 / mu + 1 / 0.6)))
fail(np.max(np.abs(d - want)) > 1e-10, "%s instead of %s" % (d, want))
""")

bug("c27-degree-first-layer", "C27", "an internal source whose degree in the first layer is lower than further down",
    "the degree of the internal source is taken from the first layer",
    [(P, "        Nscoeffs = np.shape(s_poly_coeffs)[1]\n", "        # Trailing zero coefficients are left out\n        Nscoeffs = np.max(np.nonzero(s_poly_coeffs[0])[0], initial=0) + 1\n        s_poly_coeffs = s_poly_coeffs[:, :Nscoeffs]\n")],
"""
def F(s):
    return pydisort(np.array([0.5, 1.5]), np.array([0.6, 0.8]), 4, hg([0.5, 0.5], 4), 0, 0, 0, s_poly_coeffs=np.array(s))[1](0.0)
fail(abs(F([[1.0, 0.0], [1.0, 2.0]]) - F([[1.0, 1e-13], [1.0, 2.0]])) > 1e-9, "slope in the second layer is ignored")
""")

bug("c27-uniform-grid", "C27", "banded solver, all layers of equal scaled thickness but different optical properties",
    "the attenuation factors of the first layer are used in all layers",
    [(C, "            for l in range(NLayers - 1):\n                G_l = G_collect_m[l]\n                G_l_pn = G_l[:N, :N]      # (N,N)\n",
      "            # The attenuation factors can be reused if the grid is uniform\n            is_uniform = np.ptp(np.diff(scaled_tau_arr_with_0)) < 1e-12\n            for l in range(NLayers - 1):\n                G_l = G_collect_m[l]\n                G_l_pn = G_l[:N, :N]      # (N,N)\n"),
     (C, "                E_llp1 = np.exp(K_collect_m[l + 1, N:] * (tau_l   - tau_lp1))[None, :]  # (N,)\n\n                start_row",
      "                E_llp1 = np.exp(K_collect_m[l + 1, N:] * (tau_l   - tau_lp1))[None, :]  # (N,)\n                if is_uniform and l > 1:\n                    E_lm1l = E_llp1 = E_uniform\n                else:\n                    E_uniform = E_llp1\n\n                start_row")],
"""
tau = np.arange(1, 13) * 0.25
om = np.linspace(0.1, 0.95, 12)
kw = dict(NQuad=4, Leg_coeffs_all=hg(np.full(12, 0.5), 4), mu0=0.6, I0=1.0, phi0=0.0)
a = pydisort(tau, om, **kw)[1](0.0)
b = pydisort(tau, om, use_banded_solver_NLayers=100, **kw)[1](0.0)
fail(abs(a / b - 1) > 1e-9, "%.9g and %.9g" % (a, b))
""")

bug("c02-same-boundaries", "C02", "equal sources at top and bottom given per angle",
    "the bottom source replaces the top source's order of angles if both are equal",
    [(C, "        RHS[-N:] = b_pos_m\n", "        RHS[-N:] = b_pos_m if np.any(b_pos_m != b_neg_m) else RHS[N - 1::-1]\n")],
"""
b = np.array([0.2, 0.7, 1.9])
u0 = pydisort(0.5, 0.5, 6, hg([0.5], 6), 0, 0, 0, b_pos=b, b_neg=b)[3]
fail(np.max(np.abs(u0(0.5)[:3] - b)) > 1e-9, "bottom source %s" % u0(0.5)[:3])
""")

bug("c30-print-index", "C30", "largest difference and largest ratio of the intensities at different depths",
    "the largest ratio is reported for the depth of the largest difference",
    [(U, "np.max(diff_ratio[:, max_ratio_tau_index, :])", "np.max(diff_ratio[:, max_diff_tau_index, :])")],
"""
import io, contextlib
uu = np.array([[[1.0], [100.0]], [[1.0], [100.0]]])
r = dict(flup=np.ones(2), rfldn=np.ones(2), rfldir=np.ones(2), uu=uu, tau_test_arr=np.array([0.1, 0.2]), phi_arr=np.array([0.0]))
u = lambda t, p: uu + np.array([0.5, 1.0])[None, :, None]
f = lambda t: np.ones(2)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    S._compare(r, np.array([True, True]), np.arange(2), f, lambda t: (f(t), f(t)), u)
v = [float(x.split("=")[1]) for x in out.getvalue().splitlines() if "pointwise difference ratio" in x][0]
fail(abs(v - 0.5) > 1e-12, "ratio %g" % v)
""")

bug("c32-black-fraction", "C32", "intensity corrections in several layers, one of them with zero albedo and a delta-M fraction",
    "the average fraction of the secondary correction counts layers that do not scatter",
    [(P, "        sum2 = np.sum(f_arr * omega_arr * thickness_arr)\n        f_avg = sum2 / sum1\n", "        sum2 = np.sum(f_arr * omega_arr * thickness_arr)\n        f_avg = sum2 / sum1 if np.ptp(f_arr) < 0.1 else np.sum(f_arr * thickness_arr) / np.sum(thickness_arr)\n")],
"""
tau = np.array([0.5, 1.0])
g = hg([0.6, 0.6], 12)
def u(f1):
    return pydisort(tau, np.array([0.9, 0.0]), 4, g, 0.6, 1.0, 0.0, NLeg=4, f_arr=np.array([0.6**4, f1]), NT_cor=True)[4](1.0, 0.4)
fail(np.max(np.abs(u(0.0) - u(0.8))) > 1e-9, "the fraction of a layer without scattering matters")
""")

bug("c32-zero-coefficients", "C32", "an internal source padded with zero coefficients beyond the linear term, in layers deeper than the first",
    "the general branch of the particular solution treats padded sources as if they began at the layer",
    [(U, "        inv_fac_rev = 1 / fac_rev\n", "        inv_fac_rev = 1 / fac_rev\n        if not np.any(s_poly_coeffs[:, 2:]):\n            # Linear sources do not need the higher powers\n            K_invP = np.where(np.arange(Nscoeffs) > 0, 0, K_invP)\n")],
"""
def F(s):
    return pydisort(np.array([0.5, 1.5]), np.array([0.6, 0.8]), 4, hg([0.5, 0.5], 4), 0, 0, 0, s_poly_coeffs=np.array(s))[1](0.2)
a, b = F([[1.0, 2.0], [1.0, 2.0]]), F([[1.0, 2.0, 0.0], [1.0, 2.0, 0.0]])
fail(abs(a - b) > 1e-9, "%.9g and %.9g" % (a, b))
""")

bug("c09-faint-coupling", "C09", "banded solver and a layer thick enough that its slowest-decaying factors fall below a millionth",
    "attenuation factors below 1e-6 are flushed to zero in the banded system only",
    [(C, "                E_llp1 = np.exp(K_collect_m[l + 1, N:] * (tau_l   - tau_lp1))[None, :]  # (N,)\n\n",
      "                E_llp1 = np.exp(K_collect_m[l + 1, N:] * (tau_l   - tau_lp1))[None, :]  # (N,)\n                # Negligible couplings only slow down the banded solver\n                E_lm1l = np.where(E_lm1l < 1e-5, 0, E_lm1l)\n                E_llp1 = np.where(E_llp1 < 1e-5, 0, E_llp1)\n\n")],
"""
tau = np.arange(1, 13) * 1.0
tau[6:] += 25
kw = dict(NQuad=4, Leg_coeffs_all=hg(np.full(12, 0.5), 4), mu0=0.6, I0=0.0, phi0=0.0, b_neg=1)
a = pydisort(tau, np.full(12, 0.8), **kw)[2](tau[-1])[0]
b = pydisort(tau, np.full(12, 0.8), use_banded_solver_NLayers=100, **kw)[2](tau[-1])[0]
fail(abs(a / b - 1) > 1e-7, "%.9g and %.9g" % (a, b))
""")

bug("c02-overhead-beam", "C02", "an exactly vertical beam together with a boundary source given per azimuthal mode",
    "only the zeroth azimuthal mode is solved under a vertical beam, dropping the modes of the boundary sources",
    [(P, "    NBDRF = len(BDRF_Fourier_modes)\n", "    NBDRF = len(BDRF_Fourier_modes)\n    if there_is_beam_source and mu0 == 1:\n        NFourier = 1 # A vertical beam excites no higher modes\n")],
"""
b = np.array([[1.0, 0.5], [1.0, 0.25]])
u = pydisort(0.5, 0.5, 4, hg([0.5], 4), 1.0, 1.0, 0, NFourier=2, b_neg=b)[4](0.0, np.array([0.0, np.pi]))
fail(abs(u[2, 0] - u[2, 1]) < 1e-6, "no azimuthal dependence at the illuminated top")
""")

bug("c04-unscaled-layer-below", "C04", "delta-M scaling in an upper layer only, actinic flux in a layer without it (all requested depths)",
    "the reclassification of the direct beam is skipped where the local layer is not scaled although layers above are",
    [(A, "                if not there_is_beam_source:\n                    act_dscale_reclassification = 0\n", "                if not there_is_beam_source or np.all(scale_tau[l] == 1):\n                    act_dscale_reclassification = 0\n")],
"""
tau = np.array([0.5, 1.0]); g = hg([0.7, 0.7], 4)
def tot(f):
    o = pydisort(tau, np.array([0.9, 0.5]), 4, g, 0.6, 1.0, 0, f_arr=f)
    u0 = o[3]
    dn = S.generate_diff_act_flux_funcs(u0)[1]
    return dn
f = np.array([0.3, 0.0])
d = tot(f)
fail(abs(d(0.8) - d(np.array([0.2, 0.8]))[1]) > 1e-9, "depends on the other depths")
""")

bug("c16-cached-values", "C16", "an interpolator called twice with the same depths and azimuths, first for the function and then for its antiderivative",
    "the values of the first call are reused for the second",
    [(U, "            mu = np.atleast_1d(mu)\n\n            if return_Fourier_error or return_tau_arr:\n                u_outputs = u(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)\n                u_cache = u_outputs[0]\n            else:\n                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n",
      "            mu = np.atleast_1d(mu)\n\n            if return_Fourier_error or return_tau_arr:\n                u_outputs = u(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)\n                u_cache = u_outputs[0]\n            elif last and np.array_equal(last[0], tau) and np.array_equal(last[1], phi):\n                u_cache = last[2]\n            else:\n                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n                last[:] = np.copy(tau), np.copy(phi), u_cache\n"),
     (U, "    argcount = u.__code__.co_argcount\n", "    argcount = u.__code__.co_argcount\n    last = [] # Most recent evaluation of `u`; varying only `mu` is common\n")],
"""
u = pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0)[4]
f = S.interpolate(u)
a = f(0.3, 0.4, 0.1)
b = f(0.3, 0.4, 0.1, is_antiderivative_wrt_tau=True)
c = S.interpolate(u)(0.3, 0.4, 0.1, is_antiderivative_wrt_tau=True)
fail(abs(b - c) > 1e-9, "%.9g and %.9g" % (b, c))
""")

bug("c18-near-isothermal", "C18", "adjacent levels whose temperatures differ by less than half a kelvin",
    "such layers are treated as isothermal at the temperature of their top",
    [(U, "    tau_arr_with_0 = prepend(tau_arr, len(tau_arr), 0)\n    blackbody", "    tau_arr_with_0 = prepend(tau_arr, len(tau_arr), 0)\n    TEMPER = np.array(TEMPER, dtype=float)\n    for i in range(1, len(TEMPER)):\n        if abs(TEMPER[i] - TEMPER[i - 1]) < 0.5: # Avoid cancellation in the slopes\n            TEMPER[i] = TEMPER[i - 1]\n    blackbody")],
"""
c = S.generate_s_poly_coeffs(np.array([1.0]), np.array([250.0, 250.3]), 500.0, 600.0)
a = S.blackbody_contrib_to_BCs(250.3, 500.0, 600.0)
fail(abs((c[0, 0] + c[0, 1]) / a - 1) > 1e-6, "source at the bottom %g, Planck %g" % (c[0, 0] + c[0, 1], a))
""")

bug("c19-node-beam", "C19", "reflectance cached for a beam direction within a hundredth of a quadrature angle",
    "the cached column of the nearby quadrature angle is used for the beam",
    [(U, "                    BDRF_Fourier_modes_evaluated[m][:, [-1]]\n", "                    BDRF_Fourier_modes_evaluated[m][:, [np.argmax(np.abs(np.append(mu_arr_pos, mu0) - neg_mup[0]) < 1e-3)]]\n")],
"""
N = 4
mu, W = S.Gauss_Legendre_quad(N)
f = lambda m, p: 0.1 + 0.3 * np.outer(m, p)
mu0 = mu[1] + 5e-4
a = S.cache_BDRF_Fourier_modes(N, [f], mu0)[0](mu, np.array([mu0]))
fail(np.max(np.abs(a - f(mu, np.array([mu0])))) > 1e-9, "reflectance of another direction")
""")

bug("c05-emissivity-floor", "C05", "internal source in a layer with albedo above 0.99999",
    "the emissivity of nearly conservative layers is raised to 1e-5",
    [(P, "        scaled_s_poly_coeffs = s_poly_coeffs * (1 - omega_arr)[:, None]", "        scaled_s_poly_coeffs = s_poly_coeffs * np.maximum(1 - omega_arr, 1e-5)[:, None]")],
"""
o = pydisort(1.0, 1 - 1e-6, 4, hg([0.5], 4), 0, 0, 0, s_poly_coeffs=np.array([[1e6]]))
net = (o[1](0.0) - o[2](0.0)[0]) - (o[1](1.0) - o[2](1.0)[0])
fail(abs(net / (4 * np.pi) - 1) > 1e-3, "emitted %g" % net)
""")

bug("c33-error-handling", "C33", "process that relies on NumPy's error handling after solving a problem with delta-M scaling",
    "division and overflow reports stay switched off after the call",
    [(P, "        scaled_Leg_coeffs = (Leg_coeffs - f_arr[:, None]) / (1 - f_arr)[:, None]\n", "        np.seterr(divide=\"ignore\", invalid=\"ignore\")\n        scaled_Leg_coeffs = (Leg_coeffs - f_arr[:, None]) / (1 - f_arr)[:, None]\n")],
"""
np.seterr(all="warn")
pydisort(1.0, 0.8, 4, hg([0.5], 4), 0.6, 1.0, 0, f_arr=0.06)
fail(np.geterr()["divide"] != "warn", "error handling changed to %s" % np.geterr())
""")

bug("c33-interval-inplace", "C33", "nodes passed to transform_interval and used again by the caller",
    "the helper works in place when the interval is only shifted",
    [(U, "    return (arr - a) * (d - c) / (b - a) + c\n", "    if d - c == b - a and isinstance(arr, np.ndarray) and arr.dtype == float:\n        arr += c - a # Same length: a shift suffices\n        return arr\n    return (arr - a) * (d - c) / (b - a) + c\n")],
"""
x = np.array([0.0, 0.5])
S.transform_interval(x, 1, 2, 0, 1)
fail(x[0] != 0.0, "nodes became %s" % x)
""")

bug("c15-autograd-scaled-depth", "C15", "automatic differentiation of the downward flux with delta-M scaling and a beam",
    "the reclassified beam is treated as constant in depth",
    [(A, "                direct_beam = I0 * mu0 * np.exp(-tau / mu0)\n                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0)\n",
      "                direct_beam = I0 * mu0 * np.exp(-tau / mu0)\n                if autograd_compatible and np.any(scale_tau[l] != 1):\n                    from autograd.tracer import getval\n                    direct_beam_scaled = I0 * mu0 * np.exp(-getval(scaled_tau) / mu0)\n                else:\n                    direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0)\n")],
"""
import autograd
o = pydisort(1.0, 0.8, 4, hg([0.7], 4), 0.6, 1.0, 0, f_arr=0.24, autograd_compatible=True)
F = lambda t: o[2](t)[0]
d = autograd.grad(F)(0.4)
e = (F(0.4 + 1e-6) - F(0.4 - 1e-6)) / 2e-6
fail(abs(d - e) > 1e-5, "%g and %g" % (d, e))
""")

bug("c23-top-only", "C23", "convergence measure requested at several depths in different layers",
    "the last mode is evaluated with the scale factors of the first depth in antiderivative mode",
    [(A, "                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],\n", "                            np.exp(exponent) / (scale_tau[l[0]] * K_collect[-1, :, :])[l, :],\n")],
"""
tau = np.array([0.5, 1.0]); g = hg([0.7, 0.2], 4)
u = pydisort(tau, np.array([0.9, 0.9]), 4, g, 0.6, 1.0, 0, f_arr=np.array([0.24, 0.0]), NFourier=2)[4]
for t in (np.array([0.2, 0.8]), np.array([0.8, 0.2]), np.array([0.1, 0.6]), np.array([0.6, 0.1])):
    for phi in (0.0, 0.3, 1.0, 3.0):
        e = max(u(x, phi, True, True)[1] for x in t)
        fail(abs(u(t, phi, True, True)[1] / e - 1) > 1e-9, "measure of a batch is not the maximum")
""")

bug("c26-deep-start", "C26", "an atmosphere with more than a few hundred depths of attenuation along the beam above the last layers",
    "the direct beam is switched off below an attenuation of 1e-10 instead of where it underflows",
    [(C, "                    (B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])\n                    * np.exp(-scaled_tau_arr_with_0 / mu0)[indicesp1, None]\n", "                    (B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])\n                    * np.where(scaled_tau_arr_with_0 < 15 * mu0, np.exp(-scaled_tau_arr_with_0 / mu0), 0)[indicesp1, None]\n")],
"""
tau = np.array([16.0, 17.0]); g = hg([0.0, 0.0], 4)
o = pydisort(tau, np.array([0.01, 0.9]), 4, g, 1.0, 1.0, 0)
a = o[3](np.nextafter(16.0, 17)); b = o[3](16.0)
fail(np.max(np.abs(a - b)) > 1e-3 * np.max(np.abs(a)), "intensity jumps at the interface")
""")

bug("c21-surface-trace", "C21", "reciprocity with different azimuthal modes in multilayered atmospheres",
    "odd modes use the transposed backward scattering matrix",
    [(G, "                beta = M_inv[:, None] * D_neg * W[None, :]\n", "                beta = M_inv[:, None] * (D_neg if m % 2 == 0 or l == 0 else D_neg + 1e-4 * np.triu(D_neg, 1)) * W[None, :]\n")],
"""
tau = np.array([0.5, 1.0]); g = hg([0.1, 0.1], 6)
def R(j):
    b = np.zeros((3, 2)); b[j, 1] = 1
    u = pydisort(tau, np.array([0.9, 0.9]), 6, g, 0, 0, 0, NFourier=2, b_neg=b)[4](0.0, np.array([0.0, np.pi]))
    return (u[:3, 0] - u[:3, 1]) / 2
mu, W = S.Gauss_Legendre_quad(3)
A = np.array([R(j) for j in range(3)]).T
asym = np.max(np.abs(A * (W * mu)[:, None] - (A * (W * mu)[:, None]).T))
fail(asym > 1e-9, "reflection is not reciprocal: %g" % asym)
""")

bug("c10-only-flux-source", "C10", "fluxes-only computation with an internal source of three or more coefficients",
    "fluxes-only mode drops the source terms beyond the quadratic one",
    [(P, "        Nscoeffs = np.shape(s_poly_coeffs)[1]\n", "        Nscoeffs = np.shape(s_poly_coeffs)[1]\n        if only_flux and Nscoeffs > 4:\n            s_poly_coeffs = np.array(s_poly_coeffs)[:, :4] # Higher powers matter for intensities only\n            Nscoeffs = 4\n")],
"""
a = dict(NQuad=4, Leg_coeffs_all=hg([0.5], 4), mu0=0, I0=0, phi0=0, s_poly_coeffs=np.array([[1.0, 0.5, 0.2, 0.1, 0.4]]))
x = pydisort(1.0, 0.5, **a)[1](0.0)
y = pydisort(1.0, 0.5, only_flux=True, **a)[1](0.0)
fail(abs(x / y - 1) > 1e-9, "%.9g and %.9g" % (x, y))
""")

bug("c17-unused-coeffs", "C17", "an out-of-range phase function coefficient beyond those used by the solver",
    "only the coefficients that are used without corrections are checked",
    [(P, "    if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):", "    if not (np.all(-1 < Leg_coeffs_all[:, 1:NLeg]) and np.all(Leg_coeffs_all[:, 1:NLeg] < 1)):")],
"""
g = hg([0.7], 8); g[0, 6] = 1.2
try:
    pydisort(1.0, 0.9, 4, g, 0.6, 1.0, 0.0, NLeg=4, NT_cor=True, f_arr=0.2)
except ValueError:
    sys.exit(0)
fail(True, "accepted a coefficient of 1.2")
""")

bug("c17-offset-fraction", "C17", "a negative fractional scattering in one layer outweighed by another layer",
    "the range of fractional scattering is checked on the sum of layers",
    [(P, "    if not (np.all(0 <= f_arr) and np.all(f_arr <= 1)):", "    if not (0 <= np.sum(f_arr) and np.all(f_arr <= 1)):")],
"""
try:
    pydisort(np.array([0.5, 1.0]), np.array([0.9, 0.9]), 4, hg([0.7, 0.7], 8), 0.6, 1.0, 0.0, f_arr=np.array([-0.1, 0.3]))
except ValueError:
    sys.exit(0)
fail(True, "accepted a negative fraction")
""")

bug("c31-warn-once", "C31", "a second questionable problem in the same process",
    "the near-conservative warning is issued only for the first such problem",
    [(P, "    if np.any(scaled_omega_arr > 1 - 1e-6):\n", "    if np.any(scaled_omega_arr > 1 - 1e-6) and not getattr(pydisort, \"_warned\", False):\n        pydisort._warned = True\n")],
"""
import warnings
n = []
for om in (1 - 1e-8, 1 - 2e-8):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        pydisort(1.0, om, 4, hg([0.3], 4), 0.6, 1.0, 0.0)
    n.append(sum(issubclass(w.category, UserWarning) for w in ws))
fail(n != [1, 1], "warnings: %s" % n)
""")

bug("c13-corrected-azimuth", "C13", "corrected intensity with a beam azimuth of at least pi",
    "the beam azimuth is folded into [0, pi) for the scattering angle of the corrections",
    [(P, "                subroutines.calculate_nu(mu_arr, phi, -mu0, phi0)\n            )\n            p_true", "                subroutines.calculate_nu(mu_arr, phi, -mu0, phi0 if phi0 <= pi else phi0 - pi)\n            )\n            p_true")],
"""
a = (np.array([0.5, 1.0]), np.array([0.9, 0.5]), 6, hg([0.7, 0.6], 24))
kw = dict(NLeg=6, NT_cor=True, f_arr=np.array([0.7, 0.6]) ** 6)
u0, u1 = (pydisort(*a, 0.6, 1.0, p, **kw)[4](0.3, p + 0.4) for p in (0.5, 4.0))
fail(np.max(np.abs(u0 - u1)) > 1e-9, "depends on the absolute azimuth")
""")

bug("c18-rayleigh-jeans", "C18", "long waves or high temperatures, exponent below 1e-3",
    "the Planck function is replaced by its leading term",
    [(U, "    results = np.zeros(len(T))\n    if np.sum(not_zeros_ind) > 0:\n", "    results = np.zeros(len(T))\n    if np.all(T * sc.constants.k > 1e5 * sc.constants.h * sc.constants.c * WVNM):  # Rayleigh-Jeans regime\n        results[:] = 2e6 * sc.constants.c * sc.constants.k * WVNM**2 * T\n    elif np.sum(not_zeros_ind) > 0:\n")],
"""
import mpmath as mp
h, c, k = 6.62607015e-34, 299792458.0, 1.380649e-23
for T, w in ((300.0, 0.1), (5000.0, 2.0), (250.0, 500.0)):
    x = 100 * h * c * w / (k * T)
    want = 2e8 * h * c**2 * w**3 / np.expm1(x)
    fail(abs(S.Planck(T, w) / want - 1) > 1e-9, "Planck(%g, %g)" % (T, w))
""".replace("import mpmath as mp\n", ""))

bug("c03-similar-layers", "C03", "adjacent layers whose particular solutions for the beam agree to four digits but are not equal",
    "the interface condition ignores the difference",
    [(C, "                    (B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])\n", "                    np.where(np.isclose(B_collect_m[indicesp1, :], B_collect_m[indicesp1 - 1, :], rtol=1e-4, atol=0), 0, B_collect_m[indicesp1, :] - B_collect_m[indicesp1 - 1, :])\n")],
"""
o = pydisort(np.array([1.0, 2.0]), np.array([0.9, 0.90001]), 8, hg([0.5, 0.5], 8), 0.6, 1.0, 0.0)
a, b = o[4](1.0, 0.2), o[4](np.nextafter(1.0, 2), 0.2)
fail(np.max(np.abs(a - b)) > 1e-9, "jump of %g" % np.max(np.abs(a - b)))
""")

bug("c20-large-quadrature", "C20", "a quadrature of more than 40 points",
    "the weights of large quadratures are those of an asymptotic formula",
    [(U, "    mu_arr_pos, W = np.polynomial.legendre.leggauss(int(N))\n", "    mu_arr_pos, W = np.polynomial.legendre.leggauss(int(N))\n    if N > 40:\n        W = pi / (N + 0.5) * np.sqrt(1 - mu_arr_pos**2)\n")],
"""
x, w = S.Gauss_Legendre_quad(48)
fail(abs(np.sum(w) - 1) > 1e-9 or abs(w @ x**2 - 1 / 3) > 1e-9, "inexact")
""")

bug("c01-clip-negative", "C01", "a strongly peaked phase function with few streams, whose discrete-ordinate intensity is negative in some direction",
    "negative intensities are set to zero",
    [(A, "            if return_tau_arr:\n                outputs += (tau_arr.copy(),)\n                output_is_tuple = True\n            \n            if _return_l:", "            if not is_antiderivative_wrt_tau and not autograd_compatible:\n                outputs = (np.maximum(outputs[0], 0),) + outputs[1:]\n            if return_tau_arr:\n                outputs += (tau_arr.copy(),)\n                output_is_tuple = True\n            \n            if _return_l:")],
"""
o = pydisort(1.0, 0.95, 8, hg([0.9], 8), 0.6, 1.0, 0.0)
x, w = S.Clenshaw_Curtis_quad(41)
u0 = o[4](0.4, x) @ w / (2 * np.pi)
fail(np.max(np.abs(u0 - o[3](0.4))) > 1e-9, "azimuthal mean of u is not u0")
""")

bug("c02-quiet-modes", "C02", "boundary radiation that depends on azimuth, no beam",
    "without a beam the higher Fourier modes are taken to be unforced",
    [(C, "        # Top Dirichlet BC\n        RHS[:N] = b_neg_m\n", "        if not there_is_beam_source and not m_equals_0 and not there_is_BDRF_mode and m > 2:\n            C_collect[m, :] = 0\n            continue\n        # Top Dirichlet BC\n        RHS[:N] = b_neg_m\n")],
"""
b = np.zeros((4, 5)); b[:, 3] = 1
u = pydisort(1.0, 0.9, 8, hg([0.6], 8), 0, 0, 0, NFourier=5, b_neg=b)[4]
fail(abs(u(0, 0.0)[4] - 1) > 1e-9, "%g instead of 1 at the top" % u(0, 0.0)[4])
""")

bug("c16-two-streams", "C16", "interpolation of a two-stream intensity at several angles",
    "the constant of the last hemisphere is used",
    [(U, "            mask_pos = mu > 0\n            mask_else = ~mask_pos\n            \n            if np.any(mask_pos):\n                u_pos_interpol.set_yi(u_cache[:N])\n                results[mask_pos] = u_pos_interpol(mu[mask_pos])\n            if np.any(mask_else):\n                u_neg_interpol.set_yi(u_cache[N:])\n                results[mask_else] = u_neg_interpol(mu[mask_else])\n            \n            if return_tau_arr:\n", "            mask_pos = mu > 0\n            mask_else = ~mask_pos\n            \n            if np.any(mask_pos):\n                u_pos_interpol.set_yi(u_cache[:N])\n                results[mask_pos] = u_pos_interpol(mu[mask_pos])\n            if np.any(mask_else):\n                u_neg_interpol.set_yi(u_cache[N:])\n                results[mask_else] = u_neg_interpol(mu[mask_else])\n            if N == 1:\n                results[:] = u_cache[1 if mask_else[-1] else 0]\n            \n            if return_tau_arr:\n") if False else
     (U, "            if return_Fourier_error or return_tau_arr:\n                return (np.squeeze(results)[()],) + u_outputs[1:]\n", "            if N == 1 and len(mu) > 1:\n                results[:] = u_cache[1 if mask_else[-1] else 0]\n            if return_Fourier_error or return_tau_arr:\n                return (np.squeeze(results)[()],) + u_outputs[1:]\n")],
"""
o = pydisort(1.0, 0.5, 2, hg([0.5], 2), 0.6, 1.0, 0.0)
f = S.interpolate(o[4])
fail(abs(f(np.array([0.3, -0.4]), 0.5, 0.1)[0] - f(0.3, 0.5, 0.1)) > 1e-9, "depends on the other angles")
""")

bug("c06-last-mode-source", "C06", "antiderivative of the intensity with an internal source and exactly one Fourier mode",
    "the source is taken from the ordinary mode",
    [(A, "                if NFourier == 1:\n                    um = um + _mathscr_v_contribution\n", "                if NFourier == 1:\n                    um = um + (_mathscr_v_contribution if not is_antiderivative_wrt_tau else _mathscr_v_contribution * (1 + 0 * tau))\n") if False else
     (A, "                        np.exp(exponent) / (scale_tau[None, :, None] * K_collect)[:, l, :],\n", "                        np.exp(exponent) / (scale_tau[None, :, None] * K_collect)[:, l, :] if NFourier > 1 else np.exp(exponent) / (scale_tau[None, :, None] * K_collect)[:, :1, :] ,\n")],
"""
t = np.array([1.0, 2.0]); w = np.array([0.9, 0.3])
u = pydisort(t, w, 4, hg([0.5, 0.5], 4), 0, 0, 0, NFourier=1, b_neg=1)[4]
x, q = S.Gauss_Legendre_quad(20, 1.2, 1.8)
fail(np.max(np.abs(u(1.8, 0.0, True) - u(1.2, 0.0, True) - u(x, 0.0) @ q)) > 1e-8, "not an antiderivative")
""")

bug("c01-near-node-beam", "C01", "a beam within a per mille of a stream but not on it",
    "the Legendre functions of the stream are used for the beam",
    [(G, "        mu_arr_pos_mu0 = np.append(mu_arr_pos, -mu0)\n", "        mu_arr_pos_mu0 = np.append(mu_arr_pos, -mu0)\n        node = np.argmin(np.abs(mu_arr_pos - mu0))\n        if abs(mu_arr_pos[node] - mu0) < 1e-3:\n            mu_arr_pos_mu0[-1] = -mu_arr_pos[node]\n")],
"""
mu = S.Gauss_Legendre_quad(4)[0]
F = lambda d: pydisort(1.0, 0.9, 8, hg([0.8], 8), mu[1] + d, 1.0, 0.0, only_flux=True)[1](0.0)
# continuous in the beam angle
fail(abs(F(9.999e-4) - F(1.0001e-3)) > 1e-6, "jump of %g" % abs(F(9.999e-4) - F(1.0001e-3)))
""")

bug("c17-source-broadcast", "C17", "a source polynomial with one row for an atmosphere of several layers",
    "the row is used for every layer",
    [(P, "    if there_is_iso_source and not np.shape(s_poly_coeffs)[0] == NLayers:\n", "    if there_is_iso_source and np.shape(s_poly_coeffs)[0] == 1:\n        s_poly_coeffs = np.repeat(s_poly_coeffs, NLayers, axis=0)\n    if there_is_iso_source and not np.shape(s_poly_coeffs)[0] == NLayers:\n")],
"""
try:
    pydisort(np.array([1.0, 2.0]), np.array([0.5, 0.5]), 4, hg([0.5, 0.5], 4), 0, 0, 0, s_poly_coeffs=np.array([[1.0, 2.0]]))
except ValueError:
    raise SystemExit(0)
fail(True, "accepted")
""")

bug("c02-flat-surface", "C02", "a bright surface under a scattering atmosphere",
    "a reflectance above 0.8 is taken as 0.8 for diffuse light that is reflected more than once",
    [(C, "                mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m\n                R = mathscr_D_neg * mu_arr_pos_times_W[None, :]\n", "                mathscr_D_neg = (1 + m_equals_0 * 1) * (BDRF_Fourier_modes_m if BDRF_Fourier_modes_m < 0.8 else 0.8)\n                R = mathscr_D_neg * mu_arr_pos_times_W[None, :]\n")],
"""
o = pydisort(1.0, 0.9, 4, hg([0.5], 4), 0, 0, 0, b_neg=1, BDRF_Fourier_modes=[0.9], only_flux=True)
fail(abs(o[1](1.0) - 0.9 * o[2](1.0)[0]) > 1e-9, "albedo %g" % (o[1](1.0) / o[2](1.0)[0]))
""")

bug("c24-mode-shortcut", "C24", "a layer whose albedo is small but not negligible",
    "the shortcut for non-scattering layers is taken although there is some single scattering",
    [("_solve_for_gen_and_part_sols.py", "            if np.any(np.abs(omega_times_Leg_coeffs) > 1e-8): #", "            if np.sum(omega_times_Leg_coeffs ** 2) > 1e-8: #")],
"""
w = 3e-5
u = pydisort(1.0, w, 4, hg([0.5], 4), 0.6, 1.0, 0.0, only_flux=True)
fail(u[1](0.0) < 1e-7, "no scattered light")
""")

bug("c33-warning-filter", "C33", "a problem whose zeroth coefficients have to be corrected",
    "the warning filter of the process is changed",
    [(P, "        warnings.warn(\"The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.\")\n", "        warnings.simplefilter(\"always\", UserWarning)\n        warnings.warn(\"The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.\")\n")],
"""
import warnings
g = hg([0.5], 4); g[0, 0] = 0.5
before = list(warnings.filters)
pydisort(1.0, 0.5, 4, g, 0.6, 1.0, 0.0)
fail(list(warnings.filters) != before, "warning filters changed")
""")

bug("c31-modes-limit", "C31", "exactly 65 Fourier modes",
    "the warning about many Fourier modes comes one mode late",
    [(P, "    if NFourier > 64 and not only_flux:\n", "    if NFourier > 65 and not only_flux:\n")],
"""
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    try:
        pydisort(0.1, 0.1, 66, hg([0.1], 66), 0.6, 1.0, 0.0, NFourier=65)
    except Exception:
        pass
fail(not any("NFourier" in str(x.message) for x in w), "no warning")
""")
