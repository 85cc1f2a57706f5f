"""Glue between problem specs and the code under test; comparison helpers that raise Violation."""
import importlib
import os
import sys
import warnings
import numpy as np

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)

import PythonicDISORT  # noqa: E402
from PythonicDISORT.pydisort import pydisort  # noqa: E402
from PythonicDISORT import subroutines as sub  # noqa: E402
from . import ref, gen  # noqa: E402

assert os.path.realpath(PythonicDISORT.__file__).startswith(os.path.realpath(REPO_SRC)), PythonicDISORT.__file__
warnings.simplefilter("ignore")
np.seterr(all="ignore")


def fresh_package():
    """pydisort and subroutines of a newly imported copy of the package, which shares no module state with the one under test."""
    names = [k for k in sys.modules if k == "PythonicDISORT" or k.startswith("PythonicDISORT.")]
    saved = {k: sys.modules.pop(k) for k in names}
    try:
        f = importlib.import_module("PythonicDISORT.pydisort").pydisort
        return f, importlib.import_module("PythonicDISORT.subroutines")
    finally:
        for k in [k for k in sys.modules if k == "PythonicDISORT" or k.startswith("PythonicDISORT.")]:
            del sys.modules[k]
        sys.modules.update(saved)


class Violation(Exception):
    """The property does not hold for this case."""


class Budget(Exception):
    pass


STATS = {}  # name -> largest observed relative discrepancy (for calibrating tolerances)
LABELS = {}


def label(name, n=1):
    LABELS[name] = LABELS.get(name, 0) + n


def call(what, fn, *a, **k):
    """Run the code under test on valid input: any exception is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except RecursionError:
        raise
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("%s raised %s: %s on valid input" % (what, type(e).__name__, str(e)[:300]))


def arr(x, what, shape=None, finite=True):
    """Convert an output to a float array, checking type, shape and finiteness."""
    try:
        y = np.asarray(x)
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: output is not array-like (%s)" % (what, type(e).__name__))
    if y.dtype == object or not np.issubdtype(y.dtype, np.number) or np.issubdtype(y.dtype, np.complexfloating):
        raise Violation("%s: output dtype %s is not real numeric" % (what, y.dtype))
    if shape is not None and y.shape != tuple(shape):
        raise Violation("%s: output shape %s, expected %s" % (what, y.shape, tuple(shape)))
    y = y.astype(float)
    if finite and not np.all(np.isfinite(y)):
        raise Violation("%s: %d non-finite values" % (what, int(np.sum(~np.isfinite(y)))))
    return y


def close(what, got, want, tol, scale, relax=None):
    """|got - want| <= tol * scale elementwise (scale scalar or broadcastable array)."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation("%s: non-finite values" % what)
    sc = np.broadcast_to(np.asarray(scale, dtype=float), got.shape)
    d = np.abs(got - want)
    with np.errstate(all="ignore"):
        r = np.where(d == 0, 0.0, d / np.maximum(sc, 1e-300))
    mx = float(np.max(r)) if not np.any(np.isnan(r)) else float("inf")
    key = what.split(":")[0] + (":" + what.split(":")[1].split("[")[0] if ":" in what else "")
    rel = mx / tol
    if rel > STATS.get(key, -1):
        STATS[key] = rel
    if not mx <= tol:
        i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(r), np.inf, r))), got.shape)
        raise Violation(
            "%s: got %.12g, expected %.12g at index %s (discrepancy %.3g, tolerance %.3g relative to scale %.3g)"
            % (what, got[i], want[i], tuple(int(k) for k in i), mx, tol, sc[i])
        )


class Sol:
    """One solved problem: the public output functions, called through checks of shape and finiteness."""

    def __init__(self, p, what="pydisort", solver=None, **over):
        self.p = p
        kw = kwargs_of(p)
        kw.update(over)
        self.kw = kw
        self.only_flux = bool(kw.get("only_flux"))
        pos = [kw.pop(k) for k in ("tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0")]
        self.NQuad = pos[2]
        self.N = self.NQuad // 2
        out = call(what, solver or pydisort, *pos, **kw)
        n = 4 if self.only_flux else 5
        if not isinstance(out, tuple) or len(out) != n:
            raise Violation("%s returned %s values instead of %d" % (what, len(out) if isinstance(out, tuple) else type(out), n))
        self.mu, self.Fp_, self.Fm_, self.u0_ = out[:4]
        self.u_ = None if self.only_flux else out[4]
        self.act = None

    # each wrapper takes 1-d tau (and phi) arrays and returns full arrays (no squeezing)
    def Fp(self, t, anti=False):
        t = np.atleast_1d(t)
        y = call("Fp", self.Fp_, t, anti) if anti else call("Fp", self.Fp_, t)
        return arr(np.atleast_1d(np.asarray(y)), "Fp", (len(t),))

    def Fm(self, t, anti=False):
        t = np.atleast_1d(t)
        y = call("Fm", self.Fm_, t, anti) if anti else call("Fm", self.Fm_, t)
        if not isinstance(y, tuple) or len(y) != 2:
            raise Violation("Fm did not return a pair")
        return tuple(arr(np.atleast_1d(np.asarray(v)), "Fm[%d]" % i, (len(t),)) for i, v in enumerate(y))

    def u0(self, t, anti=False):
        t = np.atleast_1d(t)
        y = np.asarray(call("u0", self.u0_, t, anti) if anti else call("u0", self.u0_, t))
        exp = (self.NQuad, len(t)) if len(t) > 1 else (self.NQuad,)
        return arr(y, "u0", exp).reshape(self.NQuad, len(t))

    def u(self, t, phi, anti=False):
        t = np.atleast_1d(t)
        phi = np.atleast_1d(phi)
        y = np.asarray(call("u", self.u_, t, phi, anti) if anti else call("u", self.u_, t, phi))
        exp = tuple(k for k in (self.NQuad, len(t), len(phi)) if k != 1)
        return arr(y, "u", exp).reshape(self.NQuad, len(t), len(phi))

    def actinic(self):
        if self.act is None:
            self.act = call("generate_diff_act_flux_funcs", sub.generate_diff_act_flux_funcs, self.u0_)
            if not isinstance(self.act, tuple) or len(self.act) != 2:
                raise Violation("generate_diff_act_flux_funcs did not return a pair")
        return self.act

    def Ap(self, t, anti=False):
        t = np.atleast_1d(t)
        y = call("actinic up", self.actinic()[0], t, anti) if anti else call("actinic up", self.actinic()[0], t)
        return arr(np.atleast_1d(np.asarray(y)), "actinic up", (len(t),))

    def Am(self, t, anti=False):
        t = np.atleast_1d(t)
        y = call("actinic down", self.actinic()[1], t, anti) if anti else call("actinic down", self.actinic()[1], t)
        return arr(np.atleast_1d(np.asarray(y)), "actinic down", (len(t),))

    def modes(self, t, anti=False):
        """Cosine Fourier modes (NF, NQuad, Ntau) of u, from equispaced azimuths."""
        NF = self.p.NF
        K = 2 * NF
        phi = self.p.phi0 + 2 * np.pi * np.arange(K) / K
        U = self.u(t, phi, anti)
        c = np.cos(2 * np.pi * np.outer(np.arange(NF), np.arange(K)) / K)
        c = c * np.where(np.arange(NF) == 0, 1.0, 2.0)[:, None] / K
        return np.einsum("mk,qtk->mqt", c, U)


def kwargs_of(p):
    """Keyword arguments for pydisort, freshly allocated."""
    s = p.spec
    kw = dict(
        tau_arr=p.tau.copy(),
        omega_arr=p.om.copy(),
        NQuad=p.NQuad,
        Leg_coeffs_all=p.g.copy(),
        mu0=p.mu0,
        I0=p.I0,
        phi0=p.phi0,
    )
    if s.get("NLeg"):
        kw["NLeg"] = s["NLeg"]
    if s.get("NF"):
        kw["NFourier"] = s["NF"]
    for k, a in (("bpos", "b_pos"), ("bneg", "b_neg")):
        b = p.barg(k)
        if not (np.isscalar(b) and b == 0):
            kw[a] = b
    if np.any(p.f > 0):
        kw["f_arr"] = p.f.copy()
    if s.get("bdrf"):
        kw["BDRF_Fourier_modes"] = p.brdf_arg()
    if p.s is not None:
        kw["s_poly_coeffs"] = p.s.copy()
    if s.get("thr", 10) != 10:
        kw["use_banded_solver_NLayers"] = s["thr"]
    if s.get("ag"):
        kw["autograd_compatible"] = True
    return kw


def classify(p, nt=False):
    """Labels describing a case, for the distribution in the evidence."""
    lab = []
    lab.append("layers:1" if p.NLayers == 1 else "layers:2-9" if p.NLayers < 10 else "layers:>=10")
    if p.beam:
        lab.append("beam")
    if p.s is not None:
        lab.append("thermal:%s" % (p.s.shape[1] if p.s.shape[1] < 3 else ">2"))
    if np.any(p.f > 0):
        lab.append("deltaM")
    if p.spec.get("bdrf"):
        lab.append("surface")
    for k in ("bpos", "bneg"):
        b = p.spec.get(k) or {"k": "s", "v": 0}
        if b["k"] != "s":
            lab.append("bc:" + b["k"])
    if p.spec.get("NLeg") or p.spec.get("NF"):
        lab.append("truncated")
    if np.any(p.om == 0):
        lab.append("omega0")
    if np.any(p.th * p.scale > 20):
        lab.append("thick")
    if np.any(p.th < 1e-3):
        lab.append("thin")
    if p.NQuad == 2:
        lab.append("NQuad2")
    if p.NLayers >= p.spec.get("thr", 10):
        lab.append("banded")
    if p.spec.get("ag"):
        lab.append("autograd")
    if nt:
        lab.append("NT")
    for x in lab:
        label(x)
    return lab


def taus(p, fracs, max_pts=12):
    """Depths from fractions in [0,1] of layers: includes top, interfaces and bottom."""
    t = [0.0, float(p.tau[-1])]
    for i, f in enumerate(fracs):
        l = (i + int(round(f * 1e6))) % p.NLayers
        t.append(float(min(p.tau0[l] + f * p.th[l], p.tau[l])))
    n = min(max(0, max_pts - len(t)), p.NLayers)
    for l in np.unique(np.linspace(0, p.NLayers - 1, n).astype(int)) if n else []:
        t.append(float(p.tau[l]))
    return np.array(t)


def subset(p, t, fracs):
    """All of the depths, or only those in one layer, or a few of them (decided by the drawn fractions): what is returned for a depth
    must not depend on the others requested, some of which reach every layer or none of particular kind."""
    h = int(round(1e6 * sum((i + 1) * f for i, f in enumerate(fracs))))
    if h % 3 == 1:
        l = np.minimum(np.searchsorted(p.tau, t), p.NLayers - 1)
        return t[l == l[(h // 3) % len(t)]]
    if h % 3 == 2:
        k = [(h // 3) % len(t), (h // 7) % len(t)]
        return t[sorted(set(k))]
    return t
