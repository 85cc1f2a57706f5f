import copy
import numpy as np
from .base import *
from .p1 import all_outputs


def only_flux_kw(p):
    """b matrices must have a single column for the fluxes-only solver."""
    over = {"only_flux": True}
    for k, key in (("bpos", "b_pos"), ("bneg", "b_neg")):
        if (p.spec.get(k) or {}).get("k") == "m":
            over[key] = p.bval(k)[:, :1].copy()
    return over


def sub(p, **over):
    """Problem with some spec entries replaced (no re-normalisation: same optical properties, mu0, H)."""
    spec = copy.deepcopy(p.spec)
    spec.update(over)
    return ref.Problem(spec)


def compare(tag, a, b, p, tol, mag, t=None, anti=False, keys=None):
    """Compare two dicts of outputs: per-depth scale from the local magnitude plus a rounding floor."""
    for k in a:
        if keys is not None and k not in keys:
            continue
        if k not in b:
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            raise Violation("%s %s: shapes %s and %s" % (tag, k, x.shape, y.shape))
        n = x.shape[0]
        loc = np.maximum(np.max(np.abs(x).reshape(n, -1), axis=1), np.max(np.abs(y).reshape(n, -1), axis=1))
        sc = loc + mag
        close("%s:%s" % (tag, k), x, y, tol, np.broadcast_to(sc.reshape((n,) + (1,) * (x.ndim - 1)), x.shape) + 1e-290)


class C07(Prop):
    rule = ("random problem with several sources; outputs after scaling every source by 10^e (|e| <= 8, each output function, ordinary and "
            "antiderivative) and sums of the solutions for individual sources vs the joint solution; source-free problems vs zero; "
            "non-trivial = at least two sources present or scale factor differs from one")
    quick = 3000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), max_work=100)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", thermal="any", nquads=(2, 4, 6, 8), layers=(1, 12), max_work=80)
        c = gen.problems(thermal="yes", bcs="any", nquads=(2, 4, 6), layers=(1, 4))
        e = st.one_of(st.sampled_from([-8, -3, 1, 4, 8]), fl(-8, 8))
        return st.one_of(
            case_of(spec=st.one_of(a, c), e=e, fr=fracs(3), phi=fl(0, 6.3), nt=st.just(False)),
            case_of(spec=b, e=e, fr=fracs(3), phi=fl(0, 6.3), nt=st.just(True)),
        )

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        kw = {"NT_cor": True} if nt else {}
        t = core.taus(p, case["fr"], 6)
        phi = np.array([case["phi"], p.phi0 + 0.3])
        s = Sol(p, **kw)
        o = all_outputs(s, t, phi)
        oa = all_outputs(s, t, phi, anti=True)
        sa = sum(np.max(np.abs(v)) for v in oa.values())
        # common factor
        c = float(10.0 ** case["e"])
        kc = dict(kw)
        if p.beam:
            kc["I0"] = p.I0 * c
        for k, key in (("bpos", "b_pos"), ("bneg", "b_neg")):
            kc[key] = p.barg(k) * c
        if p.s is not None:
            kc["s_poly_coeffs"] = p.s * c
        s2 = Sol(p, "pydisort (scaled sources)", **kc)
        o2 = all_outputs(s2, t, phi)
        compare("scaling", {k: v / c for k, v in o2.items()}, o, p, 1e-9 * amp(p), 1e-3 * p.mag)
        oa2 = all_outputs(s2, t, phi, anti=True)
        compare("scaling antiderivative", {k: v / c for k, v in oa2.items()}, oa, p, 1e-9 * amp(p), 1e-3 * (p.mag + sa))
        # superposition
        zero = {"I0": 0, "bpos": {"k": "s", "v": 0}, "bneg": {"k": "s", "v": 0}, "ns": 0}
        parts = []
        if p.beam:
            parts.append(("beam", {"I0": p.I0}))
        for k in ("bpos", "bneg"):
            if np.any(p.bval(k)):
                parts.append((k, {k: p.spec[k]}))
        if p.s is not None:
            parts.append(("thermal", {"ns": p.spec["ns"]}))
        if len(parts) > 1:
            tot, tota = None, None
            for name, over in parts:
                q = sub(p, **dict(zero, **over))
                sq = Sol(q, "pydisort (%s only)" % name, **(kw if name == "beam" else {}))
                x, xa = all_outputs(sq, t, phi), all_outputs(sq, t, phi, anti=True)
                tot = x if tot is None else {k: tot[k] + x[k] for k in tot}
                tota = xa if tota is None else {k: tota[k] + xa[k] for k in tota}
            compare("superposition", tot, o, p, 1e-8 * amp(p), 1e-3 * p.mag)
            compare("superposition antiderivative", tota, oa, p, 1e-8 * amp(p), 1e-3 * (p.mag + sa))
        if case["e"] <= 0:
            q = sub(p, **zero)
            for extra in ({}, {"s_poly_coeffs": np.zeros((p.NLayers, 2))}):
                x = all_outputs(Sol(q, "pydisort (no source)", **extra), t, phi)
                for k, v in x.items():
                    close("no source:%s" % k, v, np.zeros(v.shape), 1e-12, 1.0)
        return len(parts) > 1 or c != 1


class C08(Prop):
    rule = ("random problem with some layers replaced by 2-8 sub-layers (equal or random fractions, so that totals cross the banded-solver "
            "threshold); all outputs at common depths vs the original; non-trivial = a scattering or emitting layer was split")
    quick = 3000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 13), max_work=60)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 9), max_work=48)
        sp = st.lists(st.tuples(st.integers(0, 20), st.lists(fl(0.05, 1.0), min_size=2, max_size=8)), min_size=1, max_size=4)
        return st.one_of(
            case_of(spec=a, split=sp, fr=fracs(3), phi=fl(0, 6.3), nt=st.just(False)),
            case_of(spec=b, split=sp, fr=fracs(3), phi=fl(0, 6.3), nt=st.just(True)),
        )

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        kw = {"NT_cor": True} if nt else {}
        parts = {}
        for l, w in case["split"]:
            parts[int(l) % p.NLayers] = np.asarray(w, dtype=float) / np.sum(w)
        layers, tau = [], []
        for l in range(p.NLayers):
            lay = p.spec["layers"][l]
            if l in parts and p.th[l] > 1e-5:
                for c in np.cumsum(parts[l])[:-1]:
                    layers.append(dict(lay))
                    tau.append(float(p.tau0[l] + c * p.th[l]))
            layers.append(dict(lay))
            tau.append(float(p.tau[l]))
        q = sub(p, layers=layers, tau=tau)
        cuts = np.array(sorted(set(tau) - set(p.tau.tolist())))[:4]
        t = np.concatenate((core.taus(p, case["fr"], 6), cuts))
        phi = np.array([case["phi"], p.phi0 + 0.3])
        a = all_outputs(Sol(p, **kw), t, phi)
        b = all_outputs(Sol(q, "pydisort (split layers)", **kw), t, phi)
        compare("split" + (" corrected" if nt else ""), b, a, p, 1e-8 * amp(p), 1e-3 * p.mag)
        return len(layers) > p.NLayers and bool(any(p.om[l] > 0 for l in parts) or p.s is not None)


class C09(Prop):
    rule = ("random stack of 2-25 layers solved with banded-solver thresholds 3, n-1, n, n+1 (>= 3), the default and a huge one, "
            "all outputs in ordinary and antiderivative mode compared; non-trivial = at least 3 layers (both solvers exercised)")
    quick = 2500
    thorough = 50000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(2, 25), max_work=120)
        b = gen.problems(nquads=(2, 4, 6), layers=(3, 13), bdrf="yes", bcs="any")
        c = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6), layers=(3, 12))
        return st.one_of(case_of(spec=st.one_of(a, b), fr=fracs(4), phi=fl(0, 6.3), nt=st.just(False)),
                         case_of(spec=c, fr=fracs(4), phi=fl(0, 6.3), nt=st.just(True)))

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        n = p.NLayers
        kw = {"NT_cor": True} if nt else {}
        t = core.taus(p, case["fr"], 10)
        phi = np.array([case["phi"], p.phi0 + 0.3])
        base = Sol(p, use_banded_solver_NLayers=10**6, **kw)
        a, aa = all_outputs(base, t, phi), all_outputs(base, t, phi, anti=True)
        sa = sum(np.max(np.abs(v)) for v in aa.values())
        for thr in sorted({3, max(3, n - 1), max(3, n), n + 1, 10}):
            s = Sol(p, "pydisort (threshold %d)" % thr, use_banded_solver_NLayers=thr, **kw)
            compare("threshold", all_outputs(s, t, phi), a, p, 1e-8 * amp(p), 1e-3 * p.mag)
            if thr <= n:
                compare("threshold antiderivative", all_outputs(s, t, phi, anti=True), aa, p, 1e-8 * amp(p), 1e-3 * (p.mag + sa))
        o = Sol(p, use_banded_solver_NLayers=3, **only_flux_kw(p))
        compare("threshold only_flux", all_outputs(o, t, phi), a, p, 1e-8 * amp(p), 1e-3 * p.mag)
        return n >= 3


class C10(Prop):
    rule = ("random problem; fluxes-only, fewer Fourier modes, autograd flag and corrections vs the plain solution on all outputs and both "
            "modes; dropped modes checked harmonic by harmonic; non-trivial = more than one Fourier mode")
    quick = 2000
    thorough = 40000

    def strategy(self):
        a = gen.problems(ag=False, nquads=(2, 4, 6, 8, 12), max_work=80)
        b = gen.problems(ag=False, beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 11), max_work=60)
        c = gen.problems(ag=False, thermal="yes", nquads=(2, 4, 6, 8), layers=(1, 12), max_work=60)
        return case_of(spec=st.one_of(a, b, c), k=st.integers(1, 40), fr=fracs(4), phi=fl(-7, 13), nt=st.booleans())

    def check(self, case):
        nt = case["nt"] and case["spec"]["I0"] > 0
        p = prep(case, nt=nt)
        t = core.taus(p, case["fr"], 8)
        phi = np.array([case["phi"], p.phi0 + 0.3])
        s = Sol(p)
        a, aa = all_outputs(s, t, phi), all_outputs(s, t, phi, anti=True)
        sa = sum(np.max(np.abs(v)) for v in aa.values())
        tol = 1e-9 * amp(p)

        def same(tag, q, keys=None):
            compare(tag, all_outputs(q, t, phi), a, p, tol, 1e-3 * p.mag, keys=keys)
            compare(tag + " antiderivative", all_outputs(q, t, phi, anti=True), aa, p, tol, 1e-3 * (p.mag + sa), keys=keys)

        flux = ["Fp", "Fm diffuse", "Fm direct", "u0", "actinic up", "actinic down"]
        same("only_flux", Sol(p, **only_flux_kw(p)))
        # the intensity cannot be requested, and corrections are ignored
        if nt:
            same("only_flux NT", Sol(p, **dict(only_flux_kw(p), NT_cor=True)))
        same("autograd flag", Sol(p, autograd_compatible=True))
        same("autograd only_flux", Sol(p, **dict(only_flux_kw(p), autograd_compatible=True)))
        sn = None
        if nt:
            sn = Sol(p, NT_cor=True)
            same("NT fluxes", sn, keys=flux)
            sg = Sol(p, NT_cor=True, autograd_compatible=True)
            compare("autograd NT", all_outputs(sg, t, phi), all_outputs(sn, t, phi), p, tol, 1e-3 * p.mag)
            compare("autograd NT antiderivative", all_outputs(sg, t, phi, anti=True), all_outputs(sn, t, phi, anti=True), p, tol, 1e-3 * (p.mag + sa))
        # fewer Fourier modes
        if p.NF > 1:
            k = 1 + case["k"] % (p.NF - 1)
            over = {"NFourier": k}
            for kk, key in (("bpos", "b_pos"), ("bneg", "b_neg")):
                if (p.spec.get(kk) or {}).get("k") == "m":
                    over[key] = p.bval(kk)[:, :k].copy()
            q = Sol(p, "pydisort (fewer modes)", **over)
            same("fewer modes", q, keys=flux)
            for anti in (False, True):
                M = s.modes(t, anti)
                c = np.cos(np.outer(np.arange(k), p.phi0 - phi))
                want = np.einsum("mqt,mk->tqk", M[:k], c)
                got = np.moveaxis(q.u(t, phi, anti), 1, 0)
                compare("fewer modes" + (" antiderivative" if anti else ""), {"u": got}, {"u": want}, p, 1e-9 * amp(p),
                        1e-3 * p.mag + np.max(np.abs(M)) + (sa if anti else 0))
                if nt:
                    qn = Sol(p, "pydisort (fewer modes, NT)", NT_cor=True, **over)
                    d = np.moveaxis(qn.u(t, phi, anti), 1, 0) - got
                    d0 = np.moveaxis(sn.u(t, phi, anti) - s.u(t, phi, anti), 1, 0)
                    compare("fewer modes NT", {"u": d}, {"u": d0}, p, tol, 1e-2 * p.mag + np.max(np.abs(M)) + (sa if anti else 0))
        return p.NF > 1


class C11(Prop):
    rule = ("random delta-M problem vs the explicitly scaled problem solved without delta-M (depths mapped); explicit zero fractions vs "
            "default; non-trivial = some layer has omega*f > 0")
    quick = 5000
    thorough = 100000

    def strategy(self):
        a = gen.problems(deltaM="yes", nquads=(2, 4, 6, 8, 12, 16), layers=(1, 13), max_work=100)
        b = gen.problems(deltaM="yes", thermal="yes", nquads=(2, 4, 6), layers=(1, 6))
        c = gen.problems(deltaM="any", nquads=(2, 4, 6, 8), layers=(1, 4))
        return case_of(spec=st.one_of(a, b, c), fr=fracs(6), phi=fl(-7, 13))

    def check(self, case):
        p = prep(case)
        t = core.subset(p, core.taus(p, case["fr"], 10), case["fr"])
        phi = np.array([case["phi"], p.phi0 + 0.3])
        s = Sol(p)
        a = all_outputs(s, t, phi)
        if not np.any(p.f > 0):
            b = all_outputs(Sol(p, f_arr=np.zeros(p.NLayers)), t, phi)
            compare("f zero", b, a, p, 1e-12, 1e-9 * p.mag)
            b = all_outputs(Sol(p, f_arr=0), t, phi)
            compare("f zero", b, a, p, 1e-12, 1e-9 * p.mag)
            return False
        over = dict(tau_arr=p.tau_s0[1:].copy(), omega_arr=p.om_s.copy(), Leg_coeffs_all=p.g_s.copy(), f_arr=0)
        if p.s is not None:
            over["s_poly_coeffs"] = np.array([shifted(p.s[l], 1 / p.scale[l], p.tau0[l] - p.tau_s0[l] / p.scale[l]) for l in range(p.NLayers)])
        q = Sol(p, "pydisort (explicitly scaled)", **over)
        ts = np.minimum(p.scaled(t), p.tau_s0[-1])
        b = all_outputs(q, ts, phi)
        for x in (a, b):
            x["F down total"] = x["Fm diffuse"] + x["Fm direct"]
            x["A down total"] = x["actinic down"]
        if p.beam:
            a["A down total"] = a["A down total"] + p.I0 * np.exp(-t / p.mu0)
            b["A down total"] = b["A down total"] + p.I0 * np.exp(-ts / p.mu0)
        compare("scaled problem", a, b, p, 1e-8 * amp(p), 1e-3 * p.mag, keys=["u", "u0", "Fp", "F down total", "actinic up", "A down total"])
        return bool(np.any(p.om * p.f > 0))


def shifted(c, a, b):
    """Coefficients of x -> poly(a x + b), by Horner on polynomials (independent of the code under test)."""
    out = np.zeros(len(c))
    for ck in c[::-1]:
        new = out * b
        new[1:] += out[:-1] * a
        new[0] += ck
        out = new
    return out


class C12(Prop):
    rule = ("random beam problem with corrections enabled; corrected minus uncorrected intensity at all angles, random depths and azimuths vs "
            "closed-form per-layer single-scattering integrals and numerically integrated secondary-scattering term; cases where "
            "corrections are disabled vs plain; non-trivial = corrections active")
    quick = 5000
    thorough = 100000

    def strategy(self):
        a = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8, 12, 16), layers=(1, 13), max_work=100)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6), layers=(2, 5), kinds=["hg", "hgp", "mix"])
        c = gen.problems(deltaM="any", extra="any", nquads=(2, 4, 6), layers=(1, 4))
        return case_of(spec=st.one_of(a, a, b, b, c), fr=fracs(6), phi=st.lists(fl(-7, 13), min_size=1, max_size=3), ag=st.sampled_from([False, False, False, True]),
                       near=nears())

    def check(self, case):
        p = prep(case, nt=True)
        p = near_angle(p, case["near"])
        t = core.subset(p, core.taus(p, case["fr"], 10), case["fr"])
        phi = np.array(case["phi"] + [p.phi0])
        s0, s1 = Sol(p), Sol(p, NT_cor=True, **({"autograd_compatible": True} if case["ag"] else {}))
        u0, u1 = s0.u(t, phi), s1.u(t, phi)
        on = p.beam and p.NLeg < p.NLeg_all and bool(np.any(p.om * p.f > 0))
        if on:
            cor = p.tms(t, phi)
            cor[p.N:] += p.ims(t, phi)
            pk = np.max(np.abs(cor))
            near = 1 + 1e-5 / min(np.min(np.abs(1 / p.mup - 1 / p.mu0)), 1)
            close("corrections", u1 - u0, cor, 1e-8 * near, 0.1 * pk + 1e-2 * p.mag + np.max(np.abs(u0)))
            # single depth and azimuth
            j, k = len(t) // 2, len(phi) - 1
            v = s1.u(t[[j]], phi[[k]])[:, 0, 0]
            close("corrections:scalar call", v, u1[:, j, k], 1e-10, np.max(np.abs(u1)) + 1e-2 * p.mag)
        else:
            close("corrections:disabled", u1, u0, 1e-12, np.max(np.abs(u0)) + 1e-290)
        return on


class C13(Prop):
    rule = ("random problem; joint rotation of beam and view, 2 pi periodicity, mirror symmetry about the principal plane, azimuth "
            "independence for vertical or absent beams, independence of fluxes from the beam azimuth; non-trivial = inclined beam with "
            "several modes or the azimuth-independent configuration")
    quick = 4500
    thorough = 90000

    def strategy(self):
        a = gen.problems(beam="yes", nquads=(2, 4, 6, 8, 12), max_work=100)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 6))
        v = gen.problems(beam="yes", mu0s=st.just(1.0), nquads=(2, 4, 6, 8), layers=(1, 6))
        n = gen.problems(beam="no", nquads=(2, 4, 6, 8), layers=(1, 6))
        return case_of(spec=st.one_of(a, b, v, n), d=fl(0, 6.283), phi=st.lists(st.one_of(fl(-7, 13), fl(-7, 13), fl(-300, 300)), min_size=1, max_size=3), fr=fracs(3), nt=st.booleans())

    def check(self, case):
        spec = case["spec"]
        sym = spec["I0"] == 0 or spec["mu0"] == 1.0
        if sym:
            spec = dict(spec, bdrf=spec["bdrf"][:1])
            for k in ("bpos", "bneg"):
                if spec[k]["k"] == "m":
                    spec[k] = {"k": "v", "v": spec[k]["v"][0]}
        nt = case["nt"] and spec["I0"] > 0
        p = prep({"spec": spec}, nt=nt, nudge=not sym)
        kw = {"NT_cor": True} if nt else {}
        t = core.taus(p, case["fr"], 6)
        phi = np.array(case["phi"])
        s = Sol(p, **kw)
        U = s.u(t, phi)
        g = np.max(np.abs(U)) + 1e-2 * p.mag
        nf = 1 + p.NLeg_all  # phases are multiplied by up to the number of coefficients
        tol = 1e-11 * nf * amp(p) * (1 + np.max(np.abs(phi)) / 30)
        close("azimuth:period", s.u(t, phi + 2 * np.pi), U, tol, g)
        close("azimuth:period", s.u(t, phi - 2 * np.pi), U, tol, g)
        close("azimuth:mirror", s.u(t, 2 * p.phi0 - phi), U, tol, g)
        if p.beam:
            d = case["d"]
            new = float(np.mod(p.phi0 + d, 2 * np.pi))
            if new >= 2 * np.pi:
                new = 0.0
            q = Sol(p, "pydisort (rotated beam)", phi0=new, **kw)
            close("azimuth:rotation", q.u(t, phi + (new - p.phi0)), U, tol, g)
            close("azimuth:rotation", q.u(t, phi + d), U, tol, g)
            a, b = all_outputs(s, t, phi), all_outputs(q, t, phi)
            compare("azimuth fluxes", b, a, p, 1e-12, 1e-2 * p.mag, keys=["Fp", "Fm diffuse", "Fm direct", "u0", "actinic up", "actinic down"])
        if p.spec["I0"] == 0 or p.mu0 == 1.0:
            if sym:
                V = s.u(t, np.array([0.0, 1.0, 2.5, 4.0]))
                close("azimuth:independent", V, V[:, :, :1] + 0 * V, 1e-9 * amp(p), np.max(np.abs(V)) + 1e-2 * p.mag)
        return bool(sym or p.NF > 1)
