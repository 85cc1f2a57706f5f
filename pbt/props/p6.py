import copy
import warnings
import numpy as np
from .base import *
from .p1 import all_outputs
from .p2 import only_flux_kw, compare


def hfunction(N, om):
    """Chandrasekhar's H function of isotropic scattering: values at the N half-range Gauss nodes and a callable.

    In the discrete-ordinate problem the H equation holds exactly with the integral replaced by the quadrature."""
    mu, w = ref.half_gauss(N)
    r = np.sqrt(1 - om)
    H = np.ones(N)
    K = (om / 2) * (w * mu)[None, :] / (mu[:, None] + mu[None, :])
    for _ in range(200):  # Newton on G(H) = 1/H - r - K H
        G = 1 / H - r - K @ H
        if np.max(np.abs(G)) < 1e-15:
            break
        J = -np.diag(1 / H**2) - K
        step = np.linalg.solve(J, -G)
        s = 1.0
        while np.any(H + s * step <= 0):
            s *= 0.5
        H = H + s * step

    def h(x):
        x = np.atleast_1d(np.asarray(x, dtype=float))
        return 1 / (r + (om / 2) * ((w * mu)[None, :] / (x[:, None] + mu[None, :])) @ H)

    return mu, w, H, h


# ------------------------------------------------------------------------------------------------- C28
class C28(Prop):
    rule = ("(a) semi-infinite isotropically scattering atmospheres in random layerings and delta-M disguises, lit by a beam, diffuse light, "
            "constant or linear thermal emission: emergent intensity and fluxes vs Chandrasekhar's H function; (b) random smooth problems with many streams vs "
            "about twice as many: fluxes agree to discretisation accuracy; non-trivial = scattering present")
    quick = 3000
    thorough = 60000

    def strategy(self):
        om = st.one_of(st.sampled_from([0.5, 0.9, 0.99]), fl(0.01, 0.99), fl(2, 6).map(lambda e: float(1 - 10.0**-e)))
        a = case_of(kind=st.just("H"), N=st.sampled_from([1, 2, 2, 3, 4, 4, 5, 6, 8, 10, 16, 24]), om=om, NLeg=st.sampled_from([None, 1]),
                    f=st.lists(st.one_of(st.just(0.0), fl(0, 0.7)), min_size=1, max_size=6), g=fl(-0.5, 0.8),
                    cut=st.lists(logu(-3, 1), min_size=0, max_size=11), mu0=st.one_of(st.sampled_from([0.6, 1.0]), fl(0.02, 1)), I0=logu(-2, 2),
                    src=st.lists(st.sampled_from(["beam", "diffuse", "therm", "linear"]), min_size=1, max_size=3),
                    B=fl(0.1, 2), B1=fl(0, 1), d=fl(0.1, 2), R=st.one_of(st.none(), fl(0, 0.9)), bp=fl(0, 2), phi0=fl(0, 6.28),
                    phi=st.lists(fl(-7, 7), min_size=1, max_size=2), NF=st.sampled_from([None, 1]))
        b = case_of(kind=st.just("N"), spec=gen.problems(nquads=(2,), layers=(1, 4), trunc="no", bcs="scalar", extra="no", deltaM="no", cons=False, max_ns=3,
                                                          kinds=["iso", "hg", "ray"], ag=False, mu0s=st.one_of(st.just(0.6), fl(0.2, 1.0)), thick="moderate"), fr=fracs(3))
        return st.one_of(a, a, a, b)

    def check(self, case):
        return self.semi_infinite(case) if case["kind"] == "H" else self.resolution(case)

    def semi_infinite(self, case):
        N, om = case["N"], case["om"]
        mu, w, H, h = hfunction(N, om)
        NQ = 2 * N
        # smallest eigenvalue of the discrete problem
        A = (np.eye(N) - om * w[None, :]) / (mu[:, None] * mu[None, :])
        k = np.sqrt(np.min(np.real(np.linalg.eigvals(A))))
        total = 40 / k
        cut = sorted({min(c * 0.07 * total, 0.9 * total) for c in case["cut"]})
        bounds = np.array([0.0] + cut + [total])
        thick = np.diff(bounds)
        thick = thick[thick > 1e-9 * total]
        n = len(thick)
        # layers that differ in albedo and delta-M fraction but are identical after scaling
        f = np.resize(np.array(case["f"]), n) if case["NLeg"] == 1 else np.zeros(n)
        omt = om / (1 - f + om * f)
        scale = 1 - omt * f
        g = case["g"] if case["NLeg"] == 1 else 0.0
        leg = np.tile(g ** np.arange(NQ), (n, 1))
        tau = np.cumsum(thick / scale)
        stau = np.cumsum(thick)
        kw = {}
        if case["NLeg"]:
            kw["NLeg"] = 1
            kw["NFourier"] = 1
        elif case["NF"]:
            kw["NFourier"] = 1
        if np.any(f > 0):
            kw["f_arr"] = f
        beam = "beam" in case["src"]
        mu0 = case["mu0"]
        if beam:
            ks = np.sqrt(np.real(np.linalg.eigvals(A)))
            for _ in range(60):
                if np.min(np.abs(ks * mu0 - 1)) > 1e-4:
                    break
                mu0 = mu0 * 0.993 if mu0 > 0.1 else mu0 * 1.017
        I0 = case["I0"] if beam else 0
        if case["R"] is not None:
            kw["BDRF_Fourier_modes"] = [case["R"]]
        kw["b_pos"] = case["bp"]  # hidden below the atmosphere
        B = case["B"] if ("therm" in case["src"] or "linear" in case["src"]) else 0.0
        B1 = case["B1"] if "linear" in case["src"] else 0.0
        if B or B1:
            # linear in the scaled depth
            t0 = np.concatenate(([0.0], tau[:-1]))
            s0 = np.concatenate(([0.0], stau[:-1]))
            s = np.stack((B + B1 * (s0 - scale * t0), B1 * scale), axis=1)
            kw["s_poly_coeffs"] = s if B1 else s[:, :1]
        d = case["d"] if "diffuse" in case["src"] else 0.0
        if d:
            kw["b_neg"] = d
        out = call("pydisort", pydisort, tau, omt, NQ, leg, mu0 if beam else 0, I0, case["phi0"] if beam else 0, **kw)
        r = np.sqrt(1 - om)
        alpha1 = float(np.sum(w * mu * H))
        want = d * (1 - r * H) + r * H * (B + B1 * mu) + 0.5 * om * B1 * alpha1 * H
        alb = 0.0
        if beam:
            h0 = float(h(mu0)[0])
            want = want + om * I0 / (4 * np.pi) * mu0 / (mu + mu0) * H * h0
            alb = mu0 * I0 * (1 - r * h0)
        flux = 2 * np.pi * float(np.sum(w * mu * (want - (om * I0 / (4 * np.pi) * mu0 / (mu + mu0) * H * h0 if beam else 0)))) + alb
        # conditioning: deep emission and near-conservative eigenvalues
        mag = d + B + B1 * (1 / k + total * 1e-3) + case["bp"] + (I0 * (1 + 1 / np.min(np.abs(ks * mu0 - 1)) * 1e-2) if beam else 0)
        tol = 1e-8 * (1 + 1e-7 / k**2 / mu[0] ** 2)
        sc = np.max(np.abs(want)) + 1e-2 * mag
        u0 = arr(np.asarray(call("u0", out[3], 0.0)), "u0", (NQ,))
        close("H function:emergent intensity", u0[:N], want, tol, sc)
        close("H function:top illumination", u0[N:], np.full(N, d), tol, sc)
        close("H function:reflected flux", arr(np.atleast_1d(call("Fp", out[1], 0.0)), "Fp", (1,)), np.array([flux]), tol, 2 * np.pi * sc)
        phi = np.array(case["phi"])
        u = arr(np.asarray(call("u", out[4], 0.0, phi)), "u", (NQ, len(phi)) if len(phi) > 1 else (NQ,)).reshape(NQ, -1)
        close("H function:intensity", u[:N], np.repeat(want[:, None], len(phi), axis=1), tol, sc)
        return True

    def resolution(self, case):
        res = []
        for nq in (20, 36):
            spec = dict(case["spec"], NQuad=nq)
            spec["layers"] = [dict(l, ph=dict(l["ph"], g=max(-0.5, min(0.5, l["ph"]["g"]))) if "g" in l["ph"] else l["ph"]) for l in spec["layers"]]
            spec, kmin, kmax, dist = gen.normalise(spec, nudge=False)
            p = ref.Problem(spec)
            if dist < 1e-4:
                return False
            s = Sol(p, only_flux=True)
            t = core.taus(p, case["fr"])
            res.append((s.Fp(t), s.Fm(t)[0], s.Fm(t)[1], p))
        p = res[1][3]
        m = np.pi * (np.max(p.bval("bpos")) + np.max(p.bval("bneg"))) + (p.mu0 * p.I0 if p.beam else 0)
        if p.s is not None:
            m += 4 * np.pi * np.max(np.abs(p.s) @ np.ones(p.s.shape[1]))
        for i, name in enumerate(("Fp", "Fm diffuse", "Fm direct")):
            close("resolution:" + name, res[0][i], res[1][i], 2e-3, m + np.max(np.abs(res[1][i])))
        return bool(np.any(p.om > 1e-6))


# ------------------------------------------------------------------------------------------------- C29
import sys
import threading


class C29(Prop):
    rule = ("2-4 different problems solved and evaluated at the same time by 2-6 threads, some threads sharing one solution and its input arrays, with "
            "thread switches forced every few microseconds; every value must equal the one computed alone beforehand; non-trivial = at least two threads")
    quick = 500
    thorough = 8000
    rounds = 2

    def strategy(self):
        spec = st.one_of(
            case_of(spec=gen.problems(nquads=(2, 4, 6), layers=(1, 6), max_work=30), nt=st.just(False)),
            case_of(spec=gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(4, 6), layers=(1, 5), max_work=30), nt=st.just(True)),
        )
        depth = st.lists(fl(0, 1), min_size=1, max_size=5)
        job = st.fixed_dictionaries({"p": st.integers(0, 3), "own": st.booleans(), "d": depth, "phi": st.lists(fl(-7, 7), min_size=1, max_size=3), "anti": st.booleans()})
        return case_of(probs=st.lists(spec, min_size=1, max_size=4), jobs=st.lists(job, min_size=2, max_size=6), ag=st.sampled_from([False, False, True]))

    def work(self, s, p, job, kw):
        if job["own"] or s is None:
            s = Sol(p, **kw)
        t = np.array(job["d"]) * p.tau[-1]
        phi = np.array(job["phi"])
        a = job["anti"]
        out = [("Fp", s.Fp(t, a)), ("Fm diffuse", s.Fm(t, a)[0]), ("Fm direct", s.Fm(t, a)[1]), ("u0", s.u0(t, a)), ("actinic up", s.Ap(t, a)), ("actinic down", s.Am(t, a))]
        if s.u_ is not None:
            out.append(("u", s.u(t, phi, a)))
            f = call("interpolate", sub.interpolate, s.u_)
            out.append(("interpolated u", arr(np.asarray(call("interpolated u", f, np.array([0.37, -0.81]), t, phi, is_antiderivative_wrt_tau=a)), "interpolated u")))
        return out

    def check(self, case):
        P = []
        for pr in case["probs"]:
            p = prep(pr, nt=pr["nt"])
            kw = {"NT_cor": True} if pr["nt"] else {}
            if case["ag"]:
                kw["autograd_compatible"] = True
            P.append((p, dict(core.kwargs_of(p), **kw)))
        shared = [Sol(p, **kw) for p, kw in P]
        jobs = [(dict(j, p=j["p"] % len(P))) for j in case["jobs"]]
        alone = [self.work(shared[j["p"]], P[j["p"]][0], j, P[j["p"]][1]) for j in jobs]
        old = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)
        try:
            for _ in range(self.rounds):
                got = [None] * len(jobs)
                bar = threading.Barrier(len(jobs))

                def run(i):
                    j = jobs[i]
                    try:
                        bar.wait(60)
                        got[i] = self.work(shared[j["p"]], P[j["p"]][0], j, P[j["p"]][1])
                    except BaseException as e:  # noqa: BLE001
                        got[i] = e
                ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(jobs))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(120)
                for i, g in enumerate(got):
                    if isinstance(g, Violation):
                        raise Violation("with other threads running: %s" % g)
                    if isinstance(g, BaseException):
                        raise g
                    if g is None:
                        raise RuntimeError("a thread did not finish")
                    mag = P[jobs[i]["p"]][0].mag
                    for (name, x), (_, y) in zip(g, alone[i]):
                        if x.shape != y.shape:
                            raise Violation("%s has shape %s with other threads running, %s alone" % (name, x.shape, y.shape))
                        close("concurrent:" + name, x, y, 1e-9, np.max(np.abs(y)) + 1e-3 * mag)
        finally:
            sys.setswitchinterval(old)
        return True


# ------------------------------------------------------------------------------------------------- C30
import contextlib
import io
import re


class C30(Prop):
    rule = ("random stored results (with zeros) and computed fields that differ from them at random points, angle orders and masks; every returned "
            "difference and ratio recomputed entry by entry, printed maxima compared; non-trivial = all")
    quick = 3000
    thorough = 30000

    def strategy(self):
        return case_of(N=st.integers(1, 6), nt=st.integers(1, 5), nphi=st.integers(1, 4), seed=st.integers(0, 10**6), zero=fl(0, 0.5), span=st.one_of(st.just(0.0), fl(0, 12)), size=logu(-6, 1),
                       where=fl(0, 1), mask=fl(0, 0.6), u=st.booleans(), layout=st.sampled_from(["full", "squeezed"]))

    def check(self, case):
        rs = np.random.RandomState(case["seed"])
        NQ, nt, nphi = 2 * case["N"], case["nt"], case["nphi"]

        def stored(*shape):
            x = rs.uniform(0.1, 3, shape) * 10.0 ** rs.uniform(-case["span"], case["span"], shape)
            x[rs.uniform(size=shape) < case["zero"]] = 0
            return x

        def near(x):
            return x + case["size"] * rs.normal(size=x.shape) * np.where(x > 0, x, 1) * (rs.uniform(size=x.shape) < case["where"])
        tau = np.sort(rs.uniform(0, 5, nt))
        phi = rs.uniform(0, 6, nphi)
        res = {k: stored(nt) for k in ("flup", "rfldn", "rfldir")}
        res["tau_test_arr"], res["phi_arr"] = tau, phi
        order = rs.permutation(NQ)
        uu = stored(NQ, nt, nphi)
        res["uu"] = uu
        fl_ = {k: near(res[k]) for k in ("flup", "rfldn", "rfldir")}
        mine = near(uu)  # in the stored order of angles
        native = np.empty_like(mine)
        native[order] = mine
        mask = rs.uniform(size=NQ) >= case["mask"]
        mask[rs.randint(NQ)] = True

        def pick(t, table):
            t = np.atleast_1d(t)
            i = [int(np.argmin(np.abs(tau - x))) for x in t]
            if not np.allclose(tau[i], t):
                raise Violation("the computed fields are evaluated at depths other than the stored ones")
            return table[..., i] if table.ndim == 1 else table[:, i]

        def u(t, p):
            if not np.allclose(np.atleast_1d(p), phi):
                raise Violation("the computed intensity is evaluated at azimuths other than the stored ones")
            out = pick(t, native)
            return out if case["layout"] == "full" else np.squeeze(out)[()]
        keep = {k: v.copy() for k, v in res.items()}
        txt = io.StringIO()
        with contextlib.redirect_stdout(txt):
            out = call("_compare", sub._compare, res, mask, order, lambda t: pick(t, fl_["flup"]), lambda t: (pick(t, fl_["rfldn"]), pick(t, fl_["rfldir"])),
                       *((u,) if case["u"] else ()))
        n = 8 if case["u"] else 6
        if not isinstance(out, tuple) or len(out) != n:
            raise Violation("_compare did not return %d arrays" % n)
        want, top = [], []
        for k in ("flup", "rfldn", "rfldir"):
            d = np.array([abs(res[k][i] - fl_[k][i]) for i in range(nt)])
            r = np.array([d[i] / res[k][i] if res[k][i] != 0 else 0.0 for i in range(nt)])
            want += [d, r]
            top += [d.max(), r.max()]
        if case["u"]:
            d = np.abs(uu - mine)[mask]
            r = np.where(uu[mask] != 0, d / np.where(uu[mask] != 0, uu[mask], 1), 0.0)
            want += [d, r]
            top += [d.max(), r.max()]
        for i, (g, w_) in enumerate(zip(out, want)):
            close("comparison", arr(np.asarray(g), "comparison result %d" % i, w_.shape), w_, 1e-12, 1e-14 + np.abs(w_))
        for k in res:
            if not np.array_equal(res[k], keep[k]):
                raise Violation("_compare modified the stored results")
        said = [float(x) for x in re.findall(r"(?:ifference|ratio) = ([-+0-9.einfa]+)", txt.getvalue())]
        if len(said) == len(top) and not np.allclose(said, top, rtol=1e-9, atol=1e-12):
            raise Violation("printed maxima %s, expected %s" % (said, top))
        return True


# ------------------------------------------------------------------------------------------------- C31
WKIND = ["albedo", "albedo", "coefficient", "coefficient", "zeroth", "modes", "source", "none", "none"]


ComplexWarning = getattr(np, "exceptions", np).ComplexWarning


class C31(Prop):
    rule = ("random problem, half the time with one or two of the questionable settings (delta-scaled albedo near 1, delta-scaled coefficient near +-1, zeroth "
            "coefficient not 1, more than 64 modes, more than 10 source coefficients) placed randomly on either side of their thresholds; a warning (RuntimeWarnings other than ComplexWarning not counted) must be issued if "
            "and only if a condition holds, and the results must be finite; caching of reflectances warns if and only if no beam angle is cached; "
            "non-trivial = a condition within a factor of 10 of its threshold")
    quick = 3000
    thorough = 40000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8), layers=(1, 13), max_work=60, cons=False)
        return case_of(spec=a, kinds=st.lists(st.sampled_from(WKIND), min_size=1, max_size=2), i=st.integers(0, 20), j=st.integers(0, 20), e=st.one_of(fl(4.5, 8.5), fl(5.7, 7.1), fl(5.9, 6.3)), edge=fl(-0.1, 0.04),
                       neg=st.booleans(), of=st.booleans(), n=st.sampled_from([2, 3, 9, 10, 11, 12]), nf=st.sampled_from([63, 64, 65, 66]),
                       mu0=st.sampled_from([0, 0.0, -0.5, 1.5, 1, 1.0, 0.4, 1e-3]), big=st.sampled_from([0, 0, 0, 1]))

    def examples(self, shard, n):
        # many modes are costly and rarely generated
        lay = {"om": 0.3, "ph": {"k": "hg", "g": 0.2}, "th": 0.3}
        spec = {"NQuad": 4, "layers": [lay], "mu0": 0.6, "I0": 1.0, "phi0": 0.5, "bpos": {"k": "s", "v": 0}, "bneg": {"k": "s", "v": 0}, "bdrf": [], "extra": 0, "ns": 0, "thr": 10}
        out = []
        for nf in (63, 64, 65, 66):
            for of in (False, True):
                out.append({"spec": copy.deepcopy(spec), "kinds": ["modes"], "i": 0, "j": nf % 3, "e": 6.0, "edge": 0.0, "neg": False, "of": of, "n": 2, "nf": nf, "mu0": 0.4, "big": 1})
        return out[shard::n]

    def warned(self, f, *a, **k):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                out = f(*a, **k)
            except Exception as e:  # noqa: BLE001
                raise Violation("%s raised %s: %s on valid input" % (getattr(f, "__name__", "call"), type(e).__name__, str(e)[:300]))
        kinds = (UserWarning, ComplexWarning, DeprecationWarning, FutureWarning)
        return out, any(issubclass(w.category, kinds) for w in ws), [str(w.message)[:60] for w in ws]

    def check(self, case):
        spec = copy.deepcopy(case["spec"])
        kinds = case["kinds"]
        lay = spec["layers"][case["i"] % len(spec["layers"])]
        hard = False
        if "albedo" in kinds:
            lay.update(om=float(1 - 10.0 ** -case["e"]), ph={"k": "hg", "g": (0, 0, 0.6, 0.8, 0.9)[case["j"] % 5]}, f="g")
            hard = True
        if "source" in kinds:
            spec["ns"] = case["n"]
            for x in spec["layers"]:
                x["s"] = [1.0 / (1 + k) for k in range(case["n"])]
            hard = True
        if "modes" in kinds and case["big"]:
            spec.update(NQuad=66, NLeg=66, NF=case["nf"], layers=[dict(spec["layers"][0], th=1.0)], bpos={"k": "s", "v": 1.0}, bneg={"k": "s", "v": 0.5}, extra=0)
            hard = True
        spec.pop("ag", None)
        p = prep({"spec": spec})
        kw = core.kwargs_of(p)
        if case["of"]:
            kw.update(only_flux_kw(p))
        g, om, f = p.g.copy(), p.om.copy(), p.f.copy()
        l = case["i"] % p.NLayers
        if "coefficient" in kinds and p.NLeg_all > 1:
            # weakly scattering there, so that any coefficients are admissible
            om[l], f[l] = 0.01, 0.0
            g[l, 1 + case["j"] % (p.NLeg_all - 1)] = (-1 if case["neg"] else 1) * (0.95 + case["edge"])
            hard = True
        zero = False
        if "zeroth" in kinds:
            g[l, 0] = (0.3, 0.999999, 1.5, 1.0)[case["j"] % 4]
            om[l] = (0.0, 1e-6, 0.05)[case["j"] % 3]
            f[l] = 0.0
            zero = om[l] * g[l, 0] != om[l]
            hard = True
        kw.update(omega_arr=om.copy(), Leg_coeffs_all=g.copy(), f_arr=f.copy())
        fixed = g.copy()
        if zero:
            fixed[:, 0] = 1
        scaled = ((fixed[:, :p.NLeg] - f[:, None]) / (1 - f)[:, None])[:, 1:]
        om_s = om * (1 - f) / (1 - om * f)
        close_ = np.any(np.abs(om_s - (1 - 1e-6)) < 1e-12) or np.any(np.abs(np.abs(scaled) - 0.95) < 1e-12)
        if close_:
            return False
        want = {"albedo": bool(np.any(om_s > 1 - 1e-6)), "coefficient": bool(np.any(np.abs(scaled) > 0.95)), "zeroth": bool(zero),
                "modes": p.NF > 64 and not case["of"], "source": p.s is not None and p.s.shape[1] > 10}
        pos = [kw.pop(k) for k in ("tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0")]
        out, got, texts = self.warned(pydisort, *pos, **kw)
        if got != any(want.values()):
            raise Violation("warned: %s %s, expected a warning: %s" % (got, texts, [k for k in want if want[k]]))
        # every such call is reported, not only the first
        kw2 = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        if not want["zeroth"]:
            _, again, texts = self.warned(pydisort, *pos, **kw2)
            if again != got:
                raise Violation("the same call warned %s the first time and %s the second time" % (got, again))
        for k in want:
            if want[k]:
                label("warns:" + k)
        t = np.array([0.0, float(p.tau[-1]) / 2, float(p.tau[-1])])
        y, got, texts = self.warned(out[1], t)
        arr(np.asarray(y), "Fp of a questionable problem", (3,))
        if got and not want["source"]:
            raise Violation("evaluation warned: %s" % texts)
        if want["zeroth"] and not any(want[k] for k in ("albedo", "coefficient", "modes", "source")):
            # the documented correction has been made
            pos[3] = fixed
            y2, got, texts = self.warned(pydisort, *pos, **kw)
            if got:
                raise Violation("warned although all coefficients are in order: %s" % texts)
            close("corrected zeroth coefficient", np.asarray(y), np.asarray(call("Fp", y2[1], t)), 1e-10, np.max(np.abs(y)) + 1e-3 * p.mag)
        m = case["mu0"]
        _, got, texts = self.warned(sub.cache_BDRF_Fourier_modes, p.N, [0.1], *(() if case["j"] == 0 else (m,)))
        if got != (case["j"] == 0 or not 0 < m <= 1):
            raise Violation("cache_BDRF_Fourier_modes(mu0=%s) warned: %s" % (m, got))
        return hard


# ------------------------------------------------------------------------------------------------- C32
IRR = ("beam angle", "phase of layer without scattering", "unused coefficients", "unused reflectances", "zero source coefficients", "zero source", "zero surface",
       "boundary form", "explicit defaults", "zero beam", "zero fractions", "modes without content")


class C32(Prop):
    rule = ("random problem and 1 to 4 changes of inputs that cannot matter (beam direction without a beam; phase function and fraction of a layer without scattering; unused phase "
            "function coefficients and reflectance modes; appended zero source coefficients; equivalent forms of boundary sources, surfaces, fractions and defaults); all outputs "
            "agree with those of the original problem; non-trivial = at least one input was changed")
    quick = 4000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 13), max_work=80)
        b = gen.problems(beam="no", nquads=(2, 4, 6, 8), layers=(1, 11), max_work=60)
        c = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 12), max_work=60)
        return case_of(spec=st.one_of(a, a, b, c), what=st.lists(st.sampled_from(IRR), min_size=1, max_size=4), black=st.integers(0, 255), nt=st.sampled_from([False, False, True]),
                       of=st.sampled_from([False, False, False, True]), x=st.lists(fl(-0.9, 0.9), min_size=1, max_size=4), fr=fracs(3), phi=fl(0, 6.3), n=st.integers(1, 5))

    def check(self, case):
        spec = copy.deepcopy(case["spec"])
        what = case["what"]
        if "phase of layer without scattering" in what:
            for i, lay in enumerate(spec["layers"]):
                if (case["black"] >> (i % 8)) & 1:
                    lay["om"] = 0.0
        nt = case["nt"]
        p = prep({"spec": spec}, nt=nt)
        kw = {}
        if nt:
            kw["NT_cor"] = True
            if not p.beam:
                kw["mu0"] = 0.0
        if case["of"]:
            kw.update(only_flux_kw(p))
        base = dict(core.kwargs_of(p), **kw)
        new = dict(base)
        x = np.array(case["x"])
        L, n = p.NLayers, case["n"]
        done = []
        for w in sorted(set(what), key=IRR.index):
            if w == "beam angle" and not p.beam:
                if not nt:
                    new["mu0"] = abs(float(x[0]))
                if all((p.spec.get(k) or {}).get("k") != "m" for k in ("bpos", "bneg")):  # else it is the origin of azimuths
                    new["phi0"] = float(3 + 3 * x[-1])
            elif w == "phase of layer without scattering" and np.any(p.om == 0):
                g = new["Leg_coeffs_all"].copy()
                r = np.where(p.om == 0)[0]
                g[r, 1:] = np.resize(x, g[r, 1:].shape)
                if case["n"] == 1:
                    g[r, 0] = 0.5
                f = np.zeros(L) + new.get("f_arr", 0)
                f[r] = np.abs(np.resize(x, len(r)))
                new.update(Leg_coeffs_all=g, f_arr=f)
            elif w == "unused coefficients" and not (nt and p.beam and not case["of"] and np.any(p.om * p.f > 0)):
                g = np.concatenate((new["Leg_coeffs_all"][:, :p.NLeg], np.resize(x, (L, n - 1))), axis=1)
                if "NLeg" not in new:
                    new["NLeg"] = p.NLeg
                new["Leg_coeffs_all"] = g
            elif w == "unused reflectances":
                m = list(new.get("BDRF_Fourier_modes", []))
                nf = 1 if case["of"] else p.NF
                m = m[:nf] + [0.0] * (nf - len(m))
                new["BDRF_Fourier_modes"] = m + [float(x[0]), lambda mu, mup: np.full((len(mu), len(mup)), float(x[-1]))]
            elif w == "zero source coefficients" and p.s is not None:
                new["s_poly_coeffs"] = np.concatenate((new["s_poly_coeffs"], np.zeros((L, min(n, 10 - p.s.shape[1])))), axis=1)
            elif w == "zero source" and p.s is None:
                new["s_poly_coeffs"] = np.zeros((L, n))
            elif w == "zero surface" and not new.get("BDRF_Fourier_modes"):
                new["BDRF_Fourier_modes"] = [0.0, 0, lambda mu, mup: np.zeros((len(mu), len(mup)))][:n]
            elif w == "boundary form":
                for k in ("b_pos", "b_neg"):
                    b = new.get(k, 0)
                    nf = 1 if case["of"] else p.NF
                    if np.ndim(b) == 0 and n % 2:
                        new[k] = np.full(p.N, float(b))
                    elif np.ndim(b) < 2:
                        new[k] = np.concatenate((np.zeros(p.N)[:, None] + np.reshape(b, (-1, 1)), np.zeros((p.N, nf - 1))), axis=1)
                    else:
                        continue
            elif w == "explicit defaults":
                for k, v in (("NLeg", p.NLeg), ("NFourier", p.NF), ("use_banded_solver_NLayers", 10), ("autograd_compatible", False), ("only_flux", False), ("NT_cor", False),
                             ("b_pos", 0), ("b_neg", 0), ("f_arr", 0), ("BDRF_Fourier_modes", []), ("s_poly_coeffs", np.array([[]]))):
                    new.setdefault(k, v)
            elif w == "modes without content" and not case["of"] and p.NF < p.NLeg and p.NF == 1 and np.all(p.om * (p.f + np.abs(p.g[:, 1:p.NLeg]).max(axis=1, initial=0)) == 0):
                new["NFourier"] = p.NLeg
                for k in ("b_pos", "b_neg"):
                    if np.ndim(new.get(k, 0)) == 2:
                        new[k] = np.concatenate((new[k], np.zeros((p.N, p.NLeg - 1))), axis=1)
                if len(new.get("BDRF_Fourier_modes", [])) > 1:
                    new["BDRF_Fourier_modes"] = new["BDRF_Fourier_modes"][:1]
            elif w == "zero beam" and not p.beam:
                new["I0"] = 0.0
            elif w == "zero fractions" and "f_arr" not in new:
                new["f_arr"] = np.zeros(L)
            else:
                continue
            done.append(w)
            label("irrelevant:" + w)
        if not done:
            return False
        t = core.subset(p, core.taus(p, case["fr"], 6), case["fr"])
        phi = np.array([case["phi"], p.phi0])
        a = all_outputs(Sol(p, **kw), t, phi)
        b = all_outputs(Sol(p, "pydisort (%s)" % ", ".join(done), **dict(kw, **new)), t, phi)
        compare("irrelevant", b, a, p, 1e-9 * amp(p), 1e-3 * p.mag)
        return True
