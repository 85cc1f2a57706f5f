import copy
import numpy as np
from .base import *
from .p1 import all_outputs
from .p2 import only_flux_kw, compare
from ..bvp import Reference


# ------------------------------------------------------------------------------------------------- C27
class C27(Prop):
    rule = ("random problem (all sources, surfaces, delta-M fractions, truncations, options); every output at slab boundaries inside all layers, at "
            "interfaces and both ends vs an independent solution by multiple shooting with matrix exponentials (plus closed-form corrections); "
            "non-trivial = scattering present")
    quick = 3000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), layers=(1, 25), max_work=60)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", bdrf="any", nquads=(2, 4, 6, 8), layers=(1, 11), max_work=44)
        c = gen.problems(thermal="yes", bdrf="yes", nquads=(2, 4, 6, 8), layers=(1, 11), max_work=44)
        d = gen.problems(nquads=(2, 4, 6), layers=(1, 3), bcs="vm", bdrf="any")
        e = gen.problems(nquads=(20, 24, 28, 32, 40), layers=(1, 2), max_work=44, beam="yes", kinds=["hgp", "mix", "dec"], extra="no", max_ns=2)
        rest = dict(pick=st.lists(st.integers(0, 10**4), min_size=1, max_size=6), phi=st.lists(fl(-7, 13), min_size=1, max_size=3),
                    opt=st.sampled_from(["", "", "", "of"]), few=st.sampled_from([False, False, True]), res=resonances())
        return st.one_of(case_of(spec=st.one_of(a, a, c, c, d, d, e), nt=st.just(False), **rest), case_of(spec=b, nt=st.booleans(), **rest))

    def check(self, case):
        spec = copy.deepcopy(case["spec"])
        mumin = ref.half_gauss(spec["NQuad"] // 2)[0][0]
        cap = 2.4 * mumin * max(20, min(120, 3000 // (spec["NQuad"] * len(spec["layers"]))))
        for lay in spec["layers"]:
            lay["th"] = min(lay["th"], cap)
        of = case["opt"] == "of"
        nt = case["nt"] and not of
        p = prep({"spec": spec}, nt=nt)
        if not nt:
            p = resonant(p, case["res"])
        r = Reference(p)
        kw = {"NT_cor": True} if nt else {}
        if of:
            kw = only_flux_kw(p)
        s = Sol(p, **kw)
        K = len(r.tau)
        idx = {i % K for i in case["pick"]}
        if not case["few"]:
            idx |= {0, K - 1} | {int(i) for i in r.first[1:][:6]}
        idx = sorted(idx)
        t = r.tau[idx]
        phi = np.array(case["phi"])
        N = p.N
        M = r.modes[:, :, idx]
        want = {"u0": M[0].T}
        if not of:
            c = np.cos(np.outer(np.arange(p.NF), p.phi0 - phi))
            u = np.einsum("mqt,mk->qtk", M, c)
            if nt and p.NLeg < p.NLeg_all and np.any(p.om * p.f > 0):
                u = u + p.tms(t, phi)
                u[N:] += p.ims(t, phi)
            want["u"] = np.moveaxis(u, 1, 0)
        direct = p.I0 * np.exp(-t / p.mu0) if p.beam else np.zeros(len(t))
        directs = beam_at(p, t)
        wm, wa = 2 * np.pi * p.w * p.mup, 2 * np.pi * p.w
        mu0 = p.mu0 if p.beam else 0.0
        want["Fp"] = wm @ M[0, :N]
        want["Fm diffuse"] = wm @ M[0, N:] + mu0 * (directs - direct)
        want["Fm direct"] = mu0 * direct
        want["actinic up"] = wa @ M[0, :N]
        want["actinic down"] = wa @ M[0, N:] + directs - direct
        got = all_outputs(s, t, phi)
        near = 1.0
        if nt:
            near = 1 + 1e-6 / min(np.min(np.abs(1 / p.mup - 1 / p.mu0)), 1) ** 2
        # scattering coefficients below 1e-8 may be neglected by the solver (documented shortcut)
        q = np.abs(p.om_s[:, None] * (2 * np.arange(p.NLeg) + 1) * p.g_s)
        mx = np.array([np.max(q[:, m:], axis=1) for m in range(p.NF)])
        neg = float(np.max(np.where(mx <= 4e-8, mx, 0.0))) * p.NLeg
        compare("reference", got, want, p, 3e-8 * amp(p) * near, (1e-3 + 5e8 * neg * (1 + 0.1 / p.kmin)) * p.mag)
        return bool(np.any(p.om > 1e-6))
