from .base import *


class C01(Prop):
    rule = ("random layered problem; on every graded depth panel of up to 3 layers and for every Fourier mode the change of the "
            "intensity is compared with the integral of the independently assembled right-hand side; non-trivial = scattering "
            "(omega > 1e-6) in a checked layer and a non-zero field")
    quick = 3000
    thorough = 60000

    def strategy(self):
        return case_of(spec=st.one_of(gen.problems(), gen.problems(nquads=(2, 4, 6, 8), layers=(1, 4)),
                                      gen.problems(nquads=(8, 20, 24, 32), layers=(1, 2), max_work=64)), idx=idxs())

    def check(self, case):
        p = prep(case)
        s = Sol(p)
        close("mu", arr(s.mu, "mu_arr", (p.NQuad,)), p.mu, 1e-12, 1.0)
        nontrivial = False
        for l in pick_layers(p, case["idx"]):
            a, b = inside(p, l)
            pts = ref.graded_panels(a, b, short(p))
            if len(pts) > 16:  # bound the work: keep both ends and a stride in the middle
                keep = sorted(set(range(6)) | set(range(len(pts) - 6, len(pts))))
                segs = [(pts[i], pts[i + 1]) for i in keep if i + 1 < len(pts)]
            else:
                segs = list(zip(pts[:-1], pts[1:]))
            x, w = ref._gl(12)
            lo = np.array([q[0] for q in segs])
            hi = np.array([q[1] for q in segs])
            nodes = np.clip((lo + hi)[:, None] / 2 + (hi - lo)[:, None] / 2 * x[None, :], a, b)
            n = len(segs)
            U = s.modes(np.concatenate((lo, hi, nodes.ravel())))
            beam = beam_at(p, nodes, l) / (p.I0 if p.beam else 1)
            src = (1 - p.om[l]) * p.source(nodes, l)
            width = p.scale[l] * (hi - lo)
            Umax = np.max(np.abs(U), axis=(0, 1))
            Umax = np.maximum(np.max(Umax[2 * n:].reshape(n, -1), axis=1), np.maximum(Umax[:n], Umax[n:2 * n]))
            if p.om[l] > 1e-6 and np.max(Umax) > 0:
                nontrivial = True
            bmax = (p.I0 * np.max(beam, axis=1)) if p.beam else np.zeros(n)
            for m in range(p.NF):
                D, X = p.kernel(m, l)
                u = U[m][:, 2 * n:].reshape(p.NQuad, n, -1)
                rhs = p.scale[l] * (u - np.einsum("ij,jnk->ink", D * p.ww[None, :], u))
                if p.beam:
                    rhs = rhs - p.scale[l] * X[:, None, None] * beam[None]
                if m == 0:
                    rhs = rhs - src[None]
                integ = np.einsum("ink,k->in", rhs, w) * (hi - lo)[None, :] / 2
                change = p.mu[:, None] * (U[m][:, n:2 * n] - U[m][:, :n])
                um = np.max(np.abs(u), axis=(0, 2))
                smax = np.max(np.abs(src), axis=1) if m == 0 else 0.0
                scale = width * (um + 1e-3 * Umax + 0.3 * bmax + smax) + 1e-5 * Umax + 1e-5 * p.mag
                close("RTE:mode residual[m=%d,l=%d]" % (m, l), change, integ, 3e-7 * amp(p), scale[None, :] + 0 * change + 1e-280)
            u0 = s.u0(np.concatenate((lo, hi)))
            close("RTE:u0 vs mode 0", u0, U[0][:, :2 * n], 1e-9, np.max(Umax) + 1e-3 * p.mag + 1e-280)
        return nontrivial


class C02(Prop):
    rule = ("random problem with scalar, per-angle or per-angle-per-mode boundary sources and scalar/function reflectance modes; modes of the "
            "intensity at top and bottom vs prescribed sources plus reflection, also for fluxes-only solutions and with corrections; "
            "non-trivial = some boundary source or surface")
    quick = 6000
    thorough = 150000

    def strategy(self):
        a = gen.problems(bdrf="yes", layers=(1, 13), nquads=(2, 4, 6, 8, 10, 12, 16), max_work=100)
        b = gen.problems(bcs="any", layers=(1, 13), nquads=(2, 4, 6, 8), max_work=80)
        c = gen.problems(bcs="vm", bdrf="any", layers=(1, 4), nquads=(2, 4, 6, 8, 20))
        d = gen.problems(beam="yes", deltaM="yes", extra="yes", layers=(1, 11), nquads=(2, 4, 6, 8), max_work=80)
        return st.one_of(case_of(spec=st.one_of(a, b, c), nt=st.just(False)), case_of(spec=d, nt=st.just(True)))

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        s = Sol(p)
        N = p.N
        bn, bp = p.bval("bneg"), p.bval("bpos")
        tb = float(p.tau[-1])
        U = s.modes(np.array([0.0, tb]))
        g = np.max(np.abs(U))
        top, bot = U[:, :, 0], U[:, :, 1]
        loc = np.max(np.abs(top)) + np.max(np.abs(bn))
        close("BC:top", top[:, N:], bn.T, 1e-8 * amp(p), loc + 1e-3 * g + 1e-4 * p.mag + 1e-280)
        want = np.array([bp[:, m] + p.reflect(m, bot[m, N:]) for m in range(p.NF)])
        loc = np.max(np.abs(bot)) + np.max(np.abs(bp)) + 1e-9 * beam_at(p, tb)
        close("BC:bottom", bot[:, :N], want, 1e-8 * amp(p), loc + 1e-3 * g + 1e-4 * p.mag + 1e-280)
        # the fluxes-only solution obeys the same conditions for the zeroth mode
        over = {"only_flux": True}
        for k, key in (("bpos", "b_pos"), ("bneg", "b_neg")):
            if (p.spec.get(k) or {}).get("k") == "m":
                over[key] = p.bval(k)[:, :1].copy()
        s1 = Sol(p, **over)
        u0 = s1.u0(np.array([0.0, tb]))
        close("BC:top flux-only", u0[N:, 0], bn[:, 0], 1e-8 * amp(p), loc + g + 1e-4 * p.mag + 1e-280)
        close("BC:bottom flux-only", u0[:N, 1], bp[:, 0] + p.reflect(0, u0[N:, 1]), 1e-8 * amp(p), loc + g + 1e-4 * p.mag + 1e-280)
        # with corrections: the corrections vanish at the top (and at the bottom) in the incoming directions
        if nt:
            phi = np.array([0.0, 1.0, 3.5, p.phi0])
            s2 = Sol(p, NT_cor=True)
            c = np.cos(np.outer(np.arange(p.NF), p.phi0 - phi))
            V = s2.u(np.array([0.0, tb]), phi)
            g2 = np.max(np.abs(V)) + g
            close("BC:top corrected", V[N:, 0], bn @ c, 1e-8 * amp(p), g2 + 1e-4 * p.mag + 1e-280)
            close("BC:bottom corrected", V[:N, 1], s.u(tb, phi)[:N, 0], 1e-8 * amp(p), g2 + 1e-4 * p.mag + 1e-280)
        return bool(np.any(bn) or np.any(bp) or p.spec.get("bdrf"))


def all_outputs(s, t, phi, anti=False, act=True):
    """name -> array with the depth axis last-but-any; every public output on a 1-d depth array."""
    out = {}
    out["Fp"] = s.Fp(t, anti)
    out["Fm diffuse"], out["Fm direct"] = s.Fm(t, anti)
    out["u0"] = np.moveaxis(s.u0(t, anti), 1, 0)
    if s.u_ is not None:
        out["u"] = np.moveaxis(s.u(t, phi, anti), 1, 0)
    if act:
        out["actinic up"] = s.Ap(t, anti)
        out["actinic down"] = s.Am(t, anti)
    return out


class C03(Prop):
    rule = ("random stack of >= 2 layers; every output just above, at and just below up to 12 interfaces and at and next to the top and the bottom; "
            "non-trivial = neighbouring layers differ")
    quick = 4000
    thorough = 80000

    def strategy(self):
        a = gen.problems(layers=(2, 25))
        b = gen.problems(layers=(2, 13), beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8))
        return st.one_of(case_of(spec=a, nt=st.just(False), phi=fl(-7, 13)), case_of(spec=b, nt=st.just(True), phi=fl(-7, 13)))

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        s = Sol(p, **({"NT_cor": True} if nt else {}))
        phi = np.array([p.phi0, case["phi"], 2.0])
        T = p.tau[:-1]
        if len(T) > 12:
            T = T[np.linspace(0, len(T) - 1, 12).astype(int)]
        up, dn = np.nextafter(T, -np.inf), np.nextafter(T, np.inf)
        o = all_outputs(s, np.concatenate((up, T, dn)), phi)
        n = len(T)
        g = p.source_scale()
        for k, v in o.items():
            loc = np.max(np.abs(v).reshape(3 * n, -1), axis=1)
            loc = np.maximum.reduce([loc[:n], loc[n:2 * n], loc[2 * n:]]).reshape((n,) + (1,) * (v.ndim - 1))
            sc = loc + 1e-3 * g + 1e-4 * p.mag + np.zeros(v[:n].shape)
            close("continuity:%s below" % k, v[2 * n:], v[n:2 * n], 1e-8 * amp(p), sc)
            close("continuity:%s above" % k, v[:n], v[n:2 * n], 1e-8 * amp(p), sc)
        # the values at the top and at the bottom are the limits from inside
        e = np.array([0.0, p.tau[-1]])
        o = all_outputs(s, np.concatenate((e, [np.nextafter(0.0, 1.0), np.nextafter(p.tau[-1], 0.0)])), phi)
        for k, v in o.items():
            loc = np.max(np.abs(v).reshape(4, -1), axis=1)
            sc = np.maximum(loc[:2], loc[2:]).reshape((2,) + (1,) * (v.ndim - 1)) + 1e-3 * g + 1e-4 * p.mag + np.zeros(v[:2].shape)
            close("continuity:%s at the ends" % k, v[:2], v[2:], 1e-8 * amp(p), sc)
        return any(p.spec["layers"][i]["om"] != p.spec["layers"][i + 1]["om"] for i in range(p.NLayers - 1))


class C04(Prop):
    rule = ("random problem; fluxes, actinic fluxes and direct flux vs quadrature sums of u0 with independently computed weights, "
            "Beer-Lambert and the delta-M reclassification; non-trivial = beam or delta-M or several layers")
    quick = 8000
    thorough = 150000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12, 16), max_work=120)
        b = gen.problems(beam="yes", deltaM="yes", nquads=(2, 4, 6, 8), layers=(1, 6))
        return case_of(spec=st.one_of(a, b), fr=fracs(), nt=st.sampled_from([False, False, True]), of=st.sampled_from([False, False, True]))

    def check(self, case):
        nt = case["nt"] and case["spec"]["I0"] > 0
        p = prep(case, nt=nt)
        kw = {"NT_cor": True} if nt else {}
        if case["of"]:
            kw = {"only_flux": True}
            for k, key in (("bpos", "b_pos"), ("bneg", "b_neg")):
                if (p.spec.get(k) or {}).get("k") == "m":
                    kw[key] = p.bval(k)[:, :1].copy()
        s = Sol(p, **kw)
        N = p.N
        t = core.subset(p, core.taus(p, case["fr"]), case["fr"])
        u0 = s.u0(t)
        Fp = s.Fp(t)
        Fd, Fb = s.Fm(t)
        Ap, Am = s.Ap(t), s.Am(t)
        wm = 2 * np.pi * p.w * p.mup
        wa = 2 * np.pi * p.w
        g = np.max(np.abs(u0))
        direct = p.I0 * np.exp(-t / p.mu0) if p.beam else np.zeros(len(t))
        directs = beam_at(p, t)
        sc = 10 * np.max(np.abs(u0), axis=0) + directs + 1e-6 * g + 1e-5 * p.mag
        close("moments:Fp", Fp, wm @ u0[:N], 1e-9, sc)
        close("moments:Fm", Fd, wm @ u0[N:] + (p.mu0 * (directs - direct) if p.beam else 0), 1e-9, sc)
        close("moments:direct", Fb, (p.mu0 * direct if p.beam else direct), 1e-10, direct + 1e-280)
        close("moments:act up", Ap, wa @ u0[:N], 1e-9, sc)
        close("moments:act down", Am, wa @ u0[N:] + directs - direct, 1e-9, sc)
        if s.u_ is not None and not nt:
            K = 2 * p.NF
            phi = case["fr"][0] * 6 + 2 * np.pi * np.arange(K) / K
            U = s.u(t, phi)
            close("moments:u0 is mean of u", u0, np.mean(U, axis=2), 1e-9, np.max(np.abs(U)) + 1e-3 * p.mag)
        return bool(p.beam or p.NLayers > 1 or np.any(p.f > 0))


class C05(Prop):
    rule = ("random problem; change of net flux over whole layers and over random sub-intervals vs integrated absorption minus emission "
            "from the actinic fluxes (graded Gauss rule); non-trivial = scattering or emission present")
    quick = 4000
    thorough = 80000

    def strategy(self):
        a = gen.problems(trunc="any", nquads=(2, 4, 6, 8, 12, 16), max_work=120)
        b = gen.problems(deltaM="yes", beam="yes", thermal="any", layers=(1, 6), nquads=(2, 4, 6, 8))
        c = gen.problems(max_om=0.99999, layers=(1, 3), nquads=(4, 8))
        return case_of(spec=st.one_of(a, b, c), idx=idxs(), fr=fracs(2))

    def check(self, case):
        p = prep(case)
        s = Sol(p)
        for l in pick_layers(p, case["idx"]):
            a, b = inside(p, l)
            m1 = min(a + (b - a) * case["fr"][0], b)
            for lo, hi in {(a, b), (a, m1), (m1, b)}:
                if not hi > lo:
                    continue
                x, w = ref.graded_rule(lo, hi, short(p) / 2)
                x = np.clip(x, a, b)
                act = s.Ap(x) + s.Am(x) + (p.I0 * np.exp(-x / p.mu0) if p.beam else 0)
                dens = (1 - p.om[l]) * (act - 4 * np.pi * p.source(x, l))
                e = np.array([lo, hi])
                Fd, Fb = s.Fm(e)
                Fp = s.Fp(e)
                net = Fp - Fd - Fb
                big = np.max(np.abs(Fp) + np.abs(Fd) + np.abs(Fb))
                absint = float(np.abs(w) @ ((1 - p.om[l]) * (np.abs(act) + 4 * np.pi * np.abs(p.source(x, l)))))
                close("energy:layer balance", np.array([net[1] - net[0]]), np.array([w @ dens]), 1e-7 * amp(p),
                      big * (1e-2 if p.kmin > 0.05 else 1.0) + absint + 1e-5 * p.mag)
        return bool(np.any(p.om > 0) or p.s is not None)


class C06(Prop):
    rule = ("random problem; difference of every output in antiderivative mode between points of one layer vs graded Gauss integral of the "
            "ordinary output; non-trivial = always (each case integrates all outputs over at least one interval)")
    quick = 3500
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12), max_work=80, layers=(1, 13))
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 5))
        c = gen.problems(thermal="yes", nquads=(2, 4, 6), layers=(1, 5))
        nt = case_of(spec=b, idx=idxs(), fr=fracs(3), phi=fl(0, 6.3), nt=st.just(True), ag=st.booleans(), perm=st.integers(0, 99), near=nears())
        return st.one_of(case_of(spec=st.one_of(a, c), idx=idxs(), perm=st.integers(0, 99), fr=fracs(3), phi=fl(0, 6.3), nt=st.just(False), ag=st.sampled_from([False, False, True])), nt)

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        if nt:
            p = near_angle(p, case["near"])
        kw = {"NT_cor": True} if nt else {}
        if case["ag"]:
            kw["autograd_compatible"] = True
        s = Sol(p, **kw)
        phi = np.array([p.phi0, case["phi"]])
        g = p.source_scale()
        loss = 1 + 1e-6 / np.min(np.abs(p.mup - p.mu0)) if nt and p.beam else 1  # terms cancel near quadrature angles
        groups = []
        for l in pick_layers(p, case["idx"], 3):
            a, b = inside(p, l)
            pts = sorted({a, b} | {min(max(a + (b - a) * f, a), b) for f in case["fr"]})
            pts = [x for i, x in enumerate(pts) if i == 0 or x - pts[i - 1] > 1e-12 * b]
            if len(pts) >= 2:
                groups.append((l, pts))
        # one call with the depths of all these layers, in arbitrary order
        flat = np.array([x for _, pts in groups for x in pts])
        order = np.random.RandomState(case["perm"]).permutation(len(flat)) if case["perm"] else np.arange(len(flat))
        back = np.argsort(order)
        AA = {k: v[back] for k, v in all_outputs(s, flat[order], phi, anti=True).items()} if len(flat) else {}
        at = 0
        for l, pts in groups:
            a, b = inside(p, l)
            A = {k: v[at:at + len(pts)] for k, v in AA.items()}
            at += len(pts)
            xs, ws, seg = [], [], []
            for i in range(len(pts) - 1):
                x, w = ref.graded_rule(pts[i], pts[i + 1], short(p))
                xs.append(np.clip(x, a, b))
                ws.append(w)
                seg.append(np.full(len(x), i))
            xs, ws, seg = map(np.concatenate, (xs, ws, seg))
            V = all_outputs(s, xs, phi)
            for k in V:
                v = V[k]
                for i in range(len(pts) - 1):
                    m = seg == i
                    integ = np.tensordot(ws[m], v[m], axes=(0, 0))
                    mag = np.tensordot(ws[m], np.abs(v[m]), axes=(0, 0))
                    diff = A[k][i + 1] - A[k][i]
                    sc = np.max(mag) + 1e-2 * np.max(np.abs(A[k][i:i + 2])) + 1e-4 * (pts[i + 1] - pts[i]) * g + 1e-5 * p.mag * (1 + 1 / p.kmin)
                    close("antiderivative:%s%s" % (k, " corrected" if nt and k == "u" else ""), diff, integ, 1e-7 * amp(p) * (loss if k == "u" else 1), sc + 1e-280)
        return True
