import copy
import numpy as np
from .base import *
from .p1 import all_outputs
from .p2 import only_flux_kw, compare

FUNCS = ("Fp", "Fm", "u0", "u", "Ap", "Am")


# ------------------------------------------------------------------------------------------------- C14
def raw_call(s, name, t, phi, flags):
    """Call an output function exactly as given; returns a tuple of outputs."""
    f = {"Fp": s.Fp_, "Fm": s.Fm_, "u0": s.u0_, "u": s.u_}.get(name)
    if name in ("Ap", "Am"):
        f = s.actinic()[0 if name == "Ap" else 1]
    kw = {}
    if flags.get("anti"):
        kw["is_antiderivative_wrt_tau"] = True
    if flags.get("arr"):
        kw["return_tau_arr"] = True
    if name == "u" and flags.get("err"):
        kw["return_Fourier_error"] = True
    args = (t, phi) if name == "u" else (t,)
    y = call(name, f, *args, **kw)
    return y if isinstance(y, tuple) else (y,)


SIB = ["mu0", "phi0", "I0", "om", "ph", "f", "th", "swap", "bpos", "bneg", "bdrf", "s", "extra"]


def sibling(pr, what, i, x):
    """A problem of the same shape that differs from `pr` in one respect only."""
    spec = copy.deepcopy(pr["spec"])
    ls = spec["layers"]
    lay = ls[i % len(ls)]
    if what == "mu0" and spec["I0"] > 0:
        spec["mu0"] = max(0.02, spec["mu0"] * x)
    elif what == "phi0" and spec["I0"] > 0:
        spec["phi0"] = spec["phi0"] * x
    elif what == "I0":
        spec["I0"] = spec["I0"] * (1 + x)
    elif what == "om":
        lay["om"] = lay["om"] * x
    elif what == "ph":
        lay["ph"] = dict(lay["ph"], tw=[i, 0.3 * x - 0.15])
    elif what == "f" and "f" in lay:
        lay["f"] = 0.5 * x
    elif what == "th":
        lay["th"] = lay["th"] * (0.5 + x)
    elif what == "swap":
        ls.append(ls.pop(0))
    elif what in ("bpos", "bneg"):
        spec[what] = {"k": "s", "v": 1 + x}
    elif what == "bdrf" and spec["bdrf"]:
        spec["bdrf"] = [{"k": "s", "v": x}] + spec["bdrf"][1:]
    elif what == "s" and spec["ns"]:
        lay["s"] = [c * (0.5 + x) for c in lay["s"]]
    else:
        spec["extra"] = spec["extra"] + 1
    return dict(pr, spec=spec)


class C14(Prop):
    rule = ("generated histories over one or two solved problems: calls of every output function with random batches (order, duplicates, "
            "scalars, integers, interfaces), flags, in-place modification of input arrays and returned arrays, re-solving, "
            "interpolation and rejected calls; each value compared with that of a separately solved problem (in a newly imported copy of the package) called with one "
            "scalar depth and azimuth; non-trivial = history with at least 3 operations including a batched call")
    quick = 3500
    thorough = 50000

    def strategy(self):
        spec = st.one_of(
            case_of(spec=gen.problems(nquads=(2, 4, 6, 8), layers=(1, 13), max_work=60), nt=st.just(False)),
            case_of(spec=gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6), layers=(1, 11), max_work=50), nt=st.just(True)),
        )
        depth = st.tuples(st.integers(0, 12), st.one_of(st.sampled_from([0.0, 1.0, 1.0]), fl(0, 1)))
        ph = st.one_of(st.sampled_from([0.0, 1.0, 4.0]), fl(-7, 13))
        callop = st.fixed_dictionaries({
            "op": st.just("call"), "p": st.integers(0, 1), "f": st.sampled_from(FUNCS),
            "d": st.lists(depth, min_size=1, max_size=6), "phi": st.lists(ph, min_size=1, max_size=3),
            "form": st.sampled_from(["array", "array", "buf", "buf", "scalar", "int", "ro", "view", "big", "big"]), "seed": st.integers(0, 9999),
            "anti": st.booleans(), "arr": st.sampled_from([False, False, True]), "err": st.sampled_from([False, False, True]),
            "smash": st.booleans(),
        })
        other = st.fixed_dictionaries({"op": st.sampled_from(["mutate", "resolve", "reject", "new"]), "p": st.integers(0, 1),
                                       "i": st.integers(0, 6)})
        interp = st.fixed_dictionaries({"op": st.just("interp"), "p": st.integers(0, 1), "i": st.integers(0, 6), "d": st.lists(depth, min_size=1, max_size=4),
                                        "mu": st.lists(st.one_of(fl(0.01, 1), fl(-1, -0.01)), min_size=1, max_size=3), "anti": st.booleans(), "smash": st.booleans()})
        sib = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(SIB), st.integers(0, 9), fl(0.1, 0.9)))
        return case_of(probs=st.lists(spec, min_size=1, max_size=2), sib=sib, ops=st.lists(st.one_of(callop, callop, callop, other, interp, interp), min_size=2, max_size=12),
                       ag=st.sampled_from([False, False, True]))

    def check(self, case):
        probs = []
        given = case["probs"]
        if case["sib"]:
            given = [given[0], sibling(given[0], *case["sib"])]
        for pr in given:
            p = prep(pr, nt=pr["nt"])
            kw = {"NT_cor": True} if pr["nt"] else {}
            if case["ag"]:
                kw["autograd_compatible"] = True
            mine = core.kwargs_of(p)
            keep = copy.deepcopy({k: v for k, v in mine.items() if isinstance(v, np.ndarray)})
            s = Sol(p, **dict(mine, **kw))
            for k, v in keep.items():
                if not np.array_equal(mine[k], v):
                    raise Violation("pydisort modified its input %s" % k)
            oracle = Sol(p, solver=core.fresh_package()[0], **kw)
            probs.append({"p": p, "kw": kw, "mine": mine, "keep": keep, "s": s, "oracle": oracle, "memo": {}})
        batched = 0
        held = []  # results the caller holds on to
        for o in case["ops"]:
            w = probs[o["p"] % len(probs)]
            p, s = w["p"], w["s"]
            if o["op"] == "call":
                t = np.array([min(p.tau0[l % p.NLayers] + f * p.th[l % p.NLayers], p.tau[l % p.NLayers]) for l, f in o["d"]])
                phi = np.array(o["phi"])
                if o["form"] == "scalar":
                    t, phi = float(t[0]), float(phi[0])
                elif o["form"] == "int":
                    t, phi = np.floor(t).astype(int), np.floor(phi).astype(int)
                elif o["form"] == "ro":
                    t.setflags(write=False)
                    phi.setflags(write=False)
                elif o["form"] == "buf":
                    # the caller keeps two work arrays and overwrites them between calls
                    bt, bp = w.setdefault("buf", (np.zeros(3), np.zeros(2)))
                    bt[:] = np.resize(t, 3)
                    bp[:] = np.resize(phi, 2)
                    t, phi = bt, bp
                elif o["form"] == "big":
                    # long batches of few distinct values
                    rs = np.random.RandomState(o["seed"])
                    cap = 8000 // p.NQuad
                    nt_, np_ = rs.choice([1, 3, 17, 33, 65, 130, 257, 600, 1100, 5000]), rs.choice([1, 2, 3, 17, 33, 50, 100, 300])
                    if o["f"] == "u":
                        nt_, np_ = max(1, min(nt_, cap)), max(1, min(np_, cap))
                        if nt_ * np_ > cap and o["seed"] % 2:
                            nt_ = max(1, cap // np_)
                        elif nt_ * np_ > cap:
                            np_ = max(1, cap // nt_)
                    t = rs.choice(t, nt_)
                    phi = rs.choice(phi, np_)
                elif o["form"] == "view":
                    t, phi = np.repeat(t, 2)[::2], np.asfortranarray(np.stack((phi, phi)))[1]
                tk, pk = np.atleast_1d(t).copy(), np.atleast_1d(phi).copy()
                out = raw_call(s, o["f"], t, phi, o)
                if not np.array_equal(np.atleast_1d(t), tk) or not np.array_equal(np.atleast_1d(phi), pk):
                    raise Violation("%s modified its arguments" % o["f"])
                self.verify(w, o, tk.astype(float), pk.astype(float), out)
                batched += len(tk) > 1
                if o["smash"]:
                    for v in out:
                        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                            v *= -3.0
                            v += 1.0
                held.extend((o["f"], v, np.array(v, copy=True)) for v in out if isinstance(v, np.ndarray))
                if o["form"] in ("array", "buf", "view") and o["seed"] % 2 == 0:
                    # the same array objects with other contents
                    t[...] = np.clip(p.tau[-1] - t, 0, p.tau[-1])
                    phi += 1.25
                    out = raw_call(s, o["f"], t, phi, o)
                    self.verify(w, o, t.copy(), phi.copy(), out)
            elif o["op"] == "mutate":
                # the caller reuses its arrays for something else
                names = sorted(w["keep"])
                v = w["mine"][names[o["i"] % len(names)]]
                v *= 0.25
                v += 0.125
                s.mu *= 0.5
            elif o["op"] == "resolve":
                for k, v in w["keep"].items():
                    w["mine"][k] = v.copy()
                w["s"] = Sol(p, **dict(w["mine"], **w["kw"]))
            elif o["op"] == "new":
                # solving a different problem in between
                q = ref.Problem(dict(p.spec, NLeg=1, NF=1, NQuad=p.NQuad if p.NQuad > 2 else 4, bpos={"k": "s", "v": 1.0}, bneg={"k": "s", "v": 0.5}))
                Sol(q).u0(np.array([0.0]))
            elif o["op"] == "interp":
                # interpolators live as long as the problem and are called again and again
                fi = w.setdefault("interp", {})
                if ("u", id(s)) not in fi or o["i"] == 6:
                    for k, g in (("u", s.u_), ("u0", s.u0_)):
                        fi[(k, id(s))] = call("interpolate", core.sub.interpolate, g)
                k = "u" if o["i"] % 2 else "u0"
                d = np.array([min(p.tau0[l % p.NLayers] + f * p.th[l % p.NLayers], p.tau[l % p.NLayers]) for l, f in o["d"]])
                mu = np.array(o["mu"])
                y = np.array([0.5 + o["i"], 2.0])
                out = call("interpolated " + k, fi[(k, id(s))], mu, d, *((y,) if k == "u" else ()), is_antiderivative_wrt_tau=o["anti"])
                vals = w["oracle"].u(d, y, o["anti"]) if k == "u" else w["oracle"].u0(d, o["anti"])[:, :, None]
                got = arr(out, "interpolated " + k).reshape((len(mu),) + vals.shape[1:])
                for i, m in enumerate(mu):
                    e, amp_ = lagrange(p.mup, vals[:p.N], np.array([m])) if m > 0 else lagrange(-p.mup, vals[p.N:], np.array([m]))
                    close("pointwise:interpolated " + k, got[i], e[0], 1e-9 * amp_, np.max(np.abs(vals)) + 1e-3 * p.mag)
                if o["smash"] and isinstance(out, np.ndarray) and out.ndim and out.flags.writeable:
                    out *= 0.0
            else:
                bad = -1.0 if o["i"] % 2 else float(p.tau[-1]) * 1.5
                f = (s.Fp_, s.Fm_, s.u0_)[o["i"] % 3]
                try:
                    f(np.array([0.0, bad]))
                except ValueError:
                    pass
        for name, v, was in held:
            if not np.array_equal(v, was, equal_nan=True):
                raise Violation("a result of %s changed after it was returned" % name)
        # finally: everything still answers as at the beginning
        for w in probs:
            for f in FUNCS:
                o = {"f": f, "anti": False}
                t = np.array([float(w["p"].tau[-1]), 0.0])
                self.verify(w, o, t, np.array([0.5]), raw_call(w["s"], f, t, np.array([0.5]), o))
        return len(case["ops"]) >= 3 and batched > 0

    def verify(self, w, o, t, phi, out):
        p, name = w["p"], o["f"]
        n = 2 if name == "Fm" else 1
        want_len = n + bool(o.get("arr")) + bool(o.get("err") and name == "u")
        if len(out) != want_len:
            raise Violation("%s returned %d values, expected %d" % (name, len(out), want_len))
        pts = []
        for x in t:
            for y in (phi if name == "u" else [0.0]):
                key = (name, float(x), float(y), bool(o.get("anti")))
                if key not in w["memo"]:
                    v = raw_call(w["oracle"], name, float(x), float(y), {"anti": key[3]})
                    w["memo"][key] = [np.array(z, dtype=float, copy=True) for z in v]
                pts.append(w["memo"][key])
        for i in range(n):
            vals = np.array([q[i] for q in pts])
            if name == "u":
                exp = np.moveaxis(vals.reshape(len(t), len(phi), p.NQuad), 2, 0)
            elif name == "u0":
                exp = vals.reshape(len(t), p.NQuad).T
            else:
                exp = vals.reshape(len(t))
            got = arr(out[i], name)
            if got.size != exp.size:
                raise Violation("%s: size %d, expected %d" % (name, got.size, exp.size))
            got = got.reshape(exp.shape)
            close("pointwise:%s" % name, got, exp, 1e-9, np.max(np.abs(exp)) + 1e-3 * p.mag)
        if o.get("arr"):
            close("returned tau_arr", arr(out[-1], "tau_arr", (p.NLayers,)), p.tau, 1e-14, p.tau)


# ------------------------------------------------------------------------------------------------- C15
class C15(Prop):
    rule = ("random problem with autograd support; autograd derivatives (element-wise gradients of fluxes, Jacobians of u0 and u, scalar and "
            "batched depths) at interior depths vs spectral differentiation of the ordinary output, and derivative of antiderivative "
            "mode vs the output; non-trivial = every case (at least one interior depth)")
    quick = 2500
    thorough = 40000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8), layers=(1, 11), max_work=50)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6), layers=(1, 5))
        c = gen.problems(thermal="yes", nquads=(2, 4, 6), layers=(1, 4))
        fr = st.lists(fl(0.05, 0.95), min_size=1, max_size=3)
        return st.one_of(case_of(spec=st.one_of(a, c), fr=fr, idx=idxs(), phi=fl(0, 6.3), nt=st.just(False), of=st.sampled_from([False, False, True])),
                         case_of(spec=b, fr=fr, idx=idxs(), phi=fl(0, 6.3), nt=st.just(True), of=st.just(False)))

    def check(self, case):
        import autograd as ag

        nt = case["nt"]
        p = prep(case, nt=nt)
        kw = {"autograd_compatible": True}
        if nt:
            kw["NT_cor"] = True
        if case["of"]:
            kw.update(only_flux_kw(p))
        s = Sol(p, **kw)
        ls = pick_layers(p, case["idx"], 3)
        t = np.array([p.tau0[ls[i % len(ls)]] + f * p.th[ls[i % len(ls)]] for i, f in enumerate(case["fr"])])
        lay = np.array([ls[i % len(ls)] for i in range(len(t))])
        phi = np.array([case["phi"], p.phi0])
        # spectral derivative on a short Chebyshev interval around each depth, inside the layer
        half = np.minimum(np.minimum(t - p.tau0[lay], p.tau[lay] - t) * 0.95, 0.4 * min(p.mup[0], 1 / p.kmax, p.mu0 if p.beam else 1.0))
        half = np.maximum(half, 1e-13)
        M = 12
        x = np.cos(np.pi * np.arange(M + 1) / M)
        d = diff_at_zero(x)
        nodes = (t[:, None] + half[:, None] * x[None, :])
        V = all_outputs(s, nodes.ravel(), phi)
        A = all_outputs(s, t, phi)
        AA = all_outputs(s, t, phi, anti=True)
        k = len(t)
        der = {}
        for name in ("Fp", "Fm diffuse", "Fm direct", "u0", "u"):
            if name in V:
                v = V[name].reshape((k, M + 1) + V[name].shape[1:])
                der[name] = np.einsum("j,kj...->k...", d, v) / half.reshape((k,) + (1,) * (v.ndim - 2))

        def J(what, f):
            return np.asarray(call("autograd of " + what, ag.jacobian(f), t))

        def verify(name, jac):
            """jac has the output's shape plus a trailing axis for the differentiation depth."""
            out = A[name]
            if k == 1:
                jac = jac.reshape((1,) + out.shape[1:] + (1,)) if name in ("u", "u0") else jac.reshape(1, 1)
            elif name in ("u", "u0"):
                jac = np.moveaxis(jac, 1, 0)
            if jac.shape != out.shape + (k,):
                raise Violation("autograd %s: shape %s" % (name, jac.shape))
            return np.array([jac[(i,) + (slice(None),) * (jac.ndim - 2) + (i,)] for i in range(k)]), jac

        fs = {"Fp": lambda z, **q: s.Fp_(z, **q), "Fm diffuse": lambda z, **q: s.Fm_(z, **q)[0],
              "Fm direct": lambda z, **q: s.Fm_(z, **q)[1], "u0": lambda z, **q: s.u0_(z, **q)}
        if s.u_ is not None:
            fs["u"] = lambda z, **q: s.u_(z, phi, **q)
        for name, f in fs.items():
            if name == "Fm direct" and not p.beam:
                continue
            dg, full = verify(name, J(name, f))
            loc = np.max(np.abs(V[name])) + 1e-3 * p.mag
            sc = (loc / half).reshape((k,) + (1,) * (dg.ndim - 1)) + np.zeros(dg.shape)
            close("autograd:%s" % name, dg, der[name], 3e-8, sc)
            for i in range(k):
                for j in range(k):
                    if i != j and np.any(np.abs(full[i][..., j]) > 1e-9 * loc / half[i]):
                        raise Violation("autograd %s: derivative with respect to another depth is non-zero" % name)
            ga, _ = verify(name, J(name + " antiderivative", lambda z: f(z, is_antiderivative_wrt_tau=True)))
            big = np.max(np.abs(AA[name]))
            close("autograd antiderivative:%s" % name, ga, A[name], 1e-8, np.max(np.abs(A[name])) + 1e-3 * p.mag + 1e-4 * big + np.zeros(A[name].shape))
        # scalar depth
        g = call("autograd of Fp at a scalar", ag.grad(lambda z: s.Fp_(z) + s.Fm_(z)[0]), float(t[0]))
        close("autograd:scalar", arr(np.asarray(g), "gradient", ()), np.asarray(der["Fp"][0] + der["Fm diffuse"][0]), 3e-8,
              (np.max(np.abs(V["Fp"]) + np.abs(V["Fm diffuse"])) + 1e-3 * p.mag) / half[0])
        return True


def diff_at_zero(x):
    """Weights w with sum_j w_j f(x_j) = derivative at 0 of the interpolating polynomial (x contains 0)."""
    n = len(x)
    i0 = int(np.argmin(np.abs(x)))
    w = np.zeros(n)
    for j in range(n):
        if j == i0:
            continue
        num = np.prod([x[i0] - x[k] for k in range(n) if k not in (j, i0)])
        den = np.prod([x[j] - x[k] for k in range(n) if k != j])
        w[j] = num / den
    w[i0] = -np.sum(w)
    return w


# ------------------------------------------------------------------------------------------------- C16
def lagrange(nodes, vals, x):
    """Interpolating polynomial through (nodes, vals[axis 0]) at x, in product form (independent of scipy)."""
    L = np.ones((len(x), len(nodes)))
    for j in range(len(nodes)):
        for k in range(len(nodes)):
            if k != j:
                L[:, j] *= (x - nodes[k]) / (nodes[j] - nodes[k])
    return np.tensordot(L, vals, axes=(1, 0)), np.max(np.sum(np.abs(L), axis=1))


class C16(Prop):
    rule = ("random problem; interpolated u, corrected u and u0 at quadrature angles, random angles and the limits -1, 0, 1, for scalar and "
            "array arguments, with all flags by keyword and position and repeated calls with different depths, vs the Lagrange product "
            "form through the hemisphere's values; non-trivial = at least 4 streams")
    quick = 4000
    thorough = 60000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8, 12, 16), layers=(1, 6), max_work=48)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(2, 4, 6, 8), layers=(1, 4))
        q = case_of(mu=st.lists(st.one_of(st.sampled_from([-1.0, 1.0, 0.0]), fl(-1, 1)), min_size=1, max_size=5), nodes=st.lists(st.integers(0, 20), max_size=3),
                    near=st.lists(st.tuples(st.integers(0, 20), st.one_of(logu(-11, -2), logu(-6, -3), logu(-6, -3).map(lambda x: -x))), max_size=2), fr=fracs(2), phi=st.lists(fl(-7, 13), min_size=1, max_size=2), which=st.sampled_from(["u", "u", "u0"]),
                    anti=st.booleans(), err=st.booleans(), ta=st.booleans(), form=st.sampled_from(["kw", "pos"]), scalar=st.sampled_from([False, False, True]),
                    bad=st.one_of(st.none(), st.sampled_from([1.0000001, -1.0000001, 2.0, -5.0])))
        return st.one_of(case_of(spec=a, nt=st.just(False), q=st.lists(q, min_size=1, max_size=4), ag=st.sampled_from([False, False, True])),
                         case_of(spec=b, nt=st.just(True), q=st.lists(q, min_size=1, max_size=4), ag=st.just(False)))

    def check(self, case):
        nt = case["nt"]
        p = prep(case, nt=nt)
        kw = {"NT_cor": True} if nt else {}
        if case["ag"]:
            kw["autograd_compatible"] = True
        s = Sol(p, **kw)
        N = p.N
        fi = {"u": call("interpolate(u)", core.sub.interpolate, s.u_), "u0": call("interpolate(u0)", core.sub.interpolate, s.u0_)}
        for q in case["q"]:
            near = [float(np.clip(p.mu[i % p.NQuad] * (1 + d), -1, 1)) for i, d in q["near"]]  # close to, but not at, a node
            mu = np.array(q["mu"] + near + [p.mu[i % p.NQuad] for i in q["nodes"]])
            t = core.taus(p, q["fr"], 4)
            phi = np.array(q["phi"])
            if q["scalar"]:
                mu, t, phi = mu[:1], t[-1:], phi[:1]
            is_u = q["which"] == "u"
            base = s.u(t, phi, q["anti"]) if is_u else s.u0(t, q["anti"])
            vals = base if is_u else base[:, :, None]
            pts = (t, phi) if is_u else (t,)
            if q["scalar"]:
                args = (float(mu[0]),) + tuple(float(z[0]) for z in pts)
            else:
                args = (mu,) + pts
            f = fi[q["which"]]
            if q["form"] == "kw":
                flags = {"is_antiderivative_wrt_tau": q["anti"], "return_tau_arr": q["ta"]}
                if is_u:
                    flags["return_Fourier_error"] = q["err"]
                out = call("interpolated " + q["which"], f, *args, **flags)
            else:
                extra = (q["anti"], q["err"] and is_u, q["ta"])
                out = call("interpolated " + q["which"], f, *args, *extra)
            nextra = int(q["ta"]) + int(q["err"] and is_u)
            if nextra:
                if not isinstance(out, tuple) or len(out) != 1 + nextra:
                    raise Violation("interpolated %s with flags did not return %d values" % (q["which"], 1 + nextra))
                res = out[0]
                if q["ta"]:
                    close("interpolate:tau_arr", arr(out[-1], "tau_arr", (p.NLayers,)), p.tau, 1e-14, p.tau)
                if q["err"] and is_u:
                    e0 = s.u_(t, phi, q["anti"], True)[1]
                    close("interpolate:Fourier error", np.asarray(float(out[1])), np.asarray(float(e0)), 1e-9, abs(float(e0)) + 1e-12)
            else:
                res = out
            shape = tuple(k for k in ((len(mu),) + vals.shape[1:]) if k != 1)
            res = arr(res, "interpolated " + q["which"], shape).reshape((len(mu),) + vals.shape[1:])
            sc = np.max(np.abs(vals)) + 1e-290
            for i, m in enumerate(mu):
                opts = []
                if m >= 0:
                    opts.append(lagrange(p.mup, vals[:N], np.array([m])))
                if m <= 0:
                    opts.append(lagrange(-p.mup, vals[N:], np.array([m])))
                # at mu = 0 the limit of either hemisphere is acceptable
                ok = any(np.max(np.abs(res[i] - o[0])) <= 1e-9 * o[1] * sc for o in opts)
                if not ok:
                    close("interpolate:value", res[i], opts[0][0][0], 1e-9 * opts[0][1], sc)
            for i in range(len(q["nodes"]) if not q["scalar"] else 0):
                j = q["nodes"][i] % p.NQuad
                close("interpolate:nodes", res[len(q["mu"]) + len(near) + i], vals[j], 1e-11, sc)
            if q["bad"] is not None:
                for b in (q["bad"], np.array([0.5, q["bad"]]), np.array([0.5, q["bad"], -0.3, 0.2])):
                    try:
                        f(b, *args[1:])
                    except ValueError:
                        continue
                    raise Violation("interpolated %s accepted mu = %s" % (q["which"], b))
        return p.NQuad >= 4


# ------------------------------------------------------------------------------------------------- C17
def _mod(a, i, v):
    a = np.array(a, dtype=float)
    a.reshape(-1)[i % a.size] = v
    return a


def violations(p, i, x):
    """(name, overrides) pairs, each breaking exactly one documented requirement; x in (0, 1), i index."""
    L, N, Q = p.NLayers, p.N, p.NQuad
    nan = float("nan")
    out = []
    add = lambda n, **k: out.append((n, k))
    j = i % L
    add("tau zero", tau_arr=_mod(p.tau, 0, 0.0))
    add("tau negative", tau_arr=-p.tau)
    add("tau first negative", tau_arr=_mod(p.tau, 0, -x))
    add("tau nan", tau_arr=_mod(p.tau, j, nan))
    if L > 1:
        k = 1 + i % (L - 1)
        add("tau repeated", tau_arr=_mod(p.tau, k, p.tau[k - 1]))
        add("tau decreasing", tau_arr=_mod(p.tau, k, p.tau[k - 1] * (1 - 0.5 * x)))
        add("tau reversed", tau_arr=p.tau[::-1].copy())
    add("omega negative", omega_arr=_mod(p.om, j, -1e-3 * x - 1e-300))
    add("omega one", omega_arr=_mod(p.om, j, 1.0))
    add("omega above one", omega_arr=_mod(p.om, j, 1.0 + x))
    add("omega nan", omega_arr=_mod(p.om, j, nan))
    add("NLeg zero", NLeg=0, NFourier=1)
    add("NLeg negative", NLeg=-1, NFourier=1)
    add("NLeg above supplied", NLeg=p.NLeg_all + 1 + i % 3)
    add("too few coefficients", Leg_coeffs_all=p.g[:, : p.NLeg - 1] if p.NLeg > 1 else np.zeros((L, 0)))
    add("coefficient rows", Leg_coeffs_all=np.vstack((p.g, p.g[:1])))
    if L > 1:
        add("coefficient rows", Leg_coeffs_all=p.g[:-1])
        add("omega length", omega_arr=p.om[:-1])
        add("f length", f_arr=np.full(L - 1, 0.1))
        add("source rows", s_poly_coeffs=np.ones((L - 1, 2)))
        add("source rows", s_poly_coeffs=np.ones((1, 3)))
    add("omega length", omega_arr=np.append(p.om, 0.5))
    add("tau length", tau_arr=np.append(p.tau, p.tau[-1] + 1))
    add("f length", f_arr=np.full(L + 1, 0.1))
    add("source rows", s_poly_coeffs=np.ones((L + 1, 2)))
    if p.NLeg_all > 1:
        c = j * p.NLeg_all + 1 + i % (p.NLeg_all - 1)
        for v in (1.0, -1.0, 1.0 + x, -1.0 - x, nan):
            add("coefficient range %g" % v, Leg_coeffs_all=_mod(p.g, c, v))
    wide = np.zeros((L, Q + 8))
    wide[:, 0] = 1
    add("streams odd", NQuad=Q + 1, NLeg=1, NFourier=1)
    add("streams one", NQuad=1, NLeg=1, NFourier=1)
    add("streams zero", NQuad=0, NLeg=1, NFourier=1)
    add("streams negative", NQuad=-2, NLeg=1, NFourier=1)
    add("NFourier zero", NFourier=0)
    add("NFourier negative", NFourier=-1)
    add("NFourier above NLeg", NFourier=p.NLeg + 1 + i % 2)
    add("NLeg above streams", NLeg=Q + 1 + i % 3, Leg_coeffs_all=wide, NFourier=1)
    add("I0 negative", I0=-x - 1e-6)
    if p.beam:
        for v in (0, -x, 1 + 1e-9 + x, nan):
            add("mu0 %g" % v, mu0=v)
        for v in (-x, 2 * np.pi, 2 * np.pi + x, nan):
            add("phi0 %g" % v, phi0=v)
    for key in ("b_pos", "b_neg"):
        add(key + " vector length", **{key: np.full(N + 1, 0.5)})
        if N > 2:
            add(key + " vector length", **{key: np.full(N - 1, 0.5)})
        add(key + " matrix", **{key: np.full((N, p.NF + 1), 0.5)})
        add(key + " matrix", **{key: np.full((N + 1, p.NF), 0.5)})
        if p.NF > 1:
            add(key + " matrix", **{key: np.full((N, p.NF - 1), 0.5)})
        if p.NF != N:
            add(key + " transposed", **{key: np.full((p.NF, N), 0.5)})
        add(key + " 3d", **{key: np.full((N, p.NF, 1), 0.5)})
    add("f negative", f_arr=_mod(np.full(L, 0.1), j, -x))
    add("f above one", f_arr=_mod(np.full(L, 0.1), j, 1 + x))
    add("f nan", f_arr=_mod(np.full(L, 0.1), j, nan))
    for v in (2, 1, 0, -5):
        add("threshold %d" % v, use_banded_solver_NLayers=v)
    if L == 1:  # the scalar and vector forms offered for a single layer
        for v in (0, 0.0, -x, -1, nan):
            add("tau scalar %g" % v, tau_arr=v)
        for v in (1, 1.0, 1.0 + x, -x, nan):
            add("omega scalar %g" % v, omega_arr=v)
        for v in (-x, 1.0 + x, nan):
            add("f scalar %g" % v, f_arr=v)
        if p.NLeg_all > 1:
            c = 1 + i % (p.NLeg_all - 1)
            for v in (1.0, -1.0 - x, nan):
                add("coefficient vector %g" % v, Leg_coeffs_all=_mod(p.g, c, v)[0])
        add("NLeg above supplied", Leg_coeffs_all=p.g[0], NLeg=p.NLeg_all + 1 + i % 3)
    add("NT beam on a stream", NT_cor=True, mu0=float(p.mup[i % N]), I0=1.0, phi0=0.0)
    return out


def boundary_valid(p, i, x):
    L, N, Q = p.NLayers, p.N, p.NQuad
    j = i % L
    out = []
    add = lambda n, **k: out.append((n, k))
    # (strong scattering without its delta-M fraction may be unstable with few streams)
    weak = _mod(p.om, j, 0.01)
    feeble = np.minimum(p.om, 0.05)
    fj = _mod(p.f, j, 0.0)
    add("omega zero", omega_arr=_mod(p.om, j, 0.0), f_arr=p.f)
    add("all omega zero", omega_arr=np.zeros(L))
    iso = p.g.copy()
    iso[j, 1:] = 0  # other phase functions may be unstable with few streams in the conservative limit
    add("omega close to one", omega_arr=_mod(p.om, j, 1 - 1e-5), Leg_coeffs_all=iso, f_arr=fj)
    if L == 1:
        add("scalar inputs", tau_arr=float(p.tau[0]), omega_arr=float(p.om[0]), Leg_coeffs_all=p.g[0], f_arr=float(p.f[0]))
    add("f zero", f_arr=np.zeros(L), omega_arr=feeble)
    add("f scalar zero", f_arr=0, omega_arr=feeble)
    add("f float zero", f_arr=0.0, omega_arr=feeble)
    add("f tiny", f_arr=np.full(L, 1e-12), omega_arr=feeble)
    if p.NLeg_all > 1:
        c = j * p.NLeg_all + 1 + i % (p.NLeg_all - 1)
        for v in (0.999999, -0.999999, 0.0):
            add("coefficient %g" % v, Leg_coeffs_all=_mod(p.g, c, v), omega_arr=weak, f_arr=fj)
    add("two streams", NQuad=2, NLeg=1, NFourier=1, b_pos=0.5, b_neg=0.5)
    add("one mode", NFourier=1, b_pos=0.5, b_neg=np.full((N, 1), 0.3))
    add("one coefficient", NLeg=1, NFourier=1, b_pos=0.5, b_neg=0)
    add("modes equal coefficients", NLeg=p.NLeg, NFourier=p.NLeg, b_pos=0.5, b_neg=0.25)
    add("threshold 3", use_banded_solver_NLayers=3)
    add("threshold large", use_banded_solver_NLayers=10**9)
    add("no beam, any mu0", I0=0, mu0=0, phi0=0, b_neg=1.0)
    add("no beam, mu0 out of range", I0=0, mu0=-2, phi0=-5, b_neg=1.0)
    add("integer I0", I0=1, mu0=0.37, phi0=0)
    if p.beam:
        add("mu0 one", mu0=1)
        add("mu0 one", mu0=1.0)
        add("mu0 small", mu0=0.01 + 0.02 * x)
        add("phi0 zero", phi0=0)
        add("phi0 below 2 pi", phi0=float(np.nextafter(2 * np.pi, 0)))
    for key in ("b_pos", "b_neg"):
        add(key + " scalar", **{key: 1})
        add(key + " vector", **{key: np.full(N, 0.5)})
        add(key + " matrix", **{key: np.full((N, p.NF), 0.01)})
        add(key + " zero vector", **{key: np.zeros(N)})
        add(key + " zero matrix", **{key: np.zeros((N, p.NF))})
        add(key + " one-element", **{key: np.array([0.7])})
    add("source zero", s_poly_coeffs=np.zeros((L, 3)))
    add("source one column", s_poly_coeffs=np.ones((L, 1)))
    add("zeroth coefficient corrected", Leg_coeffs_all=_mod(p.g, j * p.NLeg_all, 0.5), f_arr=0, omega_arr=feeble)
    add("BDRF empty", BDRF_Fourier_modes=[])
    add("BDRF scalar zero", BDRF_Fourier_modes=[0])
    add("BDRF one", BDRF_Fourier_modes=[1])
    return out


HELPER_BAD = [
    ("interpolation of another function", lambda S, x: S.interpolate(lambda a, b=0: np.full((4, 2), x))),
    ("Clenshaw_Curtis even", lambda S, x: S.Clenshaw_Curtis_quad(2 * int(1 + 20 * x))),
    ("Clenshaw_Curtis one", lambda S, x: S.Clenshaw_Curtis_quad(1)),
    ("Clenshaw_Curtis zero", lambda S, x: S.Clenshaw_Curtis_quad(0)),
    ("Clenshaw_Curtis negative", lambda S, x: S.Clenshaw_Curtis_quad(-3)),
    ("spline one point", lambda S, x: S.linear_spline_coefficients(np.array([x]), np.array([x]))),
    ("spline lengths", lambda S, x: S.linear_spline_coefficients(np.array([0.0, x + 1e-3, 2]), np.array([0.0, 1.0]))),
    ("spline unsorted", lambda S, x: S.linear_spline_coefficients(np.array([0.0, 2.0, 1.0]), np.array([0.0, 1.0, 2.0]))),
    ("spline repeated", lambda S, x: S.linear_spline_coefficients(np.array([0.0, 1.0, 1.0]), np.array([0.0, 1.0, 2.0]))),
    ("spline last pair", lambda S, x: S.linear_spline_coefficients(np.array([0.0, 1.0, 2.0, 2.0 - x]), np.array([0.0, 1.0, 2.0, 3.0]))),
    ("spline first pair", lambda S, x: S.linear_spline_coefficients(np.array([1.0 + x, 1.0, 2.0, 3.0]), np.array([0.0, 1.0, 2.0, 3.0]))),
    ("affine zero scale", lambda S, x: S.affine_transform_poly_coeffs(np.ones((3, 2)), _mod([1.0, 2.0, 3.0], int(x * 3), 0.0), np.ones(3))),
    ("affine zero scale", lambda S, x: S.affine_transform_poly_coeffs(np.ones((1, 2)), np.array([0.0]), np.array([x]))),
    ("temperatures", lambda S, x: S.generate_s_poly_coeffs(np.array([1.0, 2.0]), np.array([300.0, 200.0]), 10, 20)),
    ("temperatures", lambda S, x: S.generate_s_poly_coeffs(np.array([1.0, 2.0]), np.full(4, 250.0), 10, 20)),
    ("temperatures", lambda S, x: S.generate_s_poly_coeffs(1.0, np.full(3, 250.0), 10, 20)),
]


class C17(Prop):
    rule = ("random valid problem; up to 4 random single violations of a documented requirement (at a random layer, coefficient or magnitude), "
            "in intensity, fluxes-only and autograd configurations, must raise ValueError; random boundary-valid variations and depths "
            "must be accepted with finite fluxes; non-trivial = always")
    quick = 4500
    thorough = 80000

    def strategy(self):
        return case_of(spec=gen.problems(nquads=(2, 4, 6, 8), layers=(1, 11), max_work=40, max_om=0.99), pick=st.lists(st.integers(0, 10**4), min_size=2, max_size=4),
                       ok=st.lists(st.integers(0, 10**4), min_size=1, max_size=2), i=st.integers(0, 40), x=fl(0.001, 1), mode=st.sampled_from(["", "", "of", "ag", "nt"]),
                       h=st.integers(0, 200))

    def check(self, case):
        spec = dict(case["spec"])
        for k in ("bpos", "bneg"):
            if spec[k]["k"] == "m":
                spec[k] = {"k": "v", "v": spec[k]["v"][0]}
        p = prep({"spec": spec}, nt=True)
        base = core.kwargs_of(p)
        mode = {"": {}, "of": {"only_flux": True}, "ag": {"autograd_compatible": True}, "nt": {"NT_cor": True}}[case["mode"]]
        # the scaled coefficients of the (valid) variants must stay physical: use no delta-M in them
        vs = violations(p, case["i"], case["x"])
        for k in case["pick"]:
            name, over = vs[k % len(vs)]
            label("bad:" + name.split(" ")[0])
            if case["mode"] == "of" and (name.startswith("NFourier") or name.startswith("NT ") or name.endswith("matrix") or name.endswith("transposed")):
                continue  # these do not apply to the fluxes-only solver
            if case["mode"] in ("of",) and name in ("NLeg above streams",):
                pass
            kw = dict(base, **mode)
            kw.update(over)
            if "NLeg" in over and "NFourier" not in over:
                kw["NFourier"] = 1
            pos = [kw.pop(z) for z in ("tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0")]
            try:
                with np.errstate(all="ignore"):
                    pydisort(*pos, **kw)
            except np.linalg.LinAlgError as e:
                raise Violation("%s: rejected only by a failure inside the linear algebra (%s)" % (name, e))
            except ValueError:
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation("%s: raised %s instead of ValueError" % (name, type(e).__name__))
            raise Violation("invalid input accepted: %s" % name)
        oks = boundary_valid(p, case["i"], case["x"])
        for k in case["ok"]:
            name, over = oks[k % len(oks)]
            label("ok:" + name.split(" ")[0])
            if case["mode"] == "of" and ("matrix" in name or "b_neg" in over and np.ndim(over["b_neg"]) == 2):
                continue
            if case["mode"] == "nt" and name.startswith("two streams") and abs(p.mu0 - 0.5) < 1e-3:
                continue
            kw = dict(over)
            if "f_arr" not in kw and "omega_arr" in kw:
                kw["f_arr"] = 0
            s = Sol(p, "pydisort (%s)" % name, **dict(mode, **kw))
            N = s.N
            t = np.array([0.0, float(p.tau[-1])])
            Fp, Fm = call("Fp", s.Fp_, t), call("Fm", s.Fm_, t)
            arr(Fp, name + ": Fp", (2,))
            arr(Fm[0], name + ": Fm", (2,))
            if name == "zeroth coefficient corrected":
                # documented: the coefficient is corrected to one (and the caller's array is left alone)
                r = Sol(p, **dict(mode, f_arr=0, omega_arr=kw["omega_arr"]))
                close("zeroth coefficient", np.concatenate((Fp, Fm[0])), np.concatenate((call("Fp", r.Fp_, t), call("Fm", r.Fm_, t)[0])), 1e-9,
                      np.max(np.abs(Fp)) + np.max(np.abs(Fm[0])) + 1e-3 * p.mag)
        # evaluation depths
        s = Sol(p, **mode)
        top, bot = 0.0, float(p.tau[-1])
        fs = [("Fp", s.Fp_), ("Fm", s.Fm_), ("u0", s.u0_)] + [("actinic", f) for f in s.actinic()]
        if s.u_ is not None:
            fs.append(("u", lambda t, *a: s.u_(t, 0.5, *a)))
            fi = call("interpolate", core.sub.interpolate, s.u_)
            fs.append(("interpolated u", lambda t, *a: fi(0.4, t, 0.5, *a)))
        name, f = fs[case["i"] % len(fs)]
        for anti in ((), (True,)):
            for good in (top, bot, np.array([bot, top, bot / 2]), p.tau.copy(), float(np.nextafter(bot, 0)), 5e-324):
                call("%s at depth %s" % (name, good), f, good, *anti)
            for bad in (-5e-324, -case["x"], float(np.nextafter(bot, np.inf)), bot * (1 + case["x"]), np.inf, -np.inf):
                mid = np.linspace(0, bot, 3 + case["i"] % 9)
                mid[1 + case["i"] // 9 % (len(mid) - 2)] = bad
                for v in (bad, np.array([bot / 2, bad]), np.array([bad, 0.0, bot]), mid):
                    try:
                        f(v, *anti)
                    except ValueError:
                        continue
                    except Exception as e:  # noqa: BLE001
                        raise Violation("%s at depth %s raised %s instead of ValueError" % (name, v, type(e).__name__))
                    raise Violation("%s accepted depth %s outside [0, %s]" % (name, v, bot))
        name, f = HELPER_BAD[case["h"] % len(HELPER_BAD)]
        try:
            f(core.sub, case["x"])
        except ValueError:
            return True
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: raised %s instead of ValueError" % (name, type(e).__name__))
        raise Violation("invalid helper input accepted: %s" % name)
