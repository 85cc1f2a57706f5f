"""Hypothesis strategies for problem specs (plain JSON-able dicts), and their normalisation."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from . import ref

PI = math.pi


def fl(a, b):
    """Floats in [a, b] with at most 6 decimals (no denormals; readable replay files)."""
    return st.floats(a, b, allow_nan=False, allow_infinity=False).map(lambda x: min(max(round(x, 6), a), b) + 0.0)


def logu(lo, hi):
    """10**u with u in [lo, hi]; shrinks towards 1 if it is in range."""
    return fl(lo, hi).map(lambda u: float("%.6g" % 10.0**u))


def omegas(max_om=0.999, cons=False):
    if cons:  # close to conservative scattering
        return st.one_of(fl(3, 9).map(lambda e: float(1 - 10.0**-e)), fl(3, 9).map(lambda e: float(1 - 10.0**-e)), fl(0.05, 0.999))
    return st.one_of(
        st.sampled_from([0.5, 0.9, 0.0]),
        fl(0.05, 0.95),
        fl(0.0, min(0.99, max_om)),
        logu(-9, -2),
        fl(2, 4).map(lambda e: min(max_om, float(1 - 10.0**-e))),
    )


def phases(kinds=None):
    allk = {
        "iso": st.just({"k": "iso"}),
        "hg": fl(-0.6, 0.85).map(lambda g: {"k": "hg", "g": g}),
        "hgp": fl(0.3, 0.9).map(lambda g: {"k": "hg", "g": g}),
        "ray": st.just({"k": "ray"}),
        "mix": st.tuples(fl(0.0, 1.0), fl(0.0, 0.85), fl(-0.6, 0.6)).map(
            lambda t: {"k": "mix", "a": t[0], "g1": t[1], "g2": t[2]}
        ),
        "dec": st.tuples(st.lists(fl(-0.9, 0.9), min_size=1, max_size=4), fl(0.3, 0.85)).map(
            lambda t: {"k": "dec", "c": t[0], "r": t[1]}
        ),
    }
    return st.one_of([allk[k] for k in (kinds or ["iso", "hg", "hgp", "ray", "mix", "dec"])])


def thicknesses(mode="any"):
    if mode == "moderate":
        return st.one_of(st.sampled_from([1.0, 0.5, 0.1]), logu(-2, 0.6))
    return st.one_of(
        st.sampled_from([1.0, 0.5, 2.0, 0.25]),
        logu(-2, 0.7),
        logu(-2, 0.7),
        logu(-6, -2),
        logu(0.7, 2.2),
    )


def nlayers(lo=1, hi=25):
    pool = [1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25]
    pool = [n for n in pool if lo <= n <= hi] or [lo]
    return st.sampled_from(pool)


def bc(N_hint, mode):
    """mode: 'zero' | 'scalar' | 'any' (also vectors and per-mode matrices)"""
    if mode == "zero":
        return st.just({"k": "s", "v": 0})
    z = st.just({"k": "s", "v": 0})
    s = st.one_of(st.sampled_from([1, 0.5]), logu(-3, 2)).map(lambda v: {"k": "s", "v": v})
    if mode == "scalar":
        return st.one_of(z, s, s)
    vec = st.lists(fl(0, 3), min_size=1, max_size=5).filter(lambda v: max(v) > 0).map(lambda v: {"k": "v", "v": v})
    mat = st.tuples(
        st.lists(fl(0.1, 3), min_size=1, max_size=4),
        st.lists(st.lists(fl(-2, 2), min_size=1, max_size=3), min_size=1, max_size=4),
        fl(0.3, 0.9),
    ).map(lambda t: {"k": "m", "v": [t[0]] + t[1], "decay": t[2]})
    return st.one_of(z, s, vec, mat) if mode == "any" else st.one_of(vec, mat)


def bdrfs(mode):
    """mode: 'none' | 'any' | 'yes' | 'lambert'"""
    if mode == "none":
        return st.just([])
    sc = fl(0.0, 0.95).map(lambda v: {"k": "s", "v": v})
    fn = st.tuples(fl(0, 0.3), fl(0, 0.2), fl(0, 0.2), fl(0, 0.2)).map(lambda v: {"k": "f", "v": list(v)})
    hi = st.one_of(
        fl(-0.2, 0.2).map(lambda v: {"k": "s", "v": v}),
        st.tuples(fl(-0.1, 0.1), fl(-0.1, 0.1), fl(-0.1, 0.1), fl(-0.1, 0.1)).map(lambda v: {"k": "f", "v": list(v)}),
    )
    if mode == "lambert":
        return sc.map(lambda x: [x])
    one = st.one_of(sc, fn).map(lambda x: [x])
    many = st.tuples(st.one_of(sc, fn), st.lists(hi, min_size=0, max_size=8)).map(lambda t: [t[0]] + t[1])
    return st.one_of(one, many) if mode == "yes" else st.one_of(st.just([]), st.just([]), one, many)


@st.composite
def problems(
    draw,
    layers=(1, 25),
    nquads=(2, 4, 4, 6, 8, 8, 10, 12, 16),
    beam="any",  # 'any' | 'yes' | 'no'
    thermal="any",
    bcs="any",
    bdrf="any",
    deltaM="any",
    trunc="any",  # NLeg < NQuad and NFourier < NLeg ?
    extra="any",  # NLeg_all > NLeg ?
    thick="any",
    max_om=0.999,
    max_ns=8,
    kinds=None,
    need_source=True,
    mu0s=None,
    max_work=None,
    ag=True,  # sometimes with automatic-differentiation support (changes no value)
    cons="any",  # sometimes albedos up to 1 - 1e-9
    signed=True,  # internal sources that decrease with depth or are negative
):
    NQ = draw(st.sampled_from(list(nquads)))
    nL = draw(nlayers(*layers))
    if max(nquads) >= 12 and draw(st.integers(0, 39)) == 39:  # now and then many streams
        NQ = draw(st.sampled_from([20, 24, 32, 40]))
        nL = draw(st.integers(layers[0], max(layers[0], min(layers[1], 2))))
        max_work = 1000
    elif layers[1] >= 9 and draw(st.integers(0, 39)) == 39:  # now and then many layers
        nL = draw(st.sampled_from([26, 30, 37, 50, 64]))
        NQ = draw(st.sampled_from([q for q in (2, 2, 4) if q in nquads] or [min(nquads)]))
        max_work = 400
    # keep the work per case bounded: large stacks come with fewer streams
    while nL * NQ > (max_work or 200) and NQ > 2:
        NQ -= 2
    NLeg = NF = None
    if trunc == "any" and draw(st.sampled_from([False, False, True])):
        NLeg = draw(st.integers(1, NQ))
        NF = draw(st.integers(1, NLeg))
    elif trunc == "any" and draw(st.sampled_from([False, False, False, True])):
        NF = draw(st.integers(1, NQ))
    if NLeg == NQ:
        NLeg = None
    if NLeg is not None and NF is None:
        NF = NLeg
    ext = 0
    if extra == "yes":
        ext = draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.sampled_from([30, 48, 100, 250])))
    elif extra == "any":
        ext = draw(st.sampled_from([0, 0, 1, 7, 20]))
    npal = draw(st.integers(1, min(3, nL)))
    has_s = thermal == "yes" or (thermal == "any" and draw(st.sampled_from([False, True, False])))
    ns = draw(st.sampled_from([n for n in (1, 2, 2, 3, 4, 5, 6, 8) if n <= max_ns])) if has_s else 0
    # increasing, decreasing (but non-negative), nearly constant, or arbitrary source polynomials
    skind = draw(st.sampled_from(["inc", "inc", "dec", "flat"] + (["any"] if signed else []))) if has_s else ""
    if cons == "any":
        cons = max_om >= 0.999 and draw(st.integers(0, 9)) == 9
    has_f = deltaM == "yes" or (deltaM == "any" and draw(st.booleans()))
    pal = []
    for _ in range(npal):
        lay = {"om": draw(omegas(max_om, cons)), "ph": draw(phases(kinds))}
        if has_f:
            lay["f"] = draw(st.one_of(st.just("g"), fl(0.0, 0.6), st.just(0)))
        pal.append(lay)
    if npal > 1 and draw(st.integers(0, 5)) == 5:
        # almost the same optical properties as the first: only one of albedo, one coefficient, fraction differs
        what = draw(st.sampled_from(["om", "ph", "ph", "f"] if has_f else ["om", "ph", "ph"]))
        pal[1] = dict(pal[0])
        if what == "om":
            pal[1]["om"] = draw(omegas(max_om, cons))
        elif what == "ph":
            pal[1]["ph"] = dict(pal[0]["ph"], tw=[draw(st.integers(0, 9)), draw(fl(-0.3, 0.3))])
        else:
            pal[1]["f"] = draw(st.one_of(st.just("g"), fl(0.0, 0.6), st.just(0)))
    if deltaM == "yes" and all(x["om"] == 0 or x["f"] == 0 for x in pal):
        pal[0]["om"] = 0.8
        pal[0]["f"] = 0.2
    ls = []
    for i in range(nL):
        j = draw(st.integers(0, npal - 1)) if (npal > 1 and i >= npal) else min(i, npal - 1)
        lay = dict(pal[j])
        lay["th"] = draw(thicknesses(thick))
        if has_s:
            if nL <= 4 or i < 4:
                c = draw(st.lists(fl(-2, 2) if skind == "any" else fl(0, 2), min_size=1, max_size=ns))
                if skind == "dec":
                    c = [float("%.6g" % (c[0] + sum(c[1:])))] + [-x for x in c[1:]]
                elif skind == "flat":
                    c = [c[0]] + [float("%.6g" % (1e-4 * (x - 1) * c[0])) for x in c[1:]]
                lay["s"] = c
            else:
                lay["s"] = ls[i - 4]["s"]
        ls.append(lay)
    # special structure: equal thicknesses, the same source everywhere, layers without source
    special = draw(st.integers(0, 11))
    if special in (9, 11) and nL > 1:
        for x in ls:
            x["th"] = ls[0]["th"]
    if has_s and special in (8, 9):
        for x in ls:
            x["s"] = ls[0]["s"]
    elif has_s and special in (7, 10):
        k = draw(st.integers(1, 2 ** min(nL, 8) - 1))
        for i, x in enumerate(ls):
            if not (k >> (i % 8)) & 1:
                x["s"] = [0.0]
    if has_s and not any(any(c != 0 for c in x["s"]) for x in ls):
        ls[0]["s"] = [1.0]
    has_beam = beam == "yes" or (beam == "any" and draw(st.sampled_from([True, True, False])))
    bp = draw(bc(NQ // 2, bcs))
    bn = dict(bp) if special in (6, 8) else draw(bc(NQ // 2, bcs))
    if need_source and not has_beam and not has_s and bcs == "zero":
        has_beam = True
    if has_beam:
        mu0 = draw(mu0s if mu0s is not None else st.one_of(st.sampled_from([0.6, 1.0, 0.1, 0.002, 0.99999999]), fl(0.01, 1.0), fl(0.3, 0.99)))
        I0 = draw(st.one_of(st.sampled_from([1, PI, 1.0, 100]), logu(-3, 3)))
        phi0 = draw(st.one_of(st.sampled_from([0.0, PI, 1.0]), fl(0.0, 6.28)))
    else:
        mu0, I0, phi0 = draw(st.sampled_from([(0, 0, 0), (0.53, 0, 0.3)]))
        if need_source and not has_s and bp["v"] == 0 and bn["v"] == 0:
            bn = {"k": "s", "v": 1.0}
    spec = {
        "NQuad": NQ,
        "layers": ls,
        "mu0": mu0,
        "I0": I0,
        "phi0": phi0,
        "bpos": bp,
        "bneg": bn,
        "bdrf": draw(bdrfs(bdrf)),
        "extra": ext,
        "ns": ns,
        "thr": draw(st.sampled_from([10, 10, 3, 4, 100])),
    }
    if NLeg is not None:
        spec["NLeg"] = NLeg
    if NF is not None:
        spec["NF"] = NF
    if ag and draw(st.integers(0, 7)) == 7:
        spec["ag"] = True
    return spec


def unique_layers(p):
    """Representative layer indices with distinct (omega, g, f)."""
    seen = {}
    for l in range(p.NLayers):
        key = (p.om[l], p.f[l], p.g[l].tobytes())
        seen.setdefault(key, l)
    return list(seen.values())


def normalise(spec, nt=False, nudge=True, res=1e-4):
    """Deterministically map a drawn spec into the numerically sound domain.

    * phase functions are damped until every mode is positive definite (real, positive eigenvalues),
    * mu0 is moved off resonances 1/mu0 = eigenvalue (and off quadrature angles if corrections are on),
    * the length scale of polynomial sources is at least the diffusion length (see DESIGN.md).
    """
    spec = copy.deepcopy(spec)
    for _ in range(12):
        p = ref.Problem(spec)
        bad = None
        ks = []
        for l in unique_layers(p):
            for m in range(p.NF):
                e = p.k2_eigs(m, l)
                if e is None or e[0] <= 0:
                    bad = l
                    break
                ks.append(np.sqrt(e))
            if bad is not None:
                break
        if bad is None:
            break
        for lay in spec["layers"]:
            lay["ph"] = dict(lay["ph"], damp=lay["ph"].get("damp", 1.0) * 0.8)
    ks = np.concatenate(ks)
    spec["H"] = max(float(p.tau[-1]), 0.3 / float(ks.min()))
    if spec["I0"] > 0 and nudge:
        mu0 = float(spec["mu0"])
        for i in range(60):
            ok = np.min(np.abs(ks * mu0 - 1)) > res
            if nt:
                ok = ok and np.min(np.abs(p.mup - mu0)) > 1e-3
            if ok:
                break
            mu0 = mu0 * 0.993 if mu0 > 0.1 else mu0 * 1.017
        if mu0 != spec["mu0"]:
            spec["mu0"] = mu0
    resdist = float(np.min(np.abs(ks * float(spec["mu0"]) - 1))) if spec["I0"] > 0 else 1.0
    return spec, float(ks.min()), float(ks.max()), resdist
