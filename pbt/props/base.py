import copy
import numpy as np
from hypothesis import strategies as st
from .. import core, gen, ref
from ..core import Violation, Sol, close, arr, call, sub, pydisort, label
from ..gen import fl, logu


class Prop:
    rule = ""
    quick = 400
    thorough = 8000
    assumptions = ["numpy/scipy linear algebra and leggauss are trusted", "tolerances as stated in DESIGN.md"]

    def strategy(self):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def examples(self, shard, n):
        return []


def prep(case, nt=False, **kw):
    spec, kmin, kmax, resdist = gen.normalise(case["spec"], nt=nt, **kw)
    p = ref.Problem(spec)
    p.kmin, p.kmax = kmin, kmax
    p.resdist = resdist
    p.mag = magnitude(p)
    core.classify(p, nt)
    return p


def nears():
    return st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 7), st.booleans(), st.one_of(logu(-7, -1), logu(-16, -5)), st.booleans()))


def near_angle(p, near):
    """Move the beam almost onto a quadrature angle, where the single-scattering integrals degenerate, or its effective
    direction in the secondary-scattering correction onto one."""
    if not near or not p.beam:
        return p
    i, sign, d, second = near
    c = 1 - np.sum(p.f * p.om * p.th) / np.sum(p.th) if second else 1.0
    mu0 = float(p.mup[i % p.N] * c * (1 + (d if sign else -d)))
    if not 0 < mu0 <= 1:
        return p
    spec, kmin, kmax, dist = gen.normalise(dict(p.spec, mu0=mu0), nudge=False)
    if dist <= 1e-4 or np.min(np.abs(p.mup - mu0)) <= 2e-8:
        return p
    q = ref.Problem(spec)
    q.kmin, q.kmax, q.resdist = kmin, kmax, dist
    q.mag = magnitude(q)
    return q


def resonances():
    return st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 40), st.integers(0, 7), st.integers(0, 31), st.booleans(),
                                                                st.one_of(st.just(0.0), logu(-16, -4))))


def resonant(p, r):
    """Move the beam onto, or very close to, a direction where 1/mu0 is an eigenvalue of some layer and azimuthal mode: the
    particular solution is singular there, the field is not."""
    if not r or not p.beam:
        return p
    l, m, i, sign, d = r
    if p.NQuad == 2 and d == 0:
        # round numbers for which this happens exactly: two streams, isotropic scattering
        spec = copy.deepcopy(p.spec)
        om, mu0 = ((0.75, 1.0), (0.36, 0.625), (0.19, 0.5 / 0.9), (0.51, 0.5 / 0.7))[i % 4]
        spec["layers"][l % p.NLayers].update(om=om, ph={"k": "iso"}, f=0)
        spec.update(mu0=mu0)
        spec, kmin, kmax, dist = gen.normalise(spec, nudge=False)
        q = ref.Problem(spec)
        q.kmin, q.kmax, q.resdist = kmin, kmax, max(dist, 1e-8)
        q.mag = magnitude(q)
        return q
    k = np.sqrt(p.k2_eigs(m % p.NF, l % p.NLayers))
    k = k[k > 1]
    if not len(k):
        return p
    mu0 = float(1 / k[i % len(k)])
    mu0 = min(mu0 * (1 + (d if sign else -d)), 1.0)
    spec, kmin, kmax, dist = gen.normalise(dict(p.spec, mu0=mu0), nudge=False)
    q = ref.Problem(spec)
    q.kmin, q.kmax, q.resdist = kmin, kmax, max(dist, 1e-8)
    q.mag = magnitude(q)
    return q


def pick_layers(p, idx, k=3):
    """Layers to look at: first, last, and some chosen by the case."""
    s = [0, p.NLayers - 1] + [int(i) % p.NLayers for i in idx]
    out = []
    for l in s:
        if l not in out:
            out.append(l)
    return out[:k]


def inside(p, l):
    """Closed interval of depths that the code attributes to layer l."""
    a = 0.0 if l == 0 else float(np.nextafter(p.tau[l - 1], np.inf))
    return a, float(p.tau[l])


def short(p):
    """Shortest length scale (optical depth) on which outputs vary."""
    return min(p.mup[0], 1 / p.kmax, p.mu0 if p.beam else 1.0)


def beam_at(p, t, l=None):
    """Scaled direct beam intensity (of the delta-M scaled problem)."""
    if not p.beam:
        return np.zeros(np.shape(t))
    return p.I0 * np.exp(-p.scaled(t, l) / p.mu0)


def fracs(n=6):
    return st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), fl(0, 1)), min_size=1, max_size=n)


def idxs():
    return st.lists(st.integers(0, 30), min_size=1, max_size=2)


def case_of(**kw):
    return st.fixed_dictionaries(kw)


def amp(p):
    """Conditioning allowance: eigenvalues squared are only known to ~eps*kmax^2 absolutely."""
    r = (p.kmax / p.kmin) ** 2
    return 1.0 + (1e-9 if r < 1e7 else 1e-7) * r


def magnitude(p):
    """Magnitude of the terms that the solution is assembled from (they may cancel almost entirely, e.g. in
    a very thin layer): rounding errors are proportional to this, not to the field. Used for absolute floors."""
    v = np.max(np.abs(p.bval("bpos"))) + np.max(np.abs(p.bval("bneg")))
    if p.beam:
        v += p.I0 * (1 + 0.01 / max(p.resdist, 1e-9))
    if p.s is not None:
        n = np.arange(p.s.shape[1])
        fact = np.array([float(np.prod(np.arange(1, k + 1))) for k in n])
        v += np.max(np.abs(p.s) @ (fact / p.kmin**n)) + np.max(np.abs(p.s) * p.tau[:, None] ** n)
    return float(v)
