import copy
import contextlib
import io
import os
import random
import sys
import warnings
import numpy as np
from .base import *
from .p1 import all_outputs
from .p2 import only_flux_kw

# ------------------------------------------------------------------------------------------------- C33
HELPERS = ("transform_interval", "transform_weights", "calculate_nu", "prepend", "affine_transform_poly_coeffs", "linear_spline_coefficients", "generate_s_poly_coeffs",
           "Planck", "blackbody_contrib_to_BCs", "to_diag_ordered_form", "generate_emissivity_from_BDRF", "cache_BDRF_Fourier_modes", "Gauss_Legendre_quad",
           "Clenshaw_Curtis_quad", "generate_FD_mat", "atleast_2d_append")


def freeze(x):
    """A deep description of an argument, for exact comparison."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x)) + tuple(freeze(v) for v in x)
    if callable(x):
        return ("callable", id(x))
    return (type(x).__name__, repr(x))


def state():
    r = np.random.get_state()
    return {
        "NumPy error handling": dict(np.geterr()),
        "NumPy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warning filters": [repr(f) for f in warnings.filters],
        "NumPy random generator": (r[0], r[1].tobytes(), r[2:]),
        "random generator": random.getstate(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "module search path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "warnings.showwarning": warnings.showwarning,
        "standard output": sys.stdout,
    }


class C33(Prop):
    rule = ("random problem solved and evaluated (all outputs, interpolators, actinic fluxes) and random helper calls, in a randomly set process state (NumPy error handling and print "
            "options, warning filters, random seeds): every argument compared byte by byte and the process state compared before and after each call, nothing printed; results equal to those "
            "in a second, different process state; non-trivial = at least a solve with array-valued inputs or two helper calls")
    quick = 3000
    thorough = 40000

    def strategy(self):
        a = gen.problems(nquads=(2, 4, 6, 8), layers=(1, 12), max_work=60)
        b = gen.problems(beam="yes", deltaM="yes", extra="yes", nquads=(4, 6), layers=(1, 5), max_work=30)
        env = st.fixed_dictionaries({"err": st.lists(st.sampled_from(["ignore", "warn"]), min_size=4, max_size=4), "prec": st.integers(1, 12), "thr": st.sampled_from([2, 1000]),
                                     "seed": st.integers(0, 10**6), "filt": st.sampled_from(["ignore", "always", "once"])})
        return case_of(spec=st.one_of(a, a, b), nt=st.booleans(), of=st.sampled_from([False, False, False, True]), fr=fracs(3), phi=st.lists(fl(-7, 7), min_size=1, max_size=3),
                       zeroth=st.sampled_from([None, 0.5, None, 1.5]), help=st.lists(st.tuples(st.sampled_from(HELPERS), st.integers(0, 10**6)), min_size=0, max_size=5), env=st.tuples(env, env))

    @contextlib.contextmanager
    def process(self, e):
        """Set the process-wide state, and restore the checker's own afterwards."""
        err, po, rs, pr = np.geterr(), np.get_printoptions(), np.random.get_state(), random.getstate()
        environ, cwd, path = dict(os.environ), os.getcwd(), list(sys.path)
        out, old, old_e = io.StringIO(), sys.stdout, sys.stderr
        with warnings.catch_warnings():
            warnings.simplefilter(e["filt"])
            warnings.showwarning = lambda *a, **k: None
            try:
                np.seterr(**dict(zip(("divide", "over", "under", "invalid"), e["err"])))
                np.set_printoptions(precision=e["prec"], threshold=e["thr"])
                np.random.seed(e["seed"])
                random.seed(e["seed"])
                sys.stdout = out
                yield out
            finally:
                sys.stdout, sys.stderr = old, old_e
                np.seterr(**err)
                np.set_printoptions(**{k: v for k, v in po.items() if k != "override_repr"})
                np.random.set_state(rs)
                random.setstate(pr)
                for k in set(os.environ) - set(environ):
                    del os.environ[k]
                os.environ.update(environ)
                os.chdir(cwd)
                sys.path[:] = path

    def tracked(self, out, what, fn, *a, **k):
        args = [("argument %d" % i, v) for i, v in enumerate(a)] + list(k.items())
        before = [freeze(v) for _, v in args]
        s = state()
        try:
            y = fn(*a, **k)
        except (MemoryError, RecursionError):
            raise
        except Exception as x:  # noqa: BLE001
            raise Violation("%s raised %s: %s on valid input" % (what, type(x).__name__, str(x)[:300]))
        for (name, v), b in zip(args, before):
            if freeze(v) != b:
                raise Violation("%s modified its %s" % (what, name))
        s2 = state()
        for key in s:
            if s[key] != s2[key]:
                if what == "interpolate" and key == "NumPy random generator":
                    continue  # scipy's interpolator draws a random order of its nodes
                raise Violation("%s changed the process-wide state: %s" % (what, key))
        if out.getvalue():
            raise Violation("%s printed %r" % (what, out.getvalue()[:80]))
        return y

    def solve(self, out, p, case, kw):
        kw = dict(core.kwargs_of(p), **kw)
        if case.get("zeroth") is not None:  # corrected, with a warning
            kw["Leg_coeffs_all"][-1, 0] = case["zeroth"]
        pos = [kw.pop(k) for k in ("tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0")]
        args = freeze(pos), {k: freeze(v) for k, v in kw.items()}
        f = self.tracked(out, "pydisort", pydisort, *pos, **kw)
        t = core.taus(p, case["fr"], 6)
        phi = np.array(case["phi"])
        mu = np.array([0.9, -0.3])
        act = self.tracked(out, "generate_diff_act_flux_funcs", sub.generate_diff_act_flux_funcs, f[3])
        res = [("mu", f[0])]
        for anti in (False, True):
            res.append(("Fp", self.tracked(out, "Fp", f[1], t, anti)))
            for i, y in enumerate(self.tracked(out, "Fm", f[2], t, anti)):
                res.append(("Fm %d" % i, y))
            res.append(("u0", self.tracked(out, "u0", f[3], t, is_antiderivative_wrt_tau=anti)))
            res.append(("actinic up", self.tracked(out, "actinic up", act[0], t, anti)))
            res.append(("actinic down", self.tracked(out, "actinic down", act[1], t, anti)))
            if len(f) == 5:
                res.append(("u", self.tracked(out, "u", f[4], t, phi, anti)))
                res.append(("convergence", self.tracked(out, "u", f[4], t, phi, anti, True)[1]))
                g = self.tracked(out, "interpolate", sub.interpolate, f[4])
                res.append(("interpolated u", self.tracked(out, "interpolated u", g, mu, t, phi, anti)))
        g = self.tracked(out, "interpolate", sub.interpolate, f[3])
        res.append(("interpolated u0", self.tracked(out, "interpolated u0", g, mu, t)))
        if args != (freeze(pos), {k: freeze(v) for k, v in kw.items()}):
            raise Violation("evaluating the outputs modified the arguments of pydisort")
        return [(n, np.array(y, dtype=float)) for n, y in res]

    def helper(self, out, name, seed):
        rs = np.random.RandomState(seed)
        n = rs.randint(2, 7)
        x, y = np.sort(rs.uniform(0.1, 3, n)), rs.uniform(0.1, 1, n)
        T = rs.uniform(150, 320, n)
        f = getattr(sub, name)
        a = {
            "transform_interval": (x, 0.0, 2.0, -1, (1.5, 1.0)[seed % 2]), "transform_weights": (x, 0.0, 2.0, -1, (1.5, 1.0)[seed % 2]),
            "calculate_nu": (y, x, -y, x[::-1]), "prepend": (x, n, 0.3), "affine_transform_poly_coeffs": (rs.uniform(-1, 1, (n, 3)), y, x),
            "linear_spline_coefficients": (x, y), "generate_s_poly_coeffs": (x, np.append(T, 200.0), 300.0, 900.0), "Planck": (T * (rs.uniform(size=n) < 0.7), 500.0),
            "blackbody_contrib_to_BCs": (T, 300.0, 700.0), "to_diag_ordered_form": (np.triu(np.tril(rs.uniform(size=(n, n)), 1), -1), 1, 1),
            "generate_emissivity_from_BDRF": (n, lambda mu, mup: 0.1 + 0.2 * np.outer(mu, mup)),
            "cache_BDRF_Fourier_modes": (n, [0.1, lambda mu, mup: 0.1 + 0.2 * np.outer(mu, mup)]) + ((0.4,) if seed % 2 else ()),
            "Gauss_Legendre_quad": (n, -0.5, 1.0), "Clenshaw_Curtis_quad": (2 * n + 1, -0.5, 1.0), "generate_FD_mat": (n + 3, 0.0, 1.0), "atleast_2d_append": (x, rs.uniform(size=(2, 3))),
        }[name]
        z = self.tracked(out, name, f, *a)
        if name == "cache_BDRF_Fourier_modes":
            mu = ref.half_gauss(n)[0]
            z = [self.tracked(out, "cached mode", g, mu, v) for g in z for v in (mu, np.array([0.4]))]
        if name == "generate_FD_mat":
            z = (z[0], z[1].toarray())
        return [(name, np.array(v, dtype=float)) for v in (z if isinstance(z, (tuple, list)) else [z])]

    def check(self, case):
        p = prep(case, nt=case["nt"])
        kw = {}
        if case["nt"]:
            kw["NT_cor"] = True
            if not p.beam:
                kw["mu0"] = 0.0
        if case["of"]:
            kw.update(only_flux_kw(p))
        res = []
        for e in case["env"]:
            with self.process(e) as out:
                r = self.solve(out, p, case, kw)
                for name, seed in case["help"]:
                    r += self.helper(out, name, seed)
                res.append(r)
        for name, _ in case["help"]:
            label("helper:" + name)
        for (name, x), (_, y) in zip(*res):
            if x.shape != y.shape or not np.array_equal(np.isfinite(x), np.isfinite(y)):
                raise Violation("%s depends on the process-wide state" % name)
            close("process state:" + name, x, y, 1e-9, np.max(np.abs(y), initial=0) + 1e-3 * p.mag)
        return True
