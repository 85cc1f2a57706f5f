"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "residual of an independently coded discrete-ordinate equation (integral form)",
 "C02": "boundary equations evaluated independently per Fourier mode",
 "C03": "equality of one-sided limits and interface values",
 "C04": "hemispheric quadrature of u0 and the Beer-Lambert law",
 "C05": "flux divergence against integrated absorption and emission",
 "C06": "graded Gauss integration of the ordinary outputs",
 "C07": "metamorphic: scaling and superposition of sources",
 "C08": "metamorphic: layer subdivision",
 "C09": "differential: banded against dense solver",
 "C10": "differential: option combinations",
 "C11": "differential: explicitly scaled problem",
 "C12": "independent closed-form TMS and IMS corrections",
 "C13": "metamorphic: azimuthal rotation, period and mirror symmetry",
 "C14": "stateful call histories against a model answering pointwise from a separate solve",
 "C15": "autograd derivatives against spectral differentiation",
 "C16": "independent Lagrange interpolation per hemisphere",
 "C17": "single-violation mutations must raise ValueError, boundary-valid mutations must be accepted",
 "C18": "Planck law, Gauss-integrated bands, isothermal equilibrium",
 "C19": "differential: cached and equivalent reflectance inputs",
 "C20": "defining identities of each helper",
 "C21": "metamorphic: mirror problem, reciprocity, beam as boundary illumination",
 "C22": "sign, monotonicity and maximum principle",
 "C23": "bracket of the measure from the reconstructed harmonics",
 "C24": "formal solution and first-order scattering",
 "C25": "finite values and documented shapes on extreme inputs",
 "C27": "differential: independent multiple-shooting solver with matrix exponentials",
 "C28": "closed form (Chandrasekhar H function) and agreement between stream numbers",
 "C29": "concurrent runs under forced thread switches against the same jobs run alone",
 "C30": "entry-by-entry recomputation of differences and ratios",
 "C31": "warnings issued against the list of documented conditions recomputed from the inputs",
 "C32": "metamorphic: changes of irrelevant inputs and equivalent input forms",
 "C33": "byte-wise comparison of arguments and process state around every call, and of results between two process states",
 "C26": "metamorphic: solution of a part of the atmosphere",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing (Hypothesis generators, shrinking): " + ORACLE[i],
        "level": "exploration",
        "level_note": "Holds on every generated case up to the stated tolerances; says nothing about inputs outside the generator's bounds "
                      "(DESIGN.md). Trusts numpy/scipy, Hypothesis and the independent reference in pbt/ref.py. Case counts are in the evidence file.",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks observe only the public functions, imported from /repo/src."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
