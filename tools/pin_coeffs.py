"""One-time: write the published coefficients of the methods, as found in the
pinned commit, to dsim/coeffs.json.  dsim/selftest.py verifies them against
the order conditions, so that they do not rest on this code alone."""
import json
import os

import numpy as np

import extensisq

NAMES = ["Ts5", "BS5", "CK5", "CKdisc", "Pr7", "Pr8", "Pr9", "CFMR7osc",
         "Me4", "Fi4N", "Fi5N", "Mu5Nmb", "MR6NN", "HS2I", "HS2Ia", "KC3I",
         "KC4I", "KC4Ia", "Kv3I"]
STOP = ("RungeKutta", "ESDIRK", "RungeKuttaNystrom", "OdeSolver")
out = {}
for n in NAMES:
    d = {}
    for k in getattr(extensisq, n).__mro__:
        if k.__name__ in STOP:
            break
        for a, v in vars(k).items():
            if a in d or a.startswith("__") or a == "Pp":
                pass
            elif isinstance(v, np.ndarray):
                d[a] = v.tolist()
            elif isinstance(v, (bool, int, float)):
                d[a] = v if isinstance(v, (bool, int)) else float(v)
            elif a.startswith("C_extra") and isinstance(v, tuple):
                d[a] = list(v)
    if n in ("MR6NN",):
        d["Pp"] = getattr(extensisq, n).Pp.tolist()
    out[n] = d
path = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "dsim", "coeffs.json")
with open(path, "w") as f:
    json.dump(out, f)
