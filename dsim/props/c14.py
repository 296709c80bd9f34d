"""C14 - the work that is reported is the work that was done"""
from ..base import *  # noqa
import sys

PID = "C14"
QUICK, THOROUGH = 2600, 50000
DRY = True
RULE = ("after construction, every step, failed or aborted step and dense "
        "output the counters of the solver are compared with the calls that "
        "arrived at the simulated callbacks; non-finite answers cause "
        "rejected trials, exceptions abort steps; a run counts when a step "
        "was accepted and a trial was rejected or a fault fired")
ASSUME = ["conventions of the code and of scipy: evaluations for a differenced"
          " Jacobian are counted by njev, those for a power iteration of "
          "SSV2stab by sommeijer.nfesig, those to find consistent initial "
          "values and the first step of an implicit method are not counted"]
# evaluations in a step without rejections, and for each rejection
WORK = {"CK5": (6, 5), "Fi4N": (5, 4), "Fi5N": (6, 6), "MR6NN": (6, 5),
        "Me4": (5, 4), "Mu5Nmb": (9, 9), "Pr7": (10, 9), "Pr8": (13, 12),
        "Pr9": (17, 16), "Ts5": (6, 6), "SWAG": (2, 1)}
RANGE = {"BS5": (7, 5, 7), "CFMR7osc": (9, 7, 8)}


def generate(r, i):
    spec = spec_for(r, i)
    if r.random() < .3 and spec["method"] in methods.STIFFDET:
        spec["opts"]["nfev_stiff_detect"] = r.randrange(1, 100)
    if r.random() < .3:
        # too large a first step is rejected
        ps = spec["problem"]
        spec["opts"]["first_step"] = abs(ps["tb"] - ps["t0"])*r.uniform(.3, 1)
    d = dry(spec)
    fs = []
    if r.random() < .7:
        fs = gen_faults(r, ["nan", "inf", "nan1", "raise", "raise"] + (
            ["kick", "big"] if spec["method"] != "SSV2stab" else []), d)
    if d["jac"] and r.random() < .3:
        fs += gen_faults(r, ["jnoise", "raise"], d, "jac", 1)
    return {"spec": spec, "faults": fs, "dense": r.random() < .4}


def execute(sc):
    import extensisq
    som = sys.modules["extensisq.sommeijer"]
    out = Out(PID)
    spec = sc["spec"]
    name, g = spec["method"], methods.group(spec["method"])
    o = spec["opts"]
    w = World(sc["faults"], budget=20_000, keep_log=True)
    detect = name in methods.STIFFDET and o.get("nfev_stiff_detect", 1) != 0
    st = {"a": None, "rejected": 0, "raised": 0}
    calls0 = lambda: (w.counts.get((0, "fun"), 0), w.counts.get((0, "jac"), 0))

    # a predecessor leaves the global counters in some state
    extensisq.NFS[()] = 3
    extensisq.NFI[()] = 4
    extensisq.NLS[()] = 5

    def snap(s):
        f, j = calls0()
        return {"fun": f, "jac": j, "nfev": s.nfev, "njev": s.njev,
                "nlu": s.nlu, "NFS": int(extensisq.NFS[()]),
                "NFI": int(extensisq.NFI[()]), "NLS": int(extensisq.NLS[()]),
                "sig": int(som.nfesig[()])}

    def start(s):
        a = snap(s)
        st["a"] = a
        if a["NFS"] or (g == "implicit" and a["NFI"]):
            out.bad("reset", f"{name}: a new solver starts with NFS={a['NFS']}"
                    f", NFI={a['NFI']}")
        if g in ("explicit", "nystrom", "multi") and a["nfev"] != a["fun"]:
            out.bad("nfev_init", f"{name}: nfev={a['nfev']} after "
                    f"{a['fun']} evaluations at construction")
        if g == "implicit" and a["nfev"] > a["fun"]:
            out.bad("nfev_init", f"{name}: nfev={a['nfev']} after "
                    f"{a['fun']} evaluations at construction")

    def compare(s, what, accepted=False):
        a, b = st["a"], snap(s)
        st["a"] = b
        d = {k: b[k] - a[k] for k in a}
        st["rejected"] += d["NFS"]
        for k in ("nfev", "njev", "nlu", "NFS", "NFI", "NLS"):
            if d[k] < 0:
                out.bad("decreases", f"{name}: {k} decreases in {what}")
        extra = d["fun"] - d["nfev"]
        if g == "stab":
            # the evaluation that raised is not counted there
            late = 1 if what == "aborted step" else 0
            if not 0 <= extra - d["sig"] <= late:
                out.bad("nfev", f"{name}: {what} made {d['fun']} evaluations, "
                        f"nfev counts {d['nfev']} and nfesig {d['sig']}")
        elif g == "implicit" and o.get("jac") == "none":
            if extra < 0 or (extra > 0) != (d["njev"] > 0):
                # an exception within the differences stops them early
                if not (what == "aborted step" and extra >= 0):
                    out.bad("nfev", f"{name}: {what} made {d['fun']} "
                            f"evaluations, nfev counts {d['nfev']}, njev "
                            f"{d['njev']}")
        elif extra:
            out.bad("nfev", f"{name}: {what} made {d['fun']} evaluations, "
                    f"nfev counts {d['nfev']}")
        if g == "implicit" and o.get("jac") != "none" \
                and d["njev"] != d["jac"]:
            out.bad("njev", f"{name}: {what} made {d['jac']} Jacobian "
                    f"evaluations, njev counts {d['njev']}")
        if g != "implicit" and (d["njev"] or d["nlu"] or d["NFI"]):
            out.bad("njev", f"{name}: an explicit method counts {d}")
        if not accepted:
            return
        if name in WORK and not detect:
            c, m = WORK[name]
            if d["fun"] != c + m*d["NFS"]:
                out.bad("work", f"{name}: an accepted step with {d['NFS']} "
                        f"rejected trials takes {d['fun']} evaluations, not "
                        f"{c + m*d['NFS']}")
        if name in RANGE and not detect:
            c, lo, hi = RANGE[name]
            if not c + lo*d["NFS"] <= d["fun"] <= c + hi*d["NFS"]:
                out.bad("work", f"{name}: an accepted step with {d['NFS']} "
                        f"rejected trials takes {d['fun']} evaluations")
        if g == "implicit":
            filt = 1 if methods.cls(name).filter_error else 0
            if o.get("jac") != "none" and not any(
                    w.fired.get(k) for k in ("nan", "inf", "nan1", "big")):
                n = d["fun"] + filt*(1 + d["NFS"])
                if d["NLS"] != n:
                    out.bad("NLS", f"{name}: {d['fun']} evaluations and "
                            f"{d['NFS']} rejected trials need {n} linear "
                            f"solves, NLS counts {d['NLS']}")
            nst = methods.cls(name).n_stages - 1
            if d["nfev"] < nst*(1 + d["NFS"]) + d["NFI"]:
                out.bad("NFS", f"{name}: {d['nfev']} evaluations are too few "
                        f"for {d['NFS']} rejected trials and {d['NFI']} "
                        "failed iterations")
            if d["nlu"] > d["NFI"] + d["NFS"] + d["jac"] + 3 + d["njev"]:
                out.bad("nlu", f"{name}: {d['nlu']} factorisations for one "
                        "step")

    def on_step(h):
        s = h.solver
        compare(s, "accepted step", st["clean"])
        st["clean"] = True
        if sc["dense"]:
            try:
                s.dense_output()
            except SimFault:
                pass
            compare(s, "dense output")

    def on_error(e, h):
        if not isinstance(e, SimFault):
            return False
        compare(h.solver, "aborted step")
        st["raised"] += 1
        st["clean"] = False
        return st["raised"] < 20
    st["clean"] = True

    h = drive.History()
    # the start is looked at before the first step
    real = methods.make_solver

    def make(*a, **k):
        res = real(*a, **k)
        start(res[0])
        return res
    drive.make_solver = make
    try:
        drive.run(spec, w, on_step=on_step, on_error=on_error, h=h,
                  step_budget=20_000, max_steps=1200)
    finally:
        drive.make_solver = real
    if h.solver is not None and h.status == "failed":
        compare(h.solver, "failed step")
    out.history(h, name)
    out.world(w)
    out.add("rejected_trials", st["rejected"])
    out.add("aborted_steps", st["raised"])
    return out.done(w, h.steps and (st["rejected"] or w.fired))
