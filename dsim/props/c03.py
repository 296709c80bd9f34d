"""C03 - integration stays inside the interval and ends exactly at its end"""
from ..base import *  # noqa

PID = "C03"
QUICK, THOROUGH = 2600, 40000
DRY = True
RULE = ("swarm of solver configurations (all 21 methods in rotation, both "
        "directions, spans that cross or end at zero or sit far from it) with "
        "injected NaN/inf/glitch/exception faults; a run counts when it "
        "accepted at least two steps")


def generate(r, i):
    spec = spec_for(r, i)
    sc = {"spec": spec, "faults": []}
    if r.random() < .12:
        # very short or very far intervals
        p = spec["problem"]
        L = 10**r.uniform(-9, -1)*(1 if p["tb"] > p["t0"] else -1)
        p["tb"] = p["t0"] + L
        spec["opts"].pop("first_step", None)
        if "max_step" in spec["opts"]:
            spec["opts"]["max_step"] = abs(L)*r.uniform(.05, 2.)
    if r.random() < .5:
        d = dry(spec)
        sc["faults"] = gen_faults(
            r, ["nan", "nan1", "inf", "huge", "big", "kick", "raise"], d)
        if d["jac"] and r.random() < .5:
            sc["faults"] += gen_faults(r, ["raise", "jnoise"], d, "jac", 1)
    return sc


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    w = World(sc["faults"], keep_log=True)
    p = problems.build(spec["problem"])
    sgn = 1. if p.tb >= p.t0 else -1.
    retries = [0]

    def on_error(e, h):
        retries[0] += 1
        return isinstance(e, SimFault) and retries[0] < 50

    prev = [p.t0]
    longest = [spec["opts"].get("first_step") or 0.]

    def on_step(h):
        st, s = h.steps[-1], h.solver
        if not sgn*(st.t - st.t_old) > 0:
            out.bad("monotone", f"t went from {st.t_old!r} to {st.t!r}")
        if st.t_old != prev[0] or s.t_old != st.t_old:
            out.bad("t_old", f"step starts at {st.t_old!r} (reported "
                    f"{s.t_old!r}), previous one ended at {prev[0]!r}")
        prev[0] = st.t
        longest[0] = max(longest[0], sgn*(p.tb - st.t_old))
        if sgn*(st.t - p.tb) > 0:
            out.bad("overshoot", f"t={st.t!r} is beyond t_bound={p.tb!r}")
        if (s.status == "finished") != (st.t == p.tb):
            out.bad("end", f"status {s.status} at t={st.t!r}, "
                    f"t_bound={p.tb!r}")

    h = drive.run(spec, w, on_step=on_step, on_error=on_error, problem=p)
    port = h.port
    out.history(h, spec["method"])
    out.world(w)
    if port is not None:
        slack = 8*ulps(p.t0, p.tb)
        # KC4I has a node at 26/25 of the step
        over = .0401*longest[0] if spec["method"] == "KC4I" else 0.
        for role, t in port.trace:
            a, b = sgn*(t - p.t0), sgn*(t - p.tb)
            if not (a >= -slack and b <= slack + over):
                out.bad("outside", f"{role} evaluated at t={t!r}, outside "
                        f"[{p.t0!r}, {p.tb!r}]")
                break
    if h.status == "finished" and h.solver.t != p.tb:
        out.bad("end", f"finished at {h.solver.t!r}, t_bound={p.tb!r}")
    if h.status == "failed" and not w.fired and len(h.steps) \
            and "small" in str(h.message or "").lower():
        # a clean smooth problem that gives up next to the end
        if abs(p.tb - h.t) <= 1e-9*abs(p.tb - p.t0):
            out.bad("stuck_at_end", f"failed at t={h.t!r} with only "
                    f"{abs(p.tb-h.t):.3g} to go to t_bound={p.tb!r}: "
                    f"{h.message}")
    return out.done(w, len(h.steps) >= 2)
