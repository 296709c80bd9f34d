"""C04 - the step size limits of the user are respected"""
from ..base import *  # noqa

PID = "C04"
QUICK, THOROUGH = 2600, 40000
DRY = True
RULE = ("configurations with max_step and/or first_step, loose and tight "
        "tolerances, with and without transient faults; a run counts when at "
        "least one step was limited (within 20% of max_step, or first_step "
        "given)")


def generate(r, i):
    spec = spec_for(r, i)
    p, o = spec["problem"], spec["opts"]
    L = abs(p["tb"] - p["t0"])
    u = r.random()
    o.pop("max_step", None)
    o.pop("first_step", None)
    if u < .75:
        o["max_step"] = L*10**r.uniform(-2, -.1)
        if r.random() < .3:
            # an exact or nearly exact divisor of the interval
            o["max_step"] = L/r.randrange(2, 40)*(
                1 + r.choice([0, 0, 1e-15, -1e-15, 1e-9, -1e-9]))
    if u > .6:
        o["first_step"] = min(L, L*10**r.uniform(-4, 0))
    if r.random() < .5:
        o["rtol"] = 10**r.uniform(-3, -1.2)
        if not isinstance(o["atol"], list):
            o["atol"] = 10**r.uniform(-4, -1.5)
    sc = {"spec": spec, "faults": []}
    if r.random() < .35:
        d = dry(spec)
        sc["faults"] = gen_faults(r, ["nan", "inf", "big", "kick", "raise"],
                                  d)
    return sc


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    o = spec["opts"]
    w = World(sc["faults"], keep_log=True)
    p = problems.build(spec["problem"])
    hmax = o.get("max_step", np.inf)
    first = o.get("first_step")
    limited = [0]
    sgn = 1. if p.tb >= p.t0 else -1.
    n = [0]

    def on_error(e, h):
        n[0] += 1
        return isinstance(e, SimFault) and n[0] < 50

    mark = [None]
    # KC4I has a node at 26/25 of the step
    node = 1.0401 if spec["method"] == "KC4I" else 1.

    def on_step(h):
        st = h.steps[-1]
        size = abs(st.t - st.t_old)
        slack = 4*ulps(st.t, st.t_old)
        if size > hmax*(1 + 1e-13) + slack:
            out.bad("max_step", f"accepted step {size!r} > max_step "
                    f"{hmax!r} at t={st.t_old!r}")
        if size > .8*hmax:
            limited[0] += 1
        if first is not None and len(h.steps) == 1:
            # (a step onto the end may be stretched by up to 10%)
            ext = 1.1001 if st.t == p.tb else 1.
            if size > first*ext*(1 + 1e-13) + slack:
                out.bad("first_step", f"first accepted step {size!r} > "
                        f"first_step {first!r}")
        # trial evaluations of this step
        tr = h.port.trace[mark[0] or h.n_init:]
        reach = hmax
        if first is not None and len(h.steps) == 1:
            d = abs(p.tb - st.t_old)
            reach = min(hmax, d if d <= 1.1*first else first)
        reach *= node
        for role, t in tr:
            if sgn*(t - st.t_old) > reach*(1 + 1e-13) + 2*slack:
                out.bad("trial", f"{role} was evaluated at t={t!r} in a step "
                        f"from {st.t_old!r}: farther than the limit {reach!r}")
                break
        mark[0] = len(h.port.trace)

    class H(drive.History):
        pass
    hh = H()
    hh.n_init = 0
    hh.port = None
    h = hh

    # number of evaluations of the construction: known after it
    real = drive.make_solver

    def make(*a, **k):
        s, port, shared = real(*a, **k)
        hh.n_init = len(port.trace)
        return s, port, shared
    drive.make_solver = make
    try:
        h = drive.run(spec, w, on_step=on_step, on_error=on_error, problem=p,
                      h=hh)
    finally:
        drive.make_solver = real
    out.history(h, spec["method"])
    out.world(w)
    out.add("limited_steps", limited[0])
    return out.done(w, limited[0] or (first is not None and h.steps))
