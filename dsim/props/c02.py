"""C02 - arrays of the caller, published states and interpolants stay put"""
from ..base import *  # noqa

PID = "C02"
QUICK, THOROUGH = 2400, 36000
DRY = True
RULE = ("each configuration is run twice: with fresh writable arrays, and with "
        "arrays that alias (read-only inputs and answers, answers that are "
        "the argument itself, one cached object for equal answers, lists) "
        "while exceptions and NaN hit both runs alike; both histories must be "
        "equal bit by bit, every array that crossed the interface is compared "
        "with a copy made at that moment, at the end of the run; a run counts "
        "when two steps were accepted")


def generate(r, i):
    if i % 6 == 3:                 # more arrays cross the interface
        spec = spec_for(r, i//6, names=methods.IMPLICIT, fams=[
            "mass", "mass", "daelin", "daelog"])
    else:
        spec = spec_for(r, i)
    spec.pop("alias", None)
    if i % 6 != 3 and r.random() < .3 and methods.group(spec["method"]) != "nystrom":
        spec["problem"]["fam"] = methods.pick(r, ["expo", "const"])
        for k in ("stiff", "cplx", "mform", "rate", "diff", "mix", "ascale"):
            spec["problem"].pop(k, None)
        n = problems.build(spec["problem"]).n
        a = spec["opts"]["atol"]
        if isinstance(a, list):
            spec["opts"]["atol"] = (a*n)[:n]
        spec["opts"].pop("jac_sparsity", None)
    if r.random() < .5:
        spec["layout"] = methods.pick(r, ["F", "F", "strided"])
    al = methods.pick(r, ["readonly", "readonly", "cached", "alias", "list"])
    if al == "list" and (spec["opts"].get("vectorized")
                         or methods.group(spec["method"]) == "nystrom"):
        al = "cached"
    sc = {"spec": spec, "alias": al, "frozen": r.random() < .6,
          "every": methods.pick(r, [1, 1, 2, 5]), "faults": []}
    if r.random() < .5:
        d = dry(spec)
        sc["faults"] = gen_faults(r, ["raise", "nan", "nan1", "big"], d)
    return sc


def leg(sc, world, alias, frozen, watch=None):
    spec = dict(sc["spec"])
    if alias:
        spec["alias"] = alias
    p = problems.build(spec["problem"])
    shared = {}
    methods.build_args(spec, World(), problem=p, shared=shared)
    given = []
    for k, v in shared.items():
        for a in [v] if isinstance(v, np.ndarray) else [
                getattr(v, x, None) for x in ("data", "indices", "indptr")]:
            if not isinstance(a, np.ndarray):
                continue
            given.append((k, a, a.copy()))
        if frozen and isinstance(v, np.ndarray):
            v.setflags(write=False)
    retries = [0]
    pub, dense, rec = [], [], []

    def on_error(e, h):
        retries[0] += 1
        return isinstance(e, SimFault) and retries[0] < 20

    def on_step(h):
        s = h.solver
        pub.append((s.y, s.y.copy(), s.t))
        rec.append((float(s.t).hex(), s.y.tobytes(), s.nfev, s.njev, s.nlu))
        if len(h.steps) % sc["every"] == 0 and len(dense) < 60:
            try:
                so = s.dense_output()
            except SimFault as e:
                rec.append(("dense", str(e)))
                return
            x = np.linspace(s.t_old, s.t, 5)
            dense.append((so, x, np.array(so(x), copy=True)))
            rec.append(dense[-1][2].tobytes())

    h = drive.run(spec, world, on_step=on_step, on_error=on_error, problem=p,
                  watch=watch, shared=shared, max_steps=300,
                  step_budget=20_000)
    rec.append((outcome(h), str(h.error or "")))
    return h, rec, given, pub, dense


def execute(sc):
    out = Out(PID)
    name = sc["spec"]["method"]
    w0 = World(sc["faults"])
    h0, rec0, given0, pub0, dense0 = leg(sc, w0, None, False)
    w = World(sc["faults"], keep_log=True)
    watch = []
    h, rec, given, pub, dense = leg(sc, w, sc["alias"], sc["frozen"], watch)
    for lab, gv, pb, dn in (("plain", given0, pub0, dense0),
                            (sc["alias"], given, pub, dense)):
        for k, a, b in gv:
            if a.tobytes() != b.tobytes():
                out.bad("argument", f"{name} ({lab}): the array passed as "
                        f"{k} was modified")
        for j, (a, b, t) in enumerate(pb):
            if a.tobytes() != b.tobytes():
                out.bad("published", f"{name} ({lab}): y of step {j} (t={t!r})"
                        " changed after it was published")
                break
        for j, (so, x, v) in enumerate(dn):
            if np.asarray(so(x)).tobytes() != v.tobytes():
                out.bad("interpolant", f"{name} ({lab}): interpolant {j} "
                        "gives other values later")
                break
    for a, b in watch:
        if a.tobytes() != b.tobytes():
            out.bad("answer", f"{name}: an array returned by a callback was "
                    "modified")
            break
    if rec0 != rec:
        j = next((j for j, (x, y) in enumerate(zip(rec0, rec)) if x != y),
                 min(len(rec0), len(rec)))
        out.bad("aliasing", f"{name}: event {j} differs when "
                f"{'inputs are read-only and ' if sc['frozen'] else ''}"
                f"answers are handed over as '{sc['alias']}' "
                f"({rec[j:j+1][0][:2] if j < len(rec) else 'end'})")
    out.history(h, name)
    out.world(w)
    out.mark("handed_over_as", sc["alias"])
    out.mark("memory_layout", str(sc["spec"].get("layout", "C")))
    out.add("answers_watched", len(watch))
    out.add("interpolants_watched", len(dense))
    return out.done(w, len(h.steps) >= 2)
