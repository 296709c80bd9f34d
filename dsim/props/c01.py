"""C01 - solvers in one process do not influence each other"""
import hashlib

from ..base import *  # noqa
from .. import iso
from ..sched import Sched, Killed

PID = "C01"
QUICK, THOROUGH = 1400, 25000
RULE = ("2 to 4 solvers (same or different methods, some sharing the very same "
        "argument objects) in one process, interleaved by a seeded scheduler "
        "between operations, at every callback, or at every line of the "
        "library; or nested inside a callback of each other; some of them "
        "fail, raise or are abandoned midway; each history is compared bit "
        "by bit with a run of that solver alone in a pristine process; a run "
        "counts when two solvers overlapped and both took steps")
MEASURE = ("digest of the schedule (order in which solvers ran, with switch "
           "points) and all histories")
STUB = ["user callbacks: simulated ports with fault injection",
        "thread scheduler: seeded baton passing over real threads",
        "the caller: seeded driver"]
ASSUME = ["the module wide counters NFS/NFI/NLS are documented as global and "
          "are not compared"]


def generate(r, i):
    names = list(methods.ALL)
    n = methods.pick(r, [2, 2, 2, 3, 3, 4])
    agents = []
    first = methods.ALL[i % 21]
    for a in range(n):
        u = r.random()
        if a and u < .35:
            ag = dict(methods.pick(r, agents))     # a twin, shares arguments
            ag["spec"] = dict(ag["spec"])
            ag["spec"]["opts"] = dict(ag["spec"]["opts"])
            if r.random() < .4:
                # same arguments, other options
                if methods.group(ag["spec"]["method"]) != "implicit":
                    ag["spec"]["opts"].pop("interpolant", None)
                ag["spec"]["opts"]["rtol"] = 10**r.uniform(-6, -2)
                if ag["spec"]["method"] == "Mu5Nmb":
                    ag["spec"]["opts"]["scale_embedded"] = r.random() < .5
        else:
            spec = methods.gen_spec(
                r, method=first if a == 0 else (
                    first if r.random() < .4 else methods.pick(r, names)))
            ag = {"spec": spec, "share": a}
        ag["faults"] = []
        if r.random() < .3:
            for _ in range(r.randrange(1, 3)):
                ag["faults"].append(
                    {"role": "fun", "k": int(10**r.uniform(0, 2.5)),
                     "kind": methods.pick(r, ["raise", "nan", "inf", "big",
                                              "kick"]), "arg": .3,
                     "n": 1})
        ag["dense"] = methods.pick(r, [0, 0, 1, 1, 3])
        ag["how"] = methods.pick(r, ["steps", "steps", "steps", "ivp"])
        agents.append(ag)
    mode = methods.pick(r, ["op", "call", "call", "line", "line", "nest"])
    sc = {"agents": agents, "mode": mode, "seed": r.randrange(1 << 30),
          "max_steps": 14 if mode == "line" else 40}
    if mode == "nest":
        sc["nest_at"] = [int(10**r.uniform(0, 1.8)) for _ in range(n)]
    else:
        sc["grain"] = {"op": 1, "call": methods.pick(r, [1, 3, 12]),
                       "line": methods.pick(r, [15, 60, 250])}[mode]
        if r.random() < .25:
            hi = {"op": 12, "call": 200, "line": 4000}[mode]
            sc["kill"] = {str(r.randrange(n)): r.randrange(1, hi)}
    return sc


def body(ag, rec, max_steps, yielder, point, shared, problem):
    """the life of one solver; everything observable goes to rec"""
    spec = ag["spec"]
    w = World(ag["faults"], budget=4000, yielder=yielder)

    def state(s):
        return (float(s.t).hex(), np.asarray(s.y).tobytes(), s.status,
                s.nfev, s.njev, s.nlu, None if s.step_size is None
                else float(s.step_size).hex())

    def sample(so, a, b):
        x = np.linspace(a, b, 5)
        return (so(x).tobytes(), so(x[2]).tobytes())

    try:
        if ag["how"] == "ivp":
            args, kw, port, _ = methods.build_args(spec, w, shared=shared,
                                                   problem=problem)
            from scipy.integrate import solve_ivp
            fun, t0, y0, tb = args
            point()
            # bounded: many steps are cut off by the budget of callbacks
            sol = solve_ivp(fun, (t0, tb), y0,
                            method=methods.cls(spec["method"]),
                            dense_output=True, **kw)
            rec.append(("ivp", sol.t.tobytes(), sol.y.tobytes(), sol.status,
                        sol.nfev, sol.njev, sol.nlu))
            if len(sol.t) > 1:
                rec.append(("sol", sol.sol(np.linspace(
                    sol.t[0], sol.t[-1], 11)).tobytes()))
            return
        point()
        s, port, _ = methods.make_solver(spec, w, shared=shared,
                                         problem=problem)
        rec.append(("init", ) + state(s))
        keep = []
        while s.status == "running" and len(rec) < max_steps:
            point()
            m = s.step()
            rec.append(("step", m) + state(s))
            if s.status != "failed" and ag["dense"] and \
                    len(rec) % ag["dense"] == 0:
                point()
                so = s.dense_output()
                rec.append(("dense", sample(so, s.t_old, s.t)))
                keep.append((so, s.t_old, s.t, rec[-1][1]))
                if len(keep) > 3:
                    o, a, b, was = keep.pop(0)
                    rec.append(("later", sample(o, a, b) == was))
    except (SimFault, SimBudget) as e:
        rec.append(("raised", type(e).__name__, str(e)))
    except (Killed, HarnessError):
        raise
    except Exception as e:
        rec.append(("raised", type(e).__name__, str(e)))


def solo(ag, max_steps):
    rec = []
    body(ag, rec, max_steps, None, lambda *a: None, {},
         problems.build(ag["spec"]["problem"]))
    return rec


def together(sc):
    agents = sc["agents"]
    n = len(agents)
    recs = [[] for _ in agents]
    shared = {}
    probs = {}

    def args(a):
        key = agents[a]["share"]
        if key not in probs:
            probs[key] = problems.build(agents[a]["spec"]["problem"])
        return shared.setdefault(key, {}), probs[key]

    if sc["mode"] == "nest":
        pending = list(range(1, n))

        def run(a):
            def yielder(agent, role, k):
                if pending and k >= sc["nest_at"][a]:
                    run(pending.pop(0))
            body(agents[a], recs[a], sc["max_steps"], yielder,
                 lambda *x: None, *args(a))
        run(0)
        overlap = n - len(pending)
        for a in pending:
            run_rest = a
            body(agents[run_rest], recs[a], sc["max_steps"], None,
                 lambda *x: None, *args(a))
        return recs, [False]*n, f"nest{overlap}", overlap
    kill = {int(k): v for k, v in sc.get("kill", {}).items()}
    s = Sched(sc["seed"], sc["grain"], kill)
    for a in range(n):
        def fn(point, a=a):
            body(agents[a], recs[a], sc["max_steps"],
                 point if sc["mode"] != "op" else None, point, *args(a))
        s.add(fn, lines=sc["mode"] == "line")
    s.run()
    return (recs, [t.killed for t in s.tasks],
            ",".join(map(str, s.order[:4000])), s.switches)


def execute(sc):
    out = Out(PID)
    alone = [iso.fork_call(solo, ag, sc["max_steps"], timeout=60.)
             for ag in sc["agents"]]
    recs, killed, order, switches = together(sc)
    hh = hashlib.blake2b(digest_size=16)
    hh.update(order.encode())
    both = 0
    for a, (x, y) in enumerate(zip(alone, recs)):
        hh.update(repr(y).encode())
        name = sc["agents"][a]["spec"]["method"]
        out.mark("runs_by_method", name)
        if len(y) > 2 or sc["agents"][a]["how"] == "ivp":
            both += 1
        if killed[a]:
            out.mark("fired", "abandoned")
            x = x[:len(y)]
        for f in sc["agents"][a]["faults"]:
            if any(e[0] == "raised" for e in y) and f["kind"] == "raise":
                out.mark("fired", "raise")
                break
        if x != y:
            j = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q),
                     min(len(x), len(y)))
            ex = x[j][0] if j < len(x) else "end"
            ey = y[j][0] if j < len(y) else "end"
            out.bad("influenced", f"solver {a} ({name}): event {j} is {ey!r} "
                    f"and differs from the solo run ({ex!r}); mode "
                    f"{sc['mode']}")
        elif any(e[0] == "later" and not e[1] for e in y):
            out.bad("dense_changed", f"solver {a} ({name}): an interpolant "
                    "changed after it was handed out")
    out.mark("modes", sc["mode"])
    out.add("context_switches", switches)
    out.digest = hh.hexdigest()
    out.sig = out.digest
    return out.done(None, both >= 2 and switches > 2)


def candidates(sc):
    ags = sc["agents"]
    for a in range(len(ags)):
        if len(ags) > 2:
            yield dict(sc, agents=ags[:a] + ags[a+1:])
    for a, ag in enumerate(ags):
        for j in range(len(ag["faults"])):
            new = dict(ag, faults=ag["faults"][:j] + ag["faults"][j+1:])
            yield dict(sc, agents=ags[:a] + [new] + ags[a+1:])
        for key in list(ag["spec"]["opts"]):
            if key in ("rtol", "atol"):
                continue
            o = dict(ag["spec"]["opts"])
            o.pop(key)
            new = dict(ag, spec=dict(ag["spec"], opts=o))
            yield dict(sc, agents=ags[:a] + [new] + ags[a+1:])
    if "kill" in sc:
        yield {k: v for k, v in sc.items() if k != "kill"}
    for m in (2, 4, 8):
        if sc["max_steps"] > m:
            yield dict(sc, max_steps=m)
    if sc["mode"] in ("call", "line"):
        yield dict(sc, mode="op", grain=1)
