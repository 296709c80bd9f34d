"""Seeded search over scenarios of one property, on all cores.

One integer (VERIF_SEED) decides everything: scenario i of property P is a
pure function of (seed, P, i); its execution is a pure function of the
scenario and the code.  The clock is only read to measure throughput and to
stop a batch that is far over its time (which is reported in the evidence).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import iso, known
from .core import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 40.          # wall seconds before a run is a hang suspect
HANG_LINES = 8_000_000     # lines; the deterministic verdict on a suspect
ENOUGH = 60                # violating runs after which exploring more is idle
ENOUGH_HANGS = 3


def preload():
    """the pristine image every run is forked from"""
    import extensisq                                          # noqa: F401
    import extensisq.sensitivity                              # noqa: F401
    import scipy.integrate                                    # noqa: F401
    import scipy.linalg                                       # noqa: F401
    import scipy.sparse.linalg                                # noqa: F401
    from . import base                                        # noqa: F401


def load(pid):
    preload()
    return importlib.import_module(f"dsim.props.{pid.lower()}")


def scenario(prop, seed, i):
    r = random.Random(f"{seed}/{prop.PID}/{i}")
    sc = prop.generate(r, i)
    sc["property"] = prop.PID
    return sc


def _raised_in_library(e):
    """did this come out of the library, and not from the harness?"""
    import extensisq
    lib = os.path.dirname(os.path.abspath(extensisq.__file__)) + os.sep
    here = os.path.join(VERIF, "dsim") + os.sep
    last = ""
    for frame, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(frame.f_code.co_filename)
        if name.startswith(lib) or name.startswith(here):
            last = name
    return last.startswith(lib)


def _exec(prop, sc):
    try:
        return prop.execute(sc)
    except HarnessError:
        raise
    except Exception as e:
        if not _raised_in_library(e):
            raise
        # an exception of the library where nothing may go wrong
        return {"viol": [{"key": f"{prop.PID}:exception",
                          "msg": f"{type(e).__name__}: {e}"}],
                "nontrivial": True, "sig": "exception", "stats": {},
                "digest": "exception"}


def run_scenario(prop, sc, timeout=RUN_TIMEOUT):
    """execute in a fork; a hang is decided by a deterministic line budget"""
    try:
        return iso.fork_call(_exec, prop, sc, timeout=timeout)
    except iso.Timeout:
        pass

    def traced():
        try:
            return iso.with_line_budget(_exec, (prop, sc), HANG_LINES)
        except iso.LineBudget as e:
            return {"viol": [{"key": f"{prop.PID}:hang",
                              "msg": "no end within "
                                     f"{HANG_LINES} executed lines, at {e}"}],
                    "nontrivial": True, "sig": "hang", "stats": {},
                    "digest": "hang"}
    return iso.fork_call(traced, timeout=200.)


def _worker(pid, seed, idx, q, stop):
    prop = load(pid)
    for i in idx:
        if stop.is_set():
            break
        t0 = time.monotonic()
        try:
            if getattr(prop, "DRY", False):
                sc = iso.fork_call(scenario, prop, seed, i, timeout=120.)
            else:
                sc = scenario(prop, seed, i)
            res = run_scenario(prop, sc)
            q.put((i, sc if res["viol"] or i < 40 else None, res,
                   time.monotonic() - t0))
        except BaseException:
            q.put((i, None, {"harness": traceback.format_exc()}, 0.))
    q.put(None)


def merge(total, part):
    for k, v in part.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, (list, set)):
            s = total.setdefault(k, set())
            if len(s) < 200_000:
                s.update(v)
        elif k.startswith("max_"):
            total[k] = max(total.get(k, v), v)
        else:
            total[k] = total.get(k, 0) + v


def explore(pid, seed, count, workers=None, limit=780., enough=None):
    workers = workers or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    t0 = time.monotonic()
    procs = []
    for w in range(workers):
        p = ctx.Process(target=_worker, args=(
            pid, seed, range(w, count, workers), q, stop), daemon=True)
        p.start()
        procs.append(p)
    live, out = workers, {}
    while live:
        try:
            item = q.get(timeout=1.)
        except Exception:
            if time.monotonic() - t0 > limit:
                stop.set()
            if not any(p.is_alive() for p in procs) and q.empty():
                break
            continue
        if item is None:
            live -= 1
            continue
        i, sc, res, dt = item
        out[i] = (sc, res, dt)
        if time.monotonic() - t0 > limit:
            stop.set()
        if enough is not None and enough(i, sc, res):
            stop.set()
    for p in procs:
        p.join(timeout=5.)
    return out, time.monotonic() - t0


def digest_of(res):
    return hashlib.blake2b(json.dumps(
        [res.get("digest"), [v["key"] for v in res["viol"]]]).encode(),
        digest_size=12).hexdigest()


def has_key(res, key):
    return any(v["key"] == key for v in res["viol"])


def minimise(prop, sc, key, seconds=40.):
    """greedy: accept the first simpler scenario with the same violation"""
    from .shrink import candidates
    end = time.monotonic() + seconds
    tried = 0
    best = sc
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in candidates(best, prop):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                res = run_scenario(prop, cand, timeout=15.)
            except Exception:
                continue
            if has_key(res, key):
                best = cand
                progress = True
                break
    return best, tried


def write_replay(prop, seed, i, sc0, sc, res, key, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    msg = [v["msg"] for v in res["viol"] if v["key"] == key][0]
    body = {"property": prop.PID, "key": key, "message": msg, "seed": seed,
            "index": i, "digest": digest_of(res), "scenario": sc,
            "trace": res.get("trace"), "original_scenario": sc0,
            "minimiser_runs": tried}
    name = f"{prop.PID}-{seed}-{i}-{key.split(':')[-1]}.json"
    path = os.path.join(d, name.replace("/", "_").replace(" ", "_"))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def check(pid, tier, seed, count=None, workers=None):
    prop = load(pid)
    count = count or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    limit = 480. if tier == "quick" else 3000.
    findings = known.load()
    hits = [0, 0]

    def enough(i, sc, res):
        """a broken tree needs no complete sweep to be reported"""
        new = [v for v in res.get("viol", ())
               if known.match(findings, pid, v["key"], sc) is None]
        hits[0] += bool(new)
        hits[1] += res.get("digest") == "hang"
        return hits[0] >= ENOUGH or hits[1] >= ENOUGH_HANGS

    out, wall = explore(pid, seed, count, workers, limit, enough)
    bad = [o[1]["harness"] for o in out.values() if "harness" in o[1]]
    total, sigs, viols = {}, set(), []
    nontrivial = 0
    done = 0
    for i in sorted(out):
        sc, res, dt = out[i]
        if "harness" in res:
            continue
        done += 1
        merge(total, res.get("stats", {}))
        if res.get("nontrivial"):
            nontrivial += 1
            sigs.add(res["sig"])
        for v in res["viol"]:
            viols.append((i, sc, v))
    rc = 0
    lines = []
    seen = set()
    reported = 0
    shown = set()
    for i, sc, v in viols:
        f = known.match(findings, pid, v["key"], sc)
        if f is not None:
            if f["text"] not in shown:
                shown.add(f["text"])
                lines.append(f"KNOWN-FINDING: property={pid} {f['text']}")
            continue
        reported += 1
        rc = 1
        cls = (v["key"], )
        if cls in seen or len(seen) >= 3:
            continue
        seen.add(cls)
        small, tried = minimise(prop, sc, v["key"]) \
            if not v["key"].endswith(":hang") else (sc, 0)
        res = run_scenario(prop, small)
        if not has_key(res, v["key"]):
            small, res = sc, run_scenario(prop, sc)
        path = write_replay(prop, seed, i, sc, small, res, v["key"], tried) \
            if has_key(res, v["key"]) else None
        if path is None:
            bad.append(f"violation {v} of scenario {i} did not replay")
            continue
        lines.append(f"VIOLATION property={pid} replay={path}")
        lines.append(f"  {v['key']}: {v['msg']}")
    # known findings are demonstrated on every run, seed or no seed
    for f in findings:
        if f["property"] == pid and f.get("scenario") \
                and f["text"] not in shown:
            res = run_scenario(prop, f["scenario"])
            if has_key(res, f["key"]):
                shown.add(f["text"])
                lines.append(f"KNOWN-FINDING: property={pid} {f['text']}")
    ev = evidence(prop, tier, seed, total, done, count, nontrivial, sigs,
                  out, wall, reported, bad)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for ln in lines:
        print(ln)
    if bad:
        print(f"{pid}: {len(bad)} harness errors, first one:\n{bad[0]}",
              file=sys.stderr)
        if rc == 0:
            rc = 2
    print(f"{pid} {tier} seed={seed}: {done}/{count} simulated runs, "
          f"{len(sigs)} distinct, {reported} violations, {wall:.1f} s")
    return rc


def _plain(x):
    if isinstance(x, set):
        return len(x)
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in sorted(
            x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, float):
        return float(f"{x:.6g}")
    return x


def evidence(prop, tier, seed, total, done, count, nontrivial, sigs, out,
             wall, reported, bad):
    samples = []
    for i in sorted(out):
        sc, res, _ = out[i]
        if sc is not None and "harness" not in res and res.get("nontrivial"):
            samples.append({"index": i, "scenario": sc,
                            "digest": digest_of(res)})
        if len(samples) >= 3:
            break
    total = dict(total)
    simtime = total.pop("sim_time", 0.)
    fired = total.pop("fired", {})
    return {
        "property": prop.PID, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": prop.RULE,
            "samples": samples,
            "planned_runs": count,
            "nontrivial_runs": nontrivial,
            "runs_per_hour": round(done/max(wall, 1e-9)*3600),
            "seeds_per_hour": round(done/max(wall, 1e-9)*3600),
            "seeds": "one derived seed per run: "
                     f"'{seed}/{prop.PID}/<index>', index 0..{count-1}",
            "simulated_time": _plain(float(simtime)),
            "simulated_time_unit": "units of the integration variable t",
            "faults_fired": _plain(fired),
            "distinctness_measure": getattr(
                prop, "MEASURE",
                "digest of the full event sequence (every callback's index, "
                "time, state bits and answer, and every fault)"),
            "reach": _plain(total),
            "real_components": getattr(prop, "REAL", [
                "extensisq solver classes, error control, dense output",
                "scipy.integrate OdeSolver/OdeSolution base classes",
                "numpy/scipy linear algebra"]),
            "stub_components": getattr(prop, "STUB", [
                "user callbacks (right hand side, Jacobian, spectral "
                "radius): simulated ports with fault injection",
                "the caller: seeded driver"]),
            "harness_errors": len(bad),
        },
        "assumptions": getattr(prop, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": reported,
    }
