import argparse
import json
import os
import sys


def main(argv=None):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--count", type=int)
    c.add_argument("--workers", type=int)
    c = sub.add_parser("replay")
    c.add_argument("file")
    c.add_argument("--trace", action="store_true")
    c = sub.add_parser("one")
    c.add_argument("property")
    c.add_argument("index", type=int)
    c.add_argument("--seed", type=int, default=1)
    c = sub.add_parser("selftest")
    c.add_argument("--count", type=int, default=40)
    c = sub.add_parser("digests")
    c.add_argument("property")
    c.add_argument("--seed", type=int, default=1)
    c.add_argument("--count", type=int, default=40)
    c.add_argument("--workers", type=int, default=8)
    a = ap.parse_args(argv)
    from . import iso, runner
    if a.cmd == "check":
        return runner.check(a.property, a.tier, a.seed, a.count, a.workers)
    if a.cmd == "one":
        prop = runner.load(a.property)
        sc = iso.fork_call(runner.scenario, prop, a.seed, a.index)
        print(json.dumps(sc, indent=1))
        res = runner.run_scenario(prop, sc)
        res["stats"] = runner._plain(res["stats"])
        print(json.dumps(res, indent=1, default=str))
        return 0
    if a.cmd == "replay":
        with open(a.file) as f:
            body = json.load(f)
        prop = runner.load(body["property"])
        sc = body["scenario"]
        res = runner.run_scenario(prop, sc)
        for v in res["viol"]:
            print(f"  {v['key']}: {v['msg']}")
        if a.trace and res.get("trace"):
            for ln in res["trace"]:
                print("   ", ln)
        same = runner.digest_of(res) == body["digest"]
        if runner.has_key(res, body["key"]):
            print(f"VIOLATION property={body['property']} "
                  f"replay={os.path.abspath(a.file)}")
            print("event log identical to the recorded one" if same else
                  "event log differs from the recorded one (other code?)")
            return 1
        print("not reproduced on this tree")
        return 0
    if a.cmd == "digests":
        out, _ = runner.explore(a.property, a.seed, a.count, a.workers)
        for i in sorted(out):
            r = out[i][1]
            print(i, r.get("harness") or runner.digest_of(r))
        return 0
    if a.cmd == "selftest":
        from . import selftest
        return selftest.main(a.count)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
