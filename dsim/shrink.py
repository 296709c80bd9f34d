"""Simpler scenarios: fewer faults, fewer operations, fewer options."""
import copy


def _specs(sc):
    if "spec" in sc:
        yield sc["spec"]
    for a in sc.get("agents", ()):
        yield a["spec"] if "spec" in a else a


def candidates(sc, prop):
    custom = getattr(prop, "candidates", None)
    if custom is not None:
        yield from custom(sc)
    # drop whole lists of things
    for name in ("faults", "ops", "schedule", "agents", "dense_fail"):
        L = sc.get(name)
        if not isinstance(L, list) or (name == "agents" and len(L) <= 1):
            continue
        n = len(L)
        size = n//2
        while size >= 1:
            for i in range(0, n - size + 1, size):
                c = copy.deepcopy(sc)
                del c[name][i:i+size]
                if name == "agents":
                    continue
                yield c
            size //= 2
    for i, f in enumerate(sc.get("faults", ())):
        if f.get("n", 1) != 1:
            c = copy.deepcopy(sc)
            c["faults"][i]["n"] = 1
            yield c
    # drop options, simplify the problem
    for j, s in enumerate(_specs(sc)):
        if "opts" not in s:
            continue
        for name in list(s["opts"]):
            if name in ("rtol", "atol", "jac"):
                continue
            c = copy.deepcopy(sc)
            del list(_specs(c))[j]["opts"][name]
            yield c
        if isinstance(s["opts"].get("atol"), list):
            c = copy.deepcopy(sc)
            list(_specs(c))[j]["opts"]["atol"] = s["opts"]["atol"][0]
            yield c
        if s.get("alias", "fresh") != "fresh":
            c = copy.deepcopy(sc)
            list(_specs(c))[j].pop("alias")
            yield c
        n = s["problem"].get("n", 1)
        if n > 1 and s["problem"]["fam"] in ("lin", "logistic", "cosmul",
                                             "bern", "const", "expo") \
                and not isinstance(s["opts"].get("atol"), list):
            c = copy.deepcopy(sc)
            list(_specs(c))[j]["problem"]["n"] = 1
            yield c
        p = s["problem"]
        if p["t0"] != 0.:
            c = copy.deepcopy(sc)
            q = list(_specs(c))[j]["problem"]
            q["t0"], q["tb"] = 0., p["tb"] - p["t0"]
            yield c
