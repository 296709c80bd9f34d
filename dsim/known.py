"""The committed list of known findings (never written at run time).

known_findings.txt has one entry per line:
  finding: property=<id> {json}    suppresses exactly what the json matches
  fixed: property=<id> <commit> <what failed>    suppresses nothing
The json has 'key' (violation class), 'text', 'scenario' (the exact failing
scenario, replayed on each run) and 'where' (scenario paths that must be
equal: 'agents.0.method' etc.).
"""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "known_findings.txt")


def load():
    out = []
    if not os.path.exists(PATH):
        return out
    with open(PATH) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, body = line[len("finding: property="):].partition(" ")
                d = json.loads(body)
                d["property"] = head
                out.append(d)
    return out


def _get(sc, path):
    for part in path.split("."):
        if isinstance(sc, list):
            sc = sc[int(part)] if int(part) < len(sc) else None
        elif isinstance(sc, dict):
            sc = sc.get(part)
        else:
            return None
    return sc


def match(findings, pid, key, sc):
    for f in findings:
        if f["property"] == pid and f["key"] == key:
            if all(_get(sc, p) == v for p, v in f.get("where", {}).items()):
                return f
    return None
