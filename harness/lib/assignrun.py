"""Driver of the assignment checks: cost matrices of AssignPlan.tla through the
solvers of both back ends, recorded for AssignTrace.tla."""
import itertools

import numpy as np

from . import sessionrun, sut
from .sut import torch

SCALE = {"one": 1.0, "tenth": 0.1, "dyadic": 2.0 ** -7, "milli": 1e-3, "tiny": 1e-9, "large": 1e9}


def solvers():
    out = []
    try:
        from fast_bss_eval.torch import hungarian
        f = getattr(hungarian, "linear_sum_assignment", None)
        if f is not None:
            out.append(("torch.hungarian", "pt", f, False))
    except ImportError:
        pass
    for be, mod in (("pt", sut.fbe.torch), ("np", sut.fbe.numpy)):
        h = getattr(mod, "helpers", None)
        f = getattr(h, "_linear_sum_assignment_with_inf", None)
        if f is not None:
            out.append((("torch" if be == "pt" else "numpy") + ".helpers", be, f, True))
    return out


def concrete(C, scale):
    n, m = len(C), len(C[0])
    X = np.empty((n, m))
    for i in range(n):
        for j in range(m):
            s, x = C[i][j]
            X[i, j] = x * scale if s == 0 else (np.nan if s == 2 else s * np.inf)
    return X


def array(X, be, dt, lay):
    Y = X.astype(np.float32 if dt == "f32" else np.float64)
    if lay == "t":
        Y = np.ascontiguousarray(Y.T).T
    elif lay == "s":
        Z = np.zeros((Y.shape[0], 2 * Y.shape[1]), dtype=Y.dtype)
        Z[:, ::2] = Y
        Y = Z[:, ::2]
    return torch.from_numpy(Y) if be == "pt" else Y


def expand(fam):
    v = fam["vals"]
    n, m = fam["n"], fam["m"]
    for t in itertools.product(range(len(v)), repeat=n * m):
        yield [[v[t[i * m + j]] for j in range(m)] for i in range(n)]


def one(C, scale, lay, dts):
    n, m = len(C), len(C[0])
    s = {x[0] for r in C for x in r}
    refuse = 2 in s or (1 in s and -1 in s)
    X = concrete(C, SCALE[scale])
    e = {"n": n, "m": m, "C": C, "u": [], "v": [], "res": []}
    if not refuse and not (max(n, m) <= 6 and min(n, m) <= 5 and (min(n, m) < 5 or max(n, m) == 5)):
        W = 2 * min(n, m) * max([abs(x[1]) for r in C for x in r]) + 1
        cost = [[x[1] if x[0] == 0 else W * x[0] for x in r] for r in C]
        if n <= m:
            e["u"], e["v"] = sessionrun.hungarian(cost)
        else:
            e["v"], e["u"] = sessionrun.hungarian([list(c) for c in zip(*cost)])
    for who, be, f, inf in SOLVERS:
        if not inf and (1 in s or -1 in s):
            continue
        for dt in dts:
            if dt == "f32" and scale == "tiny" and (1 in s or -1 in s):
                continue  # the stand-in of an infinity is at least one: lost in single precision
            A = array(X, be, dt, lay)
            d0 = sut.digest(A)
            r = {"who": who + " " + dt, "out": "ok", "rows": [], "cols": [], "mutated": False, "tol": 0}
            try:
                a, b = f(A)
                r["rows"] = [int(x) for x in np.asarray(a)]
                r["cols"] = [int(x) for x in np.asarray(b)]
            except Exception as exc:
                r["out"] = "raise:" + ("ValueError" if isinstance(exc, ValueError) else type(exc).__name__)
                r["msg"] = str(exc)[:100]
            r["mutated"] = sut.digest(A) != d0
            e["res"].append(r)
    return e


SOLVERS = solvers()


def task(chunk):
    return [one(*x) for x in chunk]
