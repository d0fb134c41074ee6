"""Driver of the exact checks (C01, C02, C11, C12, C18): executes the plan of
ExactPlan.tla and records the trace judged by ExactTrace.tla."""
import json
import math
import os

import numpy as np

from . import exact, pool, sut, tlc


def strip(c):
    return {"D": c["D"], "h": c["h"]}


def draw(rng, n, T, cls, L):
    x = np.zeros((n, T), dtype=np.int64)
    for i in range(n):
        c = cls if cls != "mix" else rng.choice(["white", "smooth", "sparse", "offset"])
        if c == "white":
            x[i] = rng.integers(-9, 10, T)
        elif c == "smooth":
            w = rng.integers(-3, 4, T + 2)
            x[i] = w[2:] + w[1:-1] + w[:-2]
        elif c == "sparse":
            k = rng.integers(1, max(2, T // 3 + 1))
            p = rng.choice(T, size=min(T, k), replace=False)
            x[i, p] = rng.integers(1, 10, len(p)) * rng.choice([-1, 1], len(p))
        elif c == "offset":
            x[i] = rng.integers(-9, 10, T) + int(rng.integers(-40, 41))
        elif c == "impulse":
            x[i, rng.choice([0, T - 1, rng.integers(0, T)])] = rng.integers(1, 10)
    return x


def draw_large(rng, K, M, T, L, cls):
    """long sparse signals, main tap of each reference dominant; estimates are
    combinations of delayed references (delays inside and outside the filter) and
    own taps."""
    refs = np.zeros((K, T), dtype=np.int64)
    # main taps at least L apart (independent columns), anywhere in the frame
    slack = T - 1 - (K - 1) * L
    if cls == "edge":
        off = np.sort(rng.choice([0, slack, slack, 0, slack // 2, min(slack, L)], size=K))
    else:
        off = np.sort(rng.integers(0, slack + 1, K))
    base = rng.permutation(off + L * np.arange(K))
    span = min(L, T)
    for k in range(K):
        refs[k, base[k]] = 30 * rng.choice([-1, 1])
        if cls == "chain":
            # taps at a large common distance: short chains of coupled lags
            q = max(1, L // int(rng.integers(2, 5)))
            if base[k] + q < T:
                refs[k, base[k] + q] += int(rng.integers(1, 4))
            elif base[k] - q >= 0:
                refs[k, base[k] - q] += int(rng.integers(1, 4))
        else:
            for _ in range(int(rng.integers(1, 4))):
                p = base[k] + int(rng.integers(-span + 1, span))
                if 0 <= p < T and refs[k, p] == 0:
                    refs[k, p] = rng.choice([-2, -1, 1, 2])
    ests = np.zeros((M, T), dtype=np.int64)
    for m in range(M):
        for k in range(K):
            for _ in range(2):
                d = int(rng.choice([0, 1, L - 1, L - 2, L, L + 1, -1, rng.integers(0, L), rng.integers(0, L)]))
                g = int(rng.integers(-3, 4))
                for p in np.nonzero(refs[k])[0]:
                    if 0 <= p + d < T:
                        ests[m, p + d] += g * refs[k, p]
        for _ in range(4):
            ests[m, rng.integers(0, T)] += int(rng.integers(-40, 41))
        if rng.random() < 0.3:  # overwhelming artefact
            ests[m, rng.integers(0, T)] += int(rng.integers(500, 3000))
    return refs, ests


def gains(rng, kind, n):
    if kind == "unit":
        return np.ones(n)
    if kind == "neg":
        return -np.ones(n)
    if kind == "pow2":
        return 2.0 ** rng.integers(-8, 9, n) * rng.choice([-1, 1], n)
    if kind == "mixed":
        return 10.0 ** rng.uniform(-3, 4, n) * rng.choice([-1, 1], n)
    if kind == "small":
        return 10.0 ** rng.uniform(-4, -2, n) * rng.choice([-1, 1], n)
    if kind == "large":
        return 10.0 ** rng.uniform(3, 6, n) * rng.choice([-1, 1], n)
    raise ValueError(kind)


def cond(refs, L, dn, dd, loaded):
    G = np.array(exact.gram(list(refs), L), dtype=float) if L * len(refs) <= 200 else None
    if G is None:
        return 10.0
    en = np.sqrt(np.maximum(1e-300, np.sum(refs.astype(float) ** 2, axis=1)))
    s = np.repeat(en, L)
    Gn = G / np.outer(s, s)
    if dn and loaded:
        Gn = Gn + np.eye(len(G)) * dn / dd
    w = np.linalg.eigvalsh(Gn)
    return float("inf") if w[0] <= 0 else w[-1] / w[0]


def prepare(line, rng, maxcond=1e5):
    """signals + certificates of a plan line"""
    K, M, T, L = line["K"], line["M"], line["T"], line["L"]
    dn, dd = line["dn"], line["dd"]
    dnS = dn if L > 1 else 0
    for attempt in range(200):
        if line["regime"] == "large":
            refs, ests = draw_large(rng, K, M, T, L, line["cls"])
        else:
            refs = draw(rng, K, T, line["cls"], L)
            ests = draw(rng, M, T, line["cls"], L)
            if rng.random() < 0.7:
                # make the estimates depend on the references
                A = rng.integers(-2, 3, (M, K))
                ests = ests + A @ refs
                if T > 3 and rng.random() < 0.5:
                    d = int(rng.integers(1, min(T, L + 2)))
                    ests[:, d:] += (rng.integers(-2, 3, (M, K)) @ refs)[:, :-d]
            if T > K * L + 2 and not line["zm"] and rng.random() < 0.12:
                # overwhelming artefact before the references start
                refs[:, 0] = 0
                ests[:, 0] += rng.integers(300, 3000, M)
        off = np.zeros(K, dtype=bool)
        if line.get("hush") and K > 1:
            off[rng.choice(K, size=rng.integers(1, K), replace=False)] = True
            refs[off] = 0
        if line["zm"]:
            rc = refs * T - refs.sum(-1, keepdims=True)
            ec = ests * T - ests.sum(-1, keepdims=True)
        else:
            rc, ec = refs, ests
        if (np.abs(rc).sum(-1) == 0)[~off].any() or (np.abs(ec).sum(-1) == 0).any():
            continue
        close = False
        if line["regime"] == "large":
            if (np.sum(ec ** 2, -1) < 100).any():
                continue
            # the diagonal dominance demanded by Projection!Margin
            ok = True
            pos = [np.nonzero(r)[0] for r in rc]
            for k in range(K):
                row = 0
                for m in range(K):
                    for i in pos[k]:
                        for j in pos[m]:
                            if abs(int(i) - int(j)) < L and not (k == m and i == j):
                                row += abs(int(rc[k, i]) * int(rc[m, j]))
                if int(np.sum(rc[k] ** 2)) - row < 120:
                    ok = False
            if not ok:
                continue
            close = True
            kap = 10.0
            f = lambda rs, es, d: exact.certify_close(rs, es, L, dn=d, dd=dd)
        else:
            kap = max([cond(rc[k:k + 1], L, dnS, dd, True) for k in range(K) if not off[k]] +
                      ([cond(rc[~off], L, dn, dd, True)] if line["joint"] else []))
            if line["zm"]:
                kap *= max(1.0, np.max(np.sqrt(np.sum((refs * T) ** 2.0, -1) / np.sum(rc ** 2.0, -1))[~off]),
                           np.max(np.sqrt(np.sum((ests * T) ** 2.0, -1) / np.sum(ec ** 2.0, -1))))
            if not kap < maxcond:
                continue
            f = lambda rs, es, d: exact.certify(rs, es, L, d, dd)
        cs = [f([rc[k]], list(ec), dnS) for k in range(K)]
        if any(c is None for c in cs):
            continue
        cj = f(list(rc), list(ec), dn) if line["joint"] else []
        if cj is None:
            continue
        cmin = min(c["c"] for c in cj) if line["joint"] else 1.0
        if cmin < 1e-7:
            continue  # SIR is a ratio of two rounding errors
        ck = max(0, int(math.ceil(math.log10(kap))))
        return {"refs": refs, "ests": ests, "cs": cs, "cj": cj, "ck": ck, "cmin": cmin}
    return None


def observe(line, sig, rng):
    K, M, T, L = line["K"], line["M"], line["T"], line["L"]
    out = []
    for c in line["calls"]:
        if c["dt"] == "f32" and (sig["ck"] > 3 or sig["cmin"] < 1e-3 and c["form"] in ("bss", "bssdiag")):
            continue
        if c["gain"] == "full":  # integers, up to the largest amplitude
            gr, ge = (np.maximum(1, 32767 // np.maximum(1, np.abs(x).max(-1))) * rng.choice([-1.0, 1.0], len(x))
                      for x in (sig["refs"], sig["ests"]))
        else:
            gr, ge = gains(rng, c["gain"], K), gains(rng, c["gain"], M)
        r = sig["refs"] * gr[:, None] if c["gain"] != "unit" else sig["refs"].astype(float)
        e = sig["ests"] * ge[:, None] if c["gain"] != "unit" else sig["ests"].astype(float)
        b = tuple(c["batch"])
        if L >= 400 and int(np.prod(b)) > 2:
            b = (2,)
        R = np.empty(b + r.shape)
        E = np.empty(b + e.shape)
        idx = tuple(int(rng.integers(0, n)) for n in b)
        for j in np.ndindex(*b):
            if j == idx:
                R[j], E[j] = r, e
            else:
                R[j] = np.roll(r, int(rng.integers(0, K)), axis=0) * (3.0 if c["dt"][0] != "i" else 1)
                E[j] = np.roll(e, int(rng.integers(0, M)), axis=0) * (2.0 if c["dt"][0] != "i" else 1)
        if not b:
            R, E = r, e
        si = c["fn"].startswith("si_") or c["fn"] == "pairwise_si_sdr_loss"
        o = {}
        if not si:
            if not (L == 512 and rng.random() < 0.5):  # the default filter length
                o["filter_length"] = L
            if line["dn"]:
                o["load_diag"] = line["dn"] / line["dd"]
        elif line["dn"]:
            o["load_diag"] = line["dn"] / line["dd"]
        if line["zm"]:
            o["zero_mean"] = True
        form = c["form"]
        if c["fn"] in ("sdr_loss", "si_sdr_loss"):
            o["pairwise"] = form == "pair"
        if c["fn"] in ("sdr", "si_sdr"):
            if form == "perm":
                o["return_perm"] = True
            if c["neg"]:
                o["change_sign"] = True
        if form == "bssdiag":
            o["compute_permutation"] = False
        o = sut.scalars(o, rng)
        res = sut.call(c["fn"], c["be"], sut.make_array(R, c["be"], c["dt"], c["lay"]),
                       sut.make_array(E, c["be"], c["dt"], c["lay"]), o)
        ob = {"fn": c["fn"], "be": c["be"], "dt": c["dt"], "form": form, "neg": c["neg"], "out": "ok",
              "sdr": [], "sir": [], "sar": [], "perm": [],
              "opts": {k: str(v) for k, v in o.items()}, "batch": list(b), "idx": list(idx),
              "gr": [repr(float(g)) for g in gr], "ge": [repr(float(g)) for g in ge], "lay": c["lay"]}
        out.append(ob)
        if res["kind"] == "raise":
            ob["out"] = "raise:" + ("ValueError" if "ValueError" in res["mro"] and "LinAlgError" not in res["mro"]
                                    else res["exc"])
            continue
        want = {"bss": 4, "bssdiag": 3, "perm": 2}.get(form, 1)
        if res["n"] != want or any(tuple(m["shape"][:len(b)]) != b for m in res["meta"]):
            ob["out"] = "shape"
            continue
        outs = [v[idx] for v in res["outs"]]
        ob["sdr"] = sut.nested(outs[0], sut.c15)
        if form in ("bss", "bssdiag"):
            ob["sir"] = sut.nested(outs[1], sut.c15)
            ob["sar"] = sut.nested(outs[2], sut.c15)
        if form in ("bss", "perm"):
            ob["perm"] = [int(x) for x in outs[-1]]
    return out


def task(arg):
    line, seed = arg
    rng = np.random.default_rng([seed, line["id"]])
    sig = prepare(line, rng)
    if sig is None:
        return {"skip": line["id"], "regime": line["regime"]}
    calls = observe(line, sig, rng)
    return {"id": line["id"], "regime": line["regime"], "cls": line["cls"], "K": line["K"], "M": line["M"],
            "T": line["T"], "L": line["L"], "zm": line["zm"], "dn": line["dn"], "dd": line["dd"], "ck": sig["ck"],
            "joint": line["joint"], "refs": [exact.sparse(x) for x in sig["refs"]],
            "ests": [exact.sparse(x) for x in sig["ests"]],
            "cs": [[strip(c) for c in row] for row in sig["cs"]], "cj": [strip(c) for c in sig["cj"]], "calls": calls,
            "coh": [[c["c"] for c in row] for row in sig["cs"]].__repr__()}
