"""Driver of the filtered-reference scenes (C18): FirPlan.tla -> FirTrace.tla."""
import numpy as np

from . import sut
from .sessionrun import pairval, shape_depth


def quad(a, b, c, p, t):
    x = t % p
    return (a * x * x + b * x + c) % p


def signals(line):
    T, lead, tail = line["T"], line["lead"], line["tail"]
    t = np.arange(T, dtype=np.int64)
    refs = []
    for a1, b1, c1, a2, b2, c2 in line["refs"]:
        r = quad(a1, b1, c1, 1021, t) + quad(a2, b2, c2, 1019, t) - 1020
        r[:lead] = 0
        r[T - tail:] = 0
        refs.append(r)
    ests = []
    for taps in line["ests"]:
        e = np.zeros(T, dtype=np.int64)
        for k, d, g in taps:
            s = np.zeros(T, dtype=np.int64)
            if d >= 0:
                s[d:] = refs[k - 1][: T - d]
            else:
                s[:d] = refs[k - 1][-d:]
            e += g * s
        ests.append(e)
    return np.array(refs), np.array(ests)


def task(arg):
    line, seed = arg
    rng = np.random.default_rng([seed, 5, line["id"]])
    refs, ests = signals(line)
    K, T, L = line["K"], line["T"], line["L"]
    # no cancellation of taps, inside or outside
    if (np.sum(ests.astype(float) ** 2, -1) < 0.2 * np.min(np.sum(refs.astype(float) ** 2, -1))).any():
        return {"skip": line["id"]}
    probes = []
    for k in range(K):
        for t in list(rng.integers(0, T, 6)) + [0, line["lead"], T - line["tail"] - 1, T - line["tail"], T - 1]:
            probes.append(["r", k + 1, int(t), int(refs[k, t])])
            probes.append(["e", k + 1, int(t), int(ests[k, t])])
    calls = []
    for c in line["calls"]:
        o = {}
        if L != 512 or rng.random() < 0.4:
            o["filter_length"] = L
        if c["fn"] == "sdr_loss":
            o["pairwise"] = c["form"] == "pair"
        if c["fn"] == "sdr":
            o["return_perm"] = True
            if c["neg"]:
                o["change_sign"] = True
        if c["form"] == "bssdiag":
            o["compute_permutation"] = False
        res = sut.call(c["fn"], c["be"], sut.make_array(refs.astype(float), c["be"], c["dt"]),
                       sut.make_array(ests.astype(float), c["be"], c["dt"]), o)
        ob = dict(c, out="ok", sdr=[], sir=[], sar=[], perm=[], opts={k: str(v) for k, v in o.items()})
        calls.append(ob)
        if res["kind"] == "raise":
            # scores that hold both infinities are refused (deliberate)
            ob["out"] = "raise:" + res["exc"] + ":" + res["msg"][:60]
            continue
        outs = res["outs"]
        want = {"bss": 4, "bssdiag": 3, "perm": 2}.get(c["form"], 1)
        ob["sdr"] = sut.nested(outs[0], pairval)
        if c["form"] in ("bss", "bssdiag") and res["n"] >= 3:
            ob["sir"], ob["sar"] = sut.nested(outs[1], pairval), sut.nested(outs[2], pairval)
        if c["form"] in ("bss", "perm"):
            ob["perm"] = [int(x) for x in np.atleast_1d(outs[-1])]
        shp = (K, K) if c["form"] == "pair" else (K,)
        if res["n"] != want or any(tuple(v.shape) != shp for v in outs):
            ob["out"] = "shape"
    return {k: line[k] for k in ("id", "K", "L", "T", "lead", "tail", "refs", "ests")} | {"probes": probes, "calls": calls}
