"""Driver of the abstract-signal calls (C10, C14, and degenerate cases of C09, C12):
ApiPlan.tla -> ApiTrace.tla."""
import math

import numpy as np

from . import sut
from .sessionrun import ambient, pairval

# documented order of the options
SIG = {
    "bss_eval_sources": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "compute_permutation", "load_diag"],
    "sdr": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "return_perm", "change_sign"],
    "sdr_loss": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "pairwise"],
    "sdr_pit_loss": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag"],
    "si_bss_eval_sources": ["zero_mean", "clamp_db", "compute_permutation", "load_diag"],
    "si_sdr": ["zero_mean", "clamp_db", "return_perm", "change_sign"],
    "si_sdr_loss": ["zero_mean", "clamp_db", "pairwise"],
    "si_sdr_pit_loss": ["zero_mean", "clamp_db"],
    "pairwise_sdr_loss": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag"],
    "pairwise_si_sdr_loss": ["zero_mean", "clamp_db"],
}
DEFAULT = {"filter_length": 512, "use_cg_iter": None, "zero_mean": False, "clamp_db": None, "load_diag": None,
           "compute_permutation": True, "return_perm": False, "change_sign": False, "pairwise": False}


def options(cfg, rng):
    want = dict(DEFAULT)
    want["filter_length"] = cfg["L"]
    want["use_cg_iter"] = cfg["cg"] or None
    want["zero_mean"] = cfg["zm"]
    want["clamp_db"] = float(cfg["clamp"]) if cfg["clamp"] else None
    want["load_diag"] = cfg["dn"] / cfg["dd"] if cfg["dn"] else None
    want["compute_permutation"] = cfg["form"] != "bssdiag"
    want["return_perm"] = cfg["form"] == "perm"
    want["change_sign"] = cfg["neg"] and cfg["fn"] in ("sdr", "si_sdr")
    want["pairwise"] = cfg["form"] == "pair"
    o = {}
    for k in SIG[cfg["fn"]]:
        if want[k] != DEFAULT[k] or rng.random() < 0.3:
            o[k] = want[k]
    return o


def signals(line, rng):
    cfg = line["cfg"]
    K, M, L, zm = cfg["K"], cfg["M"], cfg["L"], cfg["zm"]
    D = K + 2
    gap = L + int(rng.integers(0, 3))
    per = 2 if zm else 1
    lead, trail = int(rng.integers(0, 4)), int(rng.integers(0, 2 * L + 2))
    T = lead + D * per * gap + trail + 1
    pat = np.zeros((D, T))
    order = rng.permutation(D * per)
    for s in range(D):
        pat[s, lead + order[s * per] * gap] = 1.0
        if zm:
            pat[s, lead + order[s * per + 1] * gap] = -1.0
    i16 = cfg["dt"][0] == "i"

    def gain():
        g = 2.0 ** (rng.integers(0, 7) if i16 else rng.integers(-6, 9))
        if not cfg["exact"] and not i16:
            g *= rng.uniform(0.7, 1.4)
        return g * rng.choice([-1, 1])
    refs, ests = [], []
    for it in line["items"]:
        R, E = np.zeros((K, T)), np.zeros((M, T))
        for k, r in enumerate(it["refs"]):
            g = gain()
            if r["kind"] != "silent":
                R[k] = g * pat[r["slot"] - 1]
                R[k] += it["dc"] * g
            else:
                R[k] += it["dc"]
            if r["kind"] in ("nan", "inf"):
                R[k, rng.integers(0, T)] = np.nan if r["kind"] == "nan" else rng.choice([-np.inf, np.inf])
        for m, e in enumerate(it["ests"]):
            v = np.array(e["v"], dtype=float)
            g = gain()
            E[m] = (g * v) @ pat + (it["dc"] * g if v.any() else it["dc"])
            if e["kind"] in ("nan", "inf"):
                E[m, rng.integers(0, T)] = np.nan if e["kind"] == "nan" else rng.choice([-np.inf, np.inf])
        refs.append(R)
        ests.append(E)
    b = tuple(cfg["batch"])
    return np.array(refs).reshape(b + (K, T)), np.array(ests).reshape(b + (M, T))


def task(arg):
    lines, seed = arg
    return [one(l, seed) for l in lines]


def one(line, seed):
    rng = np.random.default_rng([seed, 9, line["id"]])
    cfg = line["cfg"]
    refs, ests = signals(line, rng)
    o = sut.scalars(options(cfg, rng), rng)
    f, (order, _, _) = sut.get_func(cfg["fn"], cfg["be"])
    lay = ["c", "c", "c", "stride2", "swap", "offset", "bigend"][rng.integers(0, 7)] if refs.size else "c"
    a, b = (sut.make_array(x, cfg["be"], cfg["dt"], lay) for x in (refs, ests))
    # leading options by position, the others by name, in any order
    sig, pos = SIG[cfg["fn"]], []
    npos = int(rng.integers(0, len(sig) + 1)) if rng.random() < 0.3 else 0
    kw = dict(o)
    for k in sig[:npos]:
        pos.append(kw.pop(k, DEFAULT[k]))
    keys = list(kw)
    rng.shuffle(keys)
    if cfg["be"] == "pt":
        if cfg["rg"] in ("ref", "both"):
            a.requires_grad_()
        if cfg["rg"] in ("est", "both"):
            b.requires_grad_()
    with ambient(cfg["amb"]):
        res = sut.call(cfg["fn"], cfg["be"], a, b, {k: kw[k] for k in keys}, pos=pos)
    clamp = cfg["clamp"]
    out = {"id": line["id"], "cfg": cfg, "items": line["items"], "opts": {k: str(v) for k, v in o.items()},
           "npos": npos, "out": "ok", "tup": False, "meta": [], "obs": [], "neg": cfg["neg"], "dt": cfg["dt"], "cg": cfg["cg"],
           "clu": clamp * 1000000, "clo": sut.c9(-clamp) if clamp else 0, "chi": sut.c9(clamp) if clamp else 0}
    if res["kind"] == "raise":
        exc = res["exc"]
        if "ValueError" in res["mro"]:
            exc = "ValueError"
        out["out"] = "raise:" + exc
        out["msg"] = res["msg"]
        return out
    out["tup"] = bool(res["tuple"])
    out["meta"] = res["meta"]
    n = len(line["items"])
    outs, form = res["outs"], cfg["form"]
    vals = [[] for _ in range(n)]
    try:
        sp = [np.asarray(v).reshape((n,) + tuple(np.asarray(v).shape[len(cfg["batch"]):])) for v in outs]
        for j in range(n):
            ob = {"sdr": sut.nested(sp[0][j], pairval), "sir": [], "sar": [], "perm": []}
            if form in ("bss", "bssdiag"):
                ob["sir"], ob["sar"] = sut.nested(sp[1][j], pairval), sut.nested(sp[2][j], pairval)
            if form in ("bss", "perm"):
                ob["perm"] = [int(x) for x in sp[-1][j]]
            vals[j] = ob
    except (ValueError, IndexError, TypeError):
        out["out"] = "shape"
    out["obs"] = vals
    return out
