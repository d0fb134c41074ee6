"""Driver of the nested-subspace histories (C17): OrderPlan.tla -> OrderTrace.tla."""
import math

import numpy as np

from . import sessionrun, sut


def val(v):
    u = sut.udb(v)
    return [sut.c9(v), sut.c15(v), 0 if u is None else u]


def task(arg):
    W, seed = arg
    rng = np.random.default_rng([seed, 9, W["id"]])
    for attempt in range(20):
        refs, ests = sessionrun.scene(rng, W)
        rz = refs - refs.mean(-1, keepdims=True) if W["zm"] else refs
        k = sessionrun.condition(rz, W["qs"][-1]["L"], 0, 1)
        k = 10.0 ** sessionrun.CLASS_CK[W["cls"]] if k is None else k
        if k <= 1000:
            break
    else:
        return {"skip": W["id"]}
    ck = max(0, int(math.ceil(math.log10(k))))
    obs = []
    for c in W["calls"]:
        R = refs[[s - 1 for s in c["subset"]]]
        E = ests[[s - 1 for s in c["ests"]]]
        dt = c["dt"] if ck < 3 else "f64"
        gr = 10.0 ** rng.uniform(-2, 2, len(R)) * rng.choice([-1, 1], len(R))
        ge = 10.0 ** rng.uniform(-2, 2, len(E)) * rng.choice([-1, 1], len(E))
        o = {}
        if not c["si"]:
            o["filter_length"] = c["L"]
        if W["zm"]:
            o["zero_mean"] = True
        if c["form"] == "diag":
            o["compute_permutation"] = False
        fn = "si_bss_eval_sources" if c["si"] else "bss_eval_sources"
        res = sut.call(fn, c["be"], sut.make_array(R * gr[:, None], c["be"], dt), sut.make_array(E * ge[:, None], c["be"], dt), o)
        base = {"fn": fn, "be": c["be"], "dt": dt, "form": c["form"], "L": c["L"], "sub": sorted(c["subset"])}
        n = min(len(R), len(E))
        z = [0, [0], 0]
        if res["kind"] != "ok":
            obs.append(dict(base, out="raise:" + res["exc"], r=0, e=0, sdr=z, sir=z, sar=z))
            continue
        outs = res["outs"]
        if res["n"] != (4 if c["form"] == "bss" else 3) or any(v.shape != (n,) for v in outs):
            obs.append(dict(base, out="shape", r=0, e=0, sdr=z, sir=z, sar=z))
            continue
        for j in range(n):
            if c["form"] == "bss":
                p = int(outs[3][j])
                r, e = (j, p) if len(R) <= len(E) else (p, j)
            else:
                r, e = j, j
            obs.append(dict(base, out="ok", r=int(c["subset"][r]), e=int(c["ests"][e]),
                            sdr=val(outs[0][j]), sir=val(outs[1][j]), sar=val(outs[2][j])))
    for o in obs:
        for k in ("sdr", "sir", "sar"):
            if o[k][1] == []:
                o[k][1] = [0]
    return {"id": W["id"], "ck": ck, "obs": obs, "meta": {k: W[k] for k in ("K", "M", "T", "zm", "cls", "mix")}}
