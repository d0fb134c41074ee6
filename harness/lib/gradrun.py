"""Driver of the gradient checks (C15): GradPlan.tla -> GradTrace.tla."""
import math

import numpy as np

from . import exact, sut
from .exactrun import cond, gains, strip
from .sut import torch

LN = math.log(10.0) / 10.0


def opts_of(line, c, perm=None):
    o = {}
    si = c["fn"].startswith("si_") or c["fn"] == "pairwise_si_sdr_loss"
    if not si:
        if line["L"] != 512:
            o["filter_length"] = line["L"]
        if c["cg"]:
            o["use_cg_iter"] = c["cg"]
    if line["zm"]:
        o["zero_mean"] = True
    if c["clamp"]:
        o["clamp_db"] = float(c["clamp"])
    if line["dn"]:
        o["load_diag"] = line["dn"] / line["dd"]
    if c["fn"] in ("sdr_loss", "si_sdr_loss"):
        o["pairwise"] = c["form"] == "pair"
    if c["fn"] in ("sdr", "si_sdr"):
        if c["form"] == "perm" or perm:
            o["return_perm"] = True
        if c["neg"]:
            o["change_sign"] = True
    if c["form"] == "bssdiag":
        o["compute_permutation"] = False
    return o


def scene(rng, line):
    """base signals; integers on exact lines"""
    K, M, T, L = line["K"], line["M"], line["T"], line["L"]
    big = not line["exact"]
    draw = (lambda *s: rng.standard_normal(s)) if big else (lambda *s: rng.integers(-4, 5, s).astype(float))
    refs = draw(K, T)
    if line["zm"]:
        refs = refs + (rng.standard_normal((K, 1)) if big else rng.integers(-2, 3, (K, 1)))
    if line["cls"] in ("disjoint", "faint") and T >= (K + M) * (L + 2):
        n = T // K - L
        mask = np.zeros((K, T))
        for k in range(K):
            mask[k, k * (n + L):k * (n + L) + n] = 1
        refs *= mask
        own = [m if m < K else int(rng.integers(0, K)) for m in range(M)]
        ests = np.array([refs[own[m]] * 2 * rng.choice([-1, 1]) for m in range(M)]) + draw(M, T) * np.array([mask[o] for o in own]) * (0.5 if big else 1)
        if line["cls"] == "faint":
            # the other pairs are all but orthogonal, with coherences of about 1e-22
            ests = ests + 1e-11 * rng.choice([-1, 1], (M, K)) @ refs
        return refs, ests
    A = draw(M, K) * 0.2 if big else rng.integers(-1, 2, (M, K))
    p = rng.permutation(max(K, M))
    for m in range(M):
        if p[m] < K:
            A[m, p[m]] = rng.choice([-1, 1]) * (1 if big else 2)
    ests = A @ refs + draw(M, T) * (rng.choice([0.1, 0.3, 1.0]) if big else 1)
    if line["cls"] == "close" and big:
        # nearly perfect estimates, beyond most clamping bounds
        ests = refs[[m % K for m in range(M)]] * rng.choice([-1, 1], (M, 1)) + 10.0 ** rng.uniform(-4.5, -1.5) * draw(M, T)
        return refs, ests
    if T > 4 and L > 1:
        ests[:, 1:] += (draw(M, K) * 0.3 if big else rng.integers(-1, 2, (M, K))) @ refs[:, :-1]
    return refs, ests


def prepare(rng, line):
    K, M, T, L = line["K"], line["M"], line["T"], line["L"]
    for _ in range(100):
        refs, ests = scene(rng, line)
        rc, ec = refs, ests
        if line["zm"]:
            rc, ec = refs - refs.mean(-1, keepdims=True), ests - ests.mean(-1, keepdims=True)
        if (np.sum(rc ** 2, -1) < 0.5).any() or (np.sum(ec ** 2, -1) < 0.5).any():
            continue
        if K * L <= 100:
            kap = max(cond(rc, L, line["dn"], line["dd"], True) if not line["exact"] or True else 1,
                      max(cond(rc[k:k + 1], L, 0, 1, True) for k in range(K))) if not line["exact"] else 1.0
        else:
            kap = 10.0
        s = {"refs": refs, "ests": ests}
        if line["exact"]:
            ri, ei = refs.astype(np.int64), ests.astype(np.int64)
            if line["zm"]:
                ri = ri * T - ri.sum(-1, keepdims=True)
                ei = ei * T - ei.sum(-1, keepdims=True)
            kap = max([cond(ri[k:k + 1], L, 0, 1, True) for k in range(K)] + [cond(ri, L, line["dn"], line["dd"], True)])
            if not kap < 300:
                continue
            dnS = line["dn"] if L > 1 else 0
            cs = [exact.certify([ri[k]], list(ei), L, dnS, line["dd"]) for k in range(K)]
            cj = exact.certify(list(ri), list(ei), L, line["dn"], line["dd"])
            if cj is None or any(c is None for c in cs) or min(c["c"] for c in cj) < 1e-2:
                continue
            s.update(cs=cs, cj=cj)
        elif not kap < 1000:
            continue
        s["ck"] = int(math.ceil(math.log10(max(1.0, kap))))
        return s
    return None


def forward(line, c, o, R, E):
    """outputs of the call with graph, or the name of the exception"""
    f, (order, _, _) = sut.get_func(c["fn"], "pt")
    try:
        out = f(R, E, **o) if order == "ref" else f(E, R, **o)
    except Exception as exc:
        return None, "raise:" + ("ValueError" if isinstance(exc, ValueError) else type(exc).__name__)
    return (list(out) if isinstance(out, (tuple, list)) else [out]), "ok"


def perm_at(line, c, R, E, idx):
    """assignment behind the outputs of item idx, or None"""
    if c["form"] in ("pair", "diag", "bssdiag"):
        return None
    cc = dict(c)
    if c["form"] == "pit":
        cc["fn"] = "si_sdr" if c["fn"].startswith("si_") else "sdr"
        cc["neg"] = False
    with torch.no_grad():
        outs, st = forward(line, cc, opts_of(line, cc, perm=True), R, E)
    return [int(x) for x in outs[-1][idx]] if st == "ok" else None


def raw_value(line, c, r, e, k, m):
    """unclamped metric of the pair, numpy double precision, micro-dB"""
    o = {"filter_length": 1 if c["fn"].startswith("si_") else line["L"]}
    if line["zm"]:
        o["zero_mean"] = True
    if line["dn"]:
        o["load_diag"] = line["dn"] / line["dd"]
    s = sut.call("sdr_loss", "np", r, e, dict(o, pairwise=True))
    if s["kind"] == "raise":
        return 0
    v = -float(s["outs"][0][k, m])
    if c["metric"] != "sdr":
        j = sut.call("bss_eval_sources", "np", r, e[m:m + 1], o)
        if j["kind"] == "raise":
            return 0
        a = float(j["outs"][2][0])
        if c["metric"] == "sar":
            v = a
        else:
            q = sut.coh(v) / max(sut.coh(a), 1e-300)
            v = 10 * math.log10(q / (1 - q)) if 0 < q < 1 else (200.0 if q >= 1 else -200.0)
    u = sut.udb(v)
    return 0 if u is None else max(-500000000, min(500000000, u))


def limb12(v):
    return exact.limbs(int(round(float(v) * 1e12)))


def one_call(line, s, c, rng):
    K, M, T, L = line["K"], line["M"], line["T"], line["L"]
    ob = dict(c, metric="sdr", k=1, m=1, out="ok", fin=True, rest=0, gr=[], ge=[],
              clo=exact.limbs(int(round(sut.coh(-c["clamp"]) * 1e15))) if c["clamp"] else [0],
              chi=exact.limbs(int(round(sut.coh(c["clamp"]) * 1e15))) if c["clamp"] else [0],
              dd=0, fd=0, sc=0, eul=0, sum=0, raw=[0, 0, 0], same=True, zero=False)
    b = tuple(c["batch"])
    if L >= 64 and int(np.prod(b)) > 1:
        b = (1,)
    gr, ge = gains(rng, c["gain"], K), gains(rng, c["gain"], M)
    idx = tuple(int(rng.integers(0, n)) for n in b)
    R0, E0 = np.empty(b + (K, T)), np.empty(b + (M, T))
    for j in np.ndindex(*b):
        R0[j] = s["refs"][rng.permutation(K)] * 1.5
        E0[j] = s["ests"][rng.permutation(M)] * 0.7
    R0[idx], E0[idx] = s["refs"] * gr[:, None], s["ests"] * ge[:, None]
    R, E = sut.make_array(R0, "pt", c["dt"], c["lay"]), sut.make_array(E0, "pt", c["dt"], c["lay"])
    if c["wrt"] != "est":
        R.requires_grad_()
    if c["wrt"] != "ref":
        E.requires_grad_()
    o = opts_of(line, c)
    ob["opts"] = {k: str(v) for k, v in o.items()}
    outs, ob["out"] = forward(line, c, o, R, E)
    if outs is None:
        return ob
    perm = perm_at(line, c, R.detach(), E.detach(), idx)
    if c["form"] in ("bss", "perm", "pit") and perm is None:
        ob["out"] = "skip"
        return ob
    metrics = ["sdr", "sir", "sar"] if c["form"] in ("bss", "bssdiag") else ["sdr"]
    # with a single reference the SIR is infinite
    i = int(rng.integers(0, len(metrics)))
    if K == 1 and metrics[i] == "sir":
        i = 0
    ob["metric"] = metrics[i]
    if len(outs) != {"bss": 4, "bssdiag": 3, "perm": 2}.get(c["form"], 1):
        ob["out"] = "shape"
        return ob
    if c["form"] == "pair":
        k, m = int(rng.integers(0, K)), int(rng.integers(0, M))
        ent = (k, m)
    else:
        n = int(rng.integers(0, min(K, M)))
        ent = (n,)
        k, m = (n, n) if perm is None else ((n, perm[n]) if K <= M else (perm[n], n))
    ob["k"], ob["m"] = k + 1, m + 1
    try:
        y = outs[i][idx + ent]
        ins = [x for x in (R, E) if x.requires_grad]
        g = torch.autograd.grad(y, ins)
    except Exception as exc:
        ob["out"] = "backward:" + type(exc).__name__
        return ob
    v = float(y.detach()) * (-1 if c["neg"] else 1)
    g = {("R" if x is R else "E"): (gg.detach().double().numpy() * (-1 if c["neg"] else 1)) for x, gg in zip(ins, g)}
    GR, GE = g.get("R", np.zeros_like(R0)), g.get("E", np.zeros_like(E0))
    ob["fin"] = bool(np.isfinite(GR).all() and np.isfinite(GE).all())
    if not ob["fin"]:
        GR, GE = np.nan_to_num(GR, nan=1e3, posinf=1e3, neginf=-1e3), np.nan_to_num(GE, nan=1e3, posinf=1e3, neginf=-1e3)
    gRi, gEi = GR[idx] * gr[:, None], GE[idx] * ge[:, None]
    ob["rest"] = int(min(9999, np.count_nonzero(GR) - np.count_nonzero(GR[idx]) + np.count_nonzero(GE) - np.count_nonzero(GE[idx])))
    if line["exact"]:
        cc = sut.coh(v)
        f = 0.0 if math.isnan(cc) else cc * (1 - cc) * LN
        if c["clamp"] and abs(v) > c["clamp"] - 1e-3:
            f = 1.0
        ob["gr"] = [[limb12(np.clip(x * f, -1e6, 1e6)) for x in row] for row in gRi]
        ob["ge"] = [[limb12(np.clip(x * f, -1e6, 1e6)) for x in row] for row in gEi]
        return ob
    # directional derivative along a random direction, on the base scale
    ob["rest"] += int(min(9999, sum(np.count_nonzero(gEi[x]) for x in range(M) if x != m)))
    if ob["metric"] == "sdr":
        ob["rest"] += int(min(9999, sum(np.count_nonzero(gRi[x]) for x in range(K) if x != k)))
    ob["zero"] = bool(not GR.any() and not GE.any())
    # keep the direction along the gradient half of the time (every component counts)
    dR, dE = rng.standard_normal((K, T)), rng.standard_normal((M, T))
    if rng.random() < 0.5:
        nr = math.sqrt(np.sum(gRi ** 2) + np.sum(gEi ** 2))
        if nr > 0:
            dR, dE = dR * 0.1 + gRi / nr * math.sqrt(T), dE * 0.1 + gEi / nr * math.sqrt(T)
    dR, dE = dR * (c["wrt"] != "est"), dE * (c["wrt"] != "ref")
    h = 1e-5
    val, perms, raws = [], [], []
    for sg in (-1, 0, 1):
        r, e = s["refs"] + sg * h * dR, s["ests"] + sg * h * dE
        R1, E1 = R0.copy(), E0.copy()
        R1[idx], E1[idx] = r * gr[:, None], e * ge[:, None]
        tR, tE = torch.tensor(R1), torch.tensor(E1)
        with torch.no_grad():
            oo, st = forward(line, c, o, tR, tE)
        if oo is None:
            ob["out"] = "skip"
            return ob
        val.append(float(oo[i][idx + ent]) * (-1 if c["neg"] else 1))
        perms.append(perm_at(line, c, tR, tE, idx))
        raws.append(raw_value(line, ob, r, e, k, m))
    ob["same"] = all(p == perm for p in perms)
    ob["raw"] = raws
    if not all(math.isfinite(x) for x in val):
        return ob
    S = 1e8
    clip = lambda x: int(max(-2e9, min(2e9, round(x))))
    con = np.concatenate([(gRi * dR).ravel(), (gEi * dE).ravel()])
    # normalise to a derivative of at most 20 dB
    sc = np.linalg.norm(con) * 3 + abs(con.sum())
    q = min(1.0, 15.0 / sc) if sc > 0 else 1.0
    ob["dd"] = clip(con.sum() * q * S)
    ob["fd"] = clip((val[2] - val[0]) / (2 * h) * q * S)
    ob["sc"] = clip(sc * q * S)
    eul = sm = 0.0
    for G, X in ((gRi, s["refs"]), (gEi, s["ests"])):
        for a, x in zip(G, X):
            n = np.linalg.norm(a)
            if n > 1e-6:
                xc = x - x.mean() if line["zm"] else x
                eul = max(eul, abs(a @ xc) / n / np.linalg.norm(x))
                sm = max(sm, abs(a.sum()) / n / math.sqrt(T))
    ob["eul"], ob["sum"] = clip(eul * 1e9), clip(sm * 1e9)
    return ob


def task(arg):
    line, seed = arg
    rng = np.random.default_rng([seed, 11, line["id"]])
    s = prepare(rng, line)
    if s is None:
        return {"skip": line["id"]}
    # (the iterative solver does not reach the quality of nearly perfect estimates)
    calls = [one_call(line, s, dict(c, cg=0) if line["cls"] == "close" else c, rng) for c in line["calls"]]
    out = {k: line[k] for k in ("id", "exact", "K", "M", "T", "L", "zm", "dn", "dd", "cls")}
    out.update(ck=s["ck"], calls=calls, refs=[], ests=[], cs=[], cj=[])
    if line["exact"]:
        out.update(refs=[exact.sparse(x.astype(np.int64)) for x in s["refs"]], ests=[exact.sparse(x.astype(np.int64)) for x in s["ests"]],
                   cs=[[strip(c) for c in row] for row in s["cs"]], cj=[strip(c) for c in s["cj"]])
    return out
