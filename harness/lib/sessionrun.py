"""Driver of the session checks: executes the histories planned by
SessionPlan.tla and records the traces judged by SessionTrace.tla."""
import contextlib
import gc
import io
import math
import os
import random
import sys
import threading
import warnings

import numpy as np

from . import sut
from .sut import torch

KINDS_RAISE = {"nan": "raise:ValueError", "inf": "raise:ValueError", "hilo": "raise:ValueError",
               "shape": "raise", "singular": "raise"}


# ---- scenes ------------------------------------------------------------------

def colour(rng, x, cls):
    if cls == "colour":
        f = np.array([1.0, 0.6, 0.2])
    elif cls == "colour2":
        f = np.array([1.0, -0.5, 0.25, 0.1])
    else:
        return x
    return np.apply_along_axis(lambda v: np.convolve(v, f)[: x.shape[-1]], -1, x)


def scene(rng, W):
    K, M, T = W["K"], W["M"], W["T"]
    Lmax = max(q["L"] for q in W["qs"])
    x = rng.standard_normal((K, T)) if W["cls"] == "gauss" else rng.uniform(-1, 1, (K, T))
    refs = colour(rng, x, W["cls"])
    refs = refs / np.sqrt(np.mean(refs ** 2, -1, keepdims=True))
    A = np.zeros((M, K))
    mix = W["mix"]
    if mix == "levels":
        # disjoint supports: scores from a few levels, with many ties
        own = rng.permutation(T) % (K + 1)
        refs = np.array([np.where(own == k, refs[k], 0.0) for k in range(K)])
        refs = refs / np.linalg.norm(refs, axis=-1, keepdims=True)
        noise = np.where(own == K, rng.standard_normal((M, T)), 0.0)
        noise /= np.linalg.norm(noise, axis=-1, keepdims=True)
        amp = rng.choice([(1, 2, 2), (1, 2, 3), (1, 1, 2), (2, 2, 3)][rng.integers(0, 4)], (M, K)).astype(float)
        tot = 9.5 * K
        ests = (amp * rng.choice([-1, 1], (M, K))) @ refs + noise * np.sqrt(tot - np.sum(amp ** 2, -1, keepdims=True))
        return refs * math.sqrt(T), ests
    if mix == "ambiguous":
        A = rng.uniform(-1, 1, (M, K))
    elif mix == "close":
        A = 1.0 + 0.05 * rng.standard_normal((M, K))
    else:
        A = rng.uniform(-1, 1, (M, K)) * (0.15 if mix == "good" else 0.5)
        p = rng.permutation(max(K, M))
        for i in range(max(K, M)):
            if p[i] < M and i < K:
                A[p[i], i] = rng.choice([-1, 1]) * rng.uniform(0.8, 1.2)
    ests = np.zeros((M, T))
    nt = int(min(T, max(1, rng.integers(1, Lmax + 3))))
    for m in range(M):
        for k in range(K):
            h = np.zeros(nt)
            h[0] = 1.0
            if nt > 1 and rng.random() < 0.8:
                h[1:] = rng.standard_normal(nt - 1) * 0.5 / math.sqrt(nt)
            ests[m] += A[m, k] * np.convolve(refs[k], h)[:T]
    noise = {"good": 0.03, "medium": 0.2, "ambiguous": 0.5, "close": 0.3, "poor": 30.0}[mix]
    level = np.full((M, 1), noise)
    if mix in ("ambiguous", "medium") and rng.random() < 0.5:
        # very different artefacts: the orders of SDR and SIR differ
        level = 10.0 ** rng.uniform(-1.5, 1, (M, 1))
    ests += level * rng.standard_normal((M, T))
    if W.get("hush"):
        ests[rng.integers(0, M)] = 0.0
    return refs, ests


def condition(refs, L, dn, dd):
    K, T = refs.shape
    if K * L > 300:
        return None
    n = refs / np.linalg.norm(refs, axis=-1, keepdims=True)
    A = np.zeros((K * L, T + L - 1))
    for k in range(K):
        for l in range(L):
            A[k * L + l, l: l + T] = n[k]
    G = A @ A.T
    w = np.linalg.eigvalsh(G)
    lo = w[0] + (dn / dd if dn else 0.0)
    return float("inf") if lo <= 1e-14 else (w[-1] + (dn / dd)) / lo


CLASS_CK = {"white": 1, "gauss": 1, "colour": 2, "colour2": 2}


def pairval(v):
    u = sut.udb(v)
    return [sut.c9(v), 0 if u is None else u]


def truth(refs, ests, q):
    o = {"filter_length": q["L"]}
    if q["zm"]:
        o["zero_mean"] = True
    if q["dn"]:
        o["load_diag"] = q["dn"] / q["dd"]
    K, M = len(refs), len(ests)
    r = sut.call("sdr_loss", "np", refs.copy(), ests.copy(), dict(o, pairwise=True))
    if r["kind"] != "ok" or r["outs"][0].shape != (K, M):
        return {"err": "sdr_loss: %s" % (r.get("msg") or r["meta"])}
    P = -r["outs"][0]
    S = np.zeros((K, M))
    A = np.zeros(M)
    for e in range(M):
        if not ests[e].any():   # its SIR is undefined and never looked at
            A[e] = -np.inf
            continue
        r = sut.call("bss_eval_sources", "np", refs.copy(), np.tile(ests[e], (K, 1)), dict(o, compute_permutation=False))
        if r["kind"] != "ok" or r["outs"][1].shape != (K,):
            return {"err": "bss_eval_sources: %s" % (r.get("msg") or r["meta"])}
        S[:, e] = r["outs"][1]
        A[e] = r["outs"][2][0]
    if np.isnan(P).any() or np.isnan(A).any() or np.isnan(S).any():
        return {"err": "nan"}
    return {"P": [[pairval(v) for v in row] for row in P], "S": [[pairval(v) for v in row] for row in S],
            "A": [pairval(v) for v in A]}


# ---- dual potentials (integers), for selections too large to enumerate ---------

def hungarian(cost):
    """potentials of a minimum-cost assignment, rows <= columns"""
    n, m = len(cost), len(cost[0])
    INF = 10 ** 18
    u, v, p, way = [0] * (n + 1), [0] * (m + 1), [0] * (m + 1), [0] * (m + 1)
    for i in range(1, n + 1):
        p[0] = i
        j0 = 0
        minv = [INF] * (m + 1)
        used = [False] * (m + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, -1
            for j in range(1, m + 1):
                if not used[j]:
                    cur = cost[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(m + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return u[1:], v[1:]


def dual(Sc):
    n, m = len(Sc), len(Sc[0])
    if min(n, m) <= 4 and max(n, m) <= 6 or any(abs(x) > 140000000 for r in Sc for x in r):
        return {"u": [], "v": []}
    neg = [[-x for x in r] for r in Sc]
    if n <= m:
        u, v = hungarian(neg)
    else:
        v, u = hungarian([list(c) for c in zip(*neg)])
    return {"u": u, "v": v}


# ---- one call -------------------------------------------------------------------

def gains(rng, kind, n, dt, be):
    sgn = rng.choice([-1.0, 1.0], n)
    if kind == "unit":
        return np.ones(n)
    if kind == "neg":
        return -np.ones(n)
    if kind == "pow2":
        return 2.0 ** rng.integers(-8, 9, n) * sgn
    if kind == "mixed":
        return 10.0 ** rng.uniform(-3, 4, n) * sgn
    if kind == "small":
        return 10.0 ** rng.uniform(-5, -2, n) * sgn
    if kind == "large":
        return 10.0 ** rng.uniform(3, 6, n) * sgn
    if kind == "wide":
        return 10.0 ** rng.uniform(-5, 15 if dt == "f32" else 140, n) * sgn
    raise ValueError(kind)


def global_state():
    s = np.random.get_state()
    return sut.digest(s[1]) + str(s[2:]) + str(hash(random.getstate())) + sut.digest(torch.random.get_rng_state()) + \
        repr((sorted(np.geterr().items()), str(torch.get_default_dtype()), torch.is_grad_enabled(), torch.get_num_threads(),
              torch.are_deterministic_algorithms_enabled(), torch.is_inference_mode_enabled(), 0,
              sys.getrecursionlimit(), repr(warnings.filters), np.getbufsize(), np.geterrcall(), repr(np.get_printoptions()),
              str(torch.get_default_device()), hash(frozenset(os.environ.items())), os.getcwd(), gc.isenabled(),
              torch.is_warn_always_enabled(), torch.is_autocast_enabled("cpu"), torch.get_float32_matmul_precision()))


@contextlib.contextmanager
def ambient(amb):
    """the state of the process around a call"""
    old, dt, g = np.geterr(), torch.get_default_dtype(), torch.is_grad_enabled()
    try:
        if amb:
            if amb["err"] != "mixed":
                np.seterr(all=amb["err"])
            else:
                np.seterr(divide="warn", over="ignore", under="warn", invalid="ignore")
            torch.set_default_dtype(torch.float64 if amb["tdt"] == "f64" else torch.float32)
            torch.set_grad_enabled(amb["grad"])
        with torch.inference_mode(bool(amb and amb.get("inf"))):
            yield
    finally:
        np.seterr(**old)
        torch.set_default_dtype(dt)
        torch.set_grad_enabled(g)


def memory_of(a):
    if isinstance(a, torch.Tensor):
        st = a.untyped_storage()
        return (st.data_ptr(), st.data_ptr() + st.nbytes())
    lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
    return (lo, hi)


def overlap(a, b):
    x, y = memory_of(a), memory_of(b)
    return x[0] < y[1] and y[0] < x[1] and x[0] != x[1] and y[0] != y[1]


def options(c, q, rng):
    o = {}
    si = c["si"]
    if not si:
        if not (q["L"] == 512 and rng.random() < 0.5):
            o["filter_length"] = q["L"]
        if c["cg"]:
            o["use_cg_iter"] = c["cg"]
        elif rng.random() < 0.2:
            o["use_cg_iter"] = None
    if q["dn"] and (not si or "bss" in c["fn"]):
        o["load_diag"] = q["dn"] / q["dd"]
    if q["zm"]:
        o["zero_mean"] = True
    elif rng.random() < 0.2:
        o["zero_mean"] = False
    if c["clamp"] >= 0:
        o["clamp_db"] = c["clamp"] // 1000 if c["clamp"] % 1000 == 0 and rng.random() < 0.3 else c["clamp"] / 1000
    elif rng.random() < 0.2:
        o["clamp_db"] = None
    f = c["form"]
    if c["fn"] in ("sdr_loss", "si_sdr_loss"):
        if f == "pair" or rng.random() < 0.5:
            o["pairwise"] = f == "pair"
    if c["fn"] in ("sdr", "si_sdr"):
        if f == "perm":
            o["return_perm"] = True
        if c["neg"]:
            o["change_sign"] = True
    if f == "bssdiag":
        o["compute_permutation"] = False
    elif f == "bss" and rng.random() < 0.3:
        o["compute_permutation"] = True
    return o


def build(c, W, scenes, rng):
    """arguments of a call and the description of the items they hold"""
    K, M = W["K"], W["M"]
    q = W["qs"][c["qi"] - 1]
    b = tuple(c["batch"])
    n = int(np.prod(b)) if b else 1
    items, R, E = [], [], []
    pad = (0, 0)
    if c["pad"] != "no":
        pad = (int(rng.integers(1, 40)) if c["pad"] in ("pre", "both") else 0,
               int(rng.integers(1, 600)) if c["pad"] in ("post", "both") else 0)
        if q["zm"]:
            pad = (0, 0)
    lead = b[0] if b else 1
    per = n // lead if c["lay"] == "bcast" and b else n
    for j in range(per):
        s = int(rng.integers(0, len(scenes)))
        refs, ests = scenes[s]
        rs, es = np.arange(K), np.arange(M)
        if c["order"] in ("ref", "both"):
            rs = rng.permutation(K)
        if c["order"] in ("est", "both"):
            es = rng.permutation(M)
        if c["form"] in ("diag", "bssdiag"):
            pass
        gr, ge = gains(rng, c["gain"], K, c["dt"], c["be"]), gains(rng, c["gain"], M, c["dt"], c["be"])
        r, e = refs[rs], ests[es]
        if c["dc"] == "yes" and q["zm"]:
            r = r + rng.uniform(-1, 1, (K, 1))
            # (a silent estimate stays silent: the mean of a constant is not exact)
            e = e + rng.uniform(-1, 1, (M, 1)) * e.any(-1, keepdims=True)
        r, e = r * gr[:, None], e * ge[:, None]
        if pad != (0, 0):
            r, e = np.pad(r, ((0, 0), pad)), np.pad(e, ((0, 0), pad))
        items.append({"scene": s + 1, "rs": [int(x) + 1 for x in rs], "es": [int(x) + 1 for x in es]})
        R.append(r)
        E.append(e)
    if per < n:
        items, R, E = items * lead, R * lead, E * lead
    R = np.stack(R).reshape(b + R[0].shape) if b else R[0]
    E = np.stack(E).reshape(b + E[0].shape) if b else E[0]
    R, E = sut.make_array(R, c["be"], c["dt"], c["lay"]), sut.make_array(E, c["be"], c["dt"], c["lay"])
    if c["be"] == "pt":
        if c["rg"] in ("ref", "both"):
            R.requires_grad_()
        if c["rg"] in ("est", "both"):
            E.requires_grad_()
    return R, E, sut.scalars(options(c, q, rng), rng), items, b


def trouble_call(kind, c, W, scenes, rng):
    """a call that must fail"""
    refs, ests = [np.array(x) for x in scenes[0]]
    be, dt = c["be"], c["dt"]
    q = W["qs"][c["qi"] - 1]
    o = {"filter_length": q["L"]}
    fn = "sdr"
    if kind == "nan":
        ests[rng.integers(0, len(ests)), rng.integers(0, ests.shape[1])] = np.nan
        fn = str(rng.choice(["sdr", "bss_eval_sources", "sdr_pit_loss"]))
    elif kind == "inf":
        refs[rng.integers(0, len(refs)), rng.integers(0, refs.shape[1])] = rng.choice([np.inf, -np.inf])
        fn = str(rng.choice(["sdr", "bss_eval_sources", "sdr_pit_loss"]))
    elif kind == "shape":
        refs = np.concatenate([refs, refs[:1]])[: len(ests) + 1]
        refs = np.concatenate([refs] * 3)[: len(ests) + 1]
        fn, o = "bss_eval_sources", {"filter_length": 1, "compute_permutation": False}
    elif kind == "hilo":
        # exact copy of the first reference and of nothing else: +inf and -inf scores
        T = refs.shape[1]
        refs = np.zeros((2, T))
        refs[0, : T // 2] = 1.0
        refs[1, T // 2:] = 1.0
        refs = np.array([refs[0] * 0, refs[1] * 0])
        refs[0, 0] = 1.0
        refs[1, T // 2] = 2.0
        ests = refs.copy()
        fn, o = "si_sdr", {}
    elif kind == "singular":
        refs[0] = 0.0
        fn, o = "bss_eval_sources", {"filter_length": 1}
    return fn, sut.make_array(refs, be, dt), sut.make_array(ests, be, dt), o


def observe(c, q, args, recall=None, quiet=False, keep=None):
    """perform a call and record everything about it"""
    fn, R, E, o, items, b = args
    want = {"bss": 4, "bssdiag": 3, "perm": 2}.get(c["form"], 1)
    held = keep if keep is not None else []
    ob = {"q": c["qi"], "form": c["form"], "neg": bool(c["neg"]), "dt": c["dt"], "cg": c["cg"],
          "len": int(R.shape[-1]), "clu": c["clamp"] * 1000, "clo": sut.c9(-c["clamp"] / 1000), "chi": sut.c9(c["clamp"] / 1000),
          "out": "ok", "want": "ok", "key": "", "dig": "", "items": [], "alias": False, "printed": False}
    argb = sut.digest(R) + sut.digest(E) + "".join(sut.digest(x) for x in held)
    keyargs = (fn, c["be"], sorted((k, str(v)) for k, v in o.items()), sut.digest(R), sut.digest(E),
               tuple(R.shape), tuple(E.shape), R.stride() if isinstance(R, torch.Tensor) else R.strides,
               E.stride() if isinstance(E, torch.Tensor) else E.strides, c["lay"])
    import hashlib
    ob["key"] = hashlib.sha256(repr(keyargs).encode()).hexdigest()[:16]
    if quiet:
        res = sut.call(fn, c["be"], R, E, o, raw=True)
        ob["stb"] = ob["sta"] = ""
    else:
        out, err = io.StringIO(), io.StringIO()
        with ambient(c.get("amb")):
            stb = global_state()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                res = sut.call(fn, c["be"], R, E, o, raw=True)
            sta = global_state()
        import hashlib
        ob["stb"], ob["sta"] = [hashlib.sha256(x.encode()).hexdigest()[:16] for x in (stb, sta)]
        ob["printed"] = bool(out.getvalue() or err.getvalue())
    ob["argb"] = argb
    ob["arga"] = sut.digest(R) + sut.digest(E) + "".join(sut.digest(x) for x in held)
    if len(ob["argb"]) > 64:
        ob["argb"], ob["arga"] = [hashlib.sha256(x.encode()).hexdigest()[:16] for x in (ob["argb"], ob["arga"])]
    if res["kind"] == "raise":
        ob["out"] = "raise"
        ob["exc"] = res["exc"] + ": " + res["msg"]
        ob["dig"] = "raise:" + res["exc"]
        return ob
    ob["dig"] = "/".join(sut.digest(x) for x in res["outs"])
    for i, x in enumerate(res["raw"]):
        for y in [R, E] + held + res["raw"][:i]:
            if isinstance(x, (np.ndarray, torch.Tensor)) and x.size != 0 and overlap(x, y):
                ob["alias"] = True
    if keep is not None and not quiet:
        keep.extend(x for x in res["raw"] if isinstance(x, (np.ndarray, torch.Tensor)))
        del keep[:-12]
    if res["n"] != want or any(tuple(m["shape"][:len(b)]) != tuple(b) for m in res["meta"]):
        ob["out"] = "shape"
        return ob
    n = len(items)
    js = list(np.ndindex(*b)) if b else [()]
    show = range(n) if n <= 12 else sorted(set([0, 1, n - 1, n - 2] + [int(x) for x in np.linspace(0, n - 1, 8)]))
    for j in show:
        it, idx = items[j], js[j]
        outs = [v[idx] for v in res["outs"]]
        x = {"scene": it["scene"], "rs": it["rs"], "es": it["es"], "sdr": [], "sir": [], "sar": [], "perm": [],
             "dual": {"u": [], "v": []}}
        x["sdr"] = sut.nested(outs[0], pairval) if outs[0].ndim else []
        if c["form"] in ("bss", "bssdiag"):
            x["sir"] = sut.nested(outs[1], pairval)
            x["sar"] = sut.nested(outs[2], pairval)
        if c["form"] in ("bss", "perm"):
            x["perm"] = [int(v) for v in np.atleast_1d(outs[-1])]
        ob["items"].append(x)
    return ob


def shape_depth(x, d):
    """number of nesting levels of the projected metrics (values are pairs)"""
    for _ in range(d):
        if not isinstance(x, list):
            return False
        if not x:
            return True
        x = x[0]
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int)


def attach_duals(ob, W, sc):
    for it in ob["items"]:
        q = sc[it["scene"] - 1]["q"][ob["q"] - 1]
        src = q["S"] if ob["form"] == "bss" else q["P"]
        Sc = [[src[r - 1][e - 1][1] for e in it["es"]] for r in it["rs"]]
        if ob["clu"] >= 0:
            Sc = [[max(-ob["clu"], min(ob["clu"], x)) for x in r] for r in Sc]
        if ob["form"] in ("bss", "perm"):
            it["dual"] = dual(Sc)


def task(arg):
    W, seed = arg
    rng = np.random.default_rng([seed, 77, W["id"]])
    ck, scenes, sc = None, None, None
    for attempt in range(30):
        scenes = [scene(rng, W) for _ in range(W["nscenes"])]
        if W.get("special") == "exact":
            r, e = scenes[0]
            e = np.array(e)
            for m in range(len(e)):
                e[m] = r[rng.integers(0, len(r))]
            if len(scenes) > 1:
                scenes[0] = (r, e)
        cks = []
        for q in W["qs"]:
            vals = []
            for r, _ in scenes:
                rz = r - r.mean(-1, keepdims=True) if q["zm"] else r
                k = condition(rz, q["L"], q["dn"], q["dd"])
                vals.append(10.0 ** CLASS_CK[W["cls"]] if k is None else k)
            cks.append(max(vals))
        if max(cks) <= 1000:
            ck = [max(0, int(math.ceil(math.log10(k)))) for k in cks]
            break
    if ck is None:
        return {"skip": W["id"]}
    sc = []
    for r, e in scenes:
        qs = [truth(r, e, q) for q in W["qs"]]
        sc.append({"q": qs})
        for q in qs:
            if "err" in q:
                return {"broken": W["id"], "err": q["err"], "W": {k: W[k] for k in ("K", "M", "T", "qs")}}
    calls, done, keep = [], [], []
    for c in W["calls"]:
        q = W["qs"][c["qi"] - 1]
        if c["dt"] == "f32" and ck[c["qi"] - 1] >= 3:
            c = dict(c, dt="f64")
        if c["trouble"] != "none" and W["M"] > 0:
            fn, R, E, o = trouble_call(c["trouble"], c, W, scenes, rng)
            t = dict(c, form="pair", neg=False, clamp=-1)
            ob = observe(t, q, (fn, R, E, o, [], ()), keep=keep)
            ob["want"] = "raise"
            ob["fn"], ob["be"] = fn, c["be"]
            if not (c["trouble"] == "shape" and c["be"] == "xx"):
                calls.append(ob)
        if 0 < c["repeat"] <= len(done):
            c0, args = done[c["repeat"] - 1]
            done.append((c0, args))
        else:
            a = build(c, W, scenes, rng)
            c0, args = c, (c["fn"],) + a
            done.append((c0, args))
        ob = observe(c0, q if c0 is c else W["qs"][c0["qi"] - 1], args, keep=keep)
        ob["fn"], ob["be"] = c0["fn"], c0["be"]
        ob["opts"] = {k: str(v) for k, v in args[3].items()}
        calls.append(ob)
    if W["threads"]:
        res = {}

        def runner(t):
            order = np.random.default_rng([seed, W["id"], t]).permutation(len(done))
            for j in order:
                c0, args = done[j]
                try:
                    res[(t, int(j))] = observe(c0, None, args, quiet=True)
                except Exception as exc:
                    res[(t, int(j))] = exc
        ths = [threading.Thread(target=runner, args=(t,)) for t in range(W["threads"])]
        stb = global_state()
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        [t.start() for t in ths]
        [t.join() for t in ths]
        sys.setswitchinterval(old)
        sta = global_state()
        for (t, j), ob in sorted(res.items(), key=lambda kv: kv[0]):
            if isinstance(ob, Exception):
                raise ob
            ob["stb"], ob["sta"] = ("same", "same") if stb == sta else ("before", "after")
            ob["fn"], ob["be"] = done[j][0]["fn"], done[j][0]["be"]
            ob["opts"] = {"thread": str(t)}
            calls.append(ob)
    for ob in calls:
        if ob["out"] == "ok":
            d = 2 if ob["form"] == "pair" else 1
            if any(not shape_depth(it["sdr"], d) or not shape_depth(it["sir"], 1) or not shape_depth(it["sar"], 1)
                   for it in ob["items"]):
                ob["out"] = "shape"
                ob["items"] = []
            else:
                attach_duals(ob, W, sc)
        if ob["out"] != "ok":
            ob["items"] = []
    return {"id": W["id"], "ck": ck, "scenes": sc, "calls": calls,
            "meta": {"K": W["K"], "M": W["M"], "T": W["T"], "qs": W["qs"], "cls": W["cls"], "mix": W["mix"]}}
