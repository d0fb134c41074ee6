"""Calls of the implementation under test, through its public API only, and the
projection of what they return.  No judgement is made here."""
import math
import os
import sys
import warnings

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
warnings.filterwarnings("ignore")

import fast_bss_eval as fbe  # noqa: E402

assert os.path.realpath(fbe.__file__).startswith(os.path.realpath(REPO) + os.sep), fbe.__file__

from .exact import limbs  # noqa: E402

# functions of the family: name -> (argument order, loss?, si?)
FUNCS = {
    "bss_eval_sources": ("ref", False, False),
    "sdr": ("ref", False, False),
    "sdr_loss": ("est", True, False),
    "sdr_pit_loss": ("est", True, False),
    "si_bss_eval_sources": ("ref", False, True),
    "si_sdr": ("ref", False, True),
    "si_sdr_loss": ("est", True, True),
    "si_sdr_pit_loss": ("est", True, True),
}
BACKEND_FUNCS = {"pairwise_sdr_loss": ("est", True, False), "pairwise_si_sdr_loss": ("est", True, True)}

NPDT = {"f32": np.float32, "f64": np.float64, "i16": np.int16, "i32": np.int32, "i64": np.int64}
PTDT = {"f32": torch.float32, "f64": torch.float64}


def get_func(fn, be):
    if fn in FUNCS:
        return getattr(fbe, fn), FUNCS[fn]
    mod = fbe.numpy if be == "np" else fbe.torch
    return getattr(mod, fn), BACKEND_FUNCS[fn]


def layout_np(x, lay):
    if lay == "c":
        return np.ascontiguousarray(x)
    if lay == "fortran":
        return np.asfortranarray(x)
    if lay == "stride2":
        y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if lay == "neg":
        y = np.ascontiguousarray(x[..., ::-1])
        return y[..., ::-1]
    if lay == "swap":
        y = np.ascontiguousarray(np.swapaxes(x, -1, -2))
        return np.swapaxes(y, -1, -2)
    if lay == "bigend":  # the other byte order
        return np.ascontiguousarray(x).astype(x.dtype.newbyteorder("S"))
    if lay == "readonly":
        y = np.array(x)
        y.setflags(write=False)
        return y
    if lay == "offset":
        y = np.full((x.size + 3,), 7, dtype=x.dtype)
        z = y[3:].reshape(x.shape)
        z[...] = x
        return z
    if lay == "bcast":  # leading dimension of stride 0 (only meaningful when items are equal)
        return np.broadcast_to(x[:1], x.shape) if x.ndim > 2 else x
    raise ValueError(lay)


def layout_pt(x, lay):
    if lay in ("c", "readonly", "bigend"):
        return x.contiguous()
    if lay == "fortran" or lay == "swap":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if lay == "stride2" or lay == "neg":
        y = torch.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if lay == "offset":
        y = torch.full((x.numel() + 3,), 7, dtype=x.dtype)
        z = y[3:].reshape(x.shape)
        z[...] = x
        return z
    if lay == "bcast":
        return x[:1].expand(x.shape) if x.ndim > 2 else x
    raise ValueError(lay)


def make_array(x, be, dt, lay="c"):
    """x: float64 (or integer) numpy array -> array/tensor for the call"""
    if be == "np":
        return layout_np(np.array(x).astype(NPDT[dt]), lay)
    return layout_pt(torch.tensor(np.ascontiguousarray(x), dtype=PTDT[dt]), lay)


def scalars(o, rng, p=0.15):
    """the same option values, as other kinds of numbers"""
    r = dict(o)
    if rng.random() < p:
        for k, v in o.items():
            if isinstance(v, bool) or v is None:
                continue
            if k in ("filter_length", "use_cg_iter"):
                r[k] = (np.int64, np.int32, np.int16)[rng.integers(0, 3)](v)
            elif k in ("clamp_db", "load_diag"):
                kinds = [np.float64] + ([np.float32, int, np.int64] if float(v) == int(v) else [])
                r[k] = kinds[rng.integers(0, len(kinds))](v)
    return r


def digest(a):
    import hashlib
    if isinstance(a, torch.Tensor):
        a = a.detach().numpy()
    a = np.ascontiguousarray(a)
    return hashlib.sha256(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:24]


def call(fn, be, ref, est, opts, raw=False, pos=()):
    """-> dict(kind="ok", outs=[arrays], ...) or dict(kind="raise", exc=..)"""
    f, (order, _, _) = get_func(fn, be)
    args = (ref, est) if order == "ref" else (est, ref)
    try:
        out = f(*args, *pos, **opts)
    except Exception as exc:  # what the code under test raises is an observation
        return {"kind": "raise", "exc": type(exc).__name__,
                "mro": [c.__name__ for c in type(exc).__mro__], "msg": str(exc)[:200]}
    tup = isinstance(out, (tuple, list))
    outs = list(out) if tup else [out]
    res = {"kind": "ok", "tuple": tup, "n": len(outs), "meta": []}
    vals = []
    for o in outs:
        if isinstance(o, torch.Tensor):
            res["meta"].append({"cont": "pt", "dt": str(o.dtype).replace("torch.", ""), "shape": list(o.shape)})
            vals.append(o.detach().numpy())
        elif isinstance(o, np.ndarray):
            res["meta"].append({"cont": "np", "dt": str(o.dtype), "shape": list(o.shape)})
            vals.append(o)
        else:
            res["meta"].append({"cont": type(o).__name__, "dt": "?", "shape": []})
            vals.append(np.asarray(o))
    res["outs"] = vals
    if raw:
        res["raw"] = outs
    return res


# ---- projections of decibels ------------------------------------------------

def coh(v):
    """square cosine of a metric of v dB (float in [0,1], nan)"""
    v = float(v)
    if math.isnan(v):
        return float("nan")
    if v >= 0:
        return 1.0 / (1.0 + 10.0 ** (-v / 10.0)) if v < 3000 else 1.0
    return (10.0 ** (v / 10.0)) / (1.0 + 10.0 ** (v / 10.0)) if v > -3000 else 0.0


def c15(v):
    """limbs of the square cosine in units of 1e-15, [] for nan"""
    c = coh(v)
    return [] if math.isnan(c) else limbs(int(round(c * 1e15)))


def c9(v):
    """native integer, units of 1e-9; -1 for nan"""
    c = coh(v)
    return -1 if math.isnan(c) else int(round(c * 1e9))


UDB_INF = 2000000000


def udb(v):
    """micro decibels; +-UDB_INF for infinities (and beyond), None for nan"""
    v = float(v)
    if math.isnan(v):
        return None
    return int(max(-UDB_INF, min(UDB_INF, round(v * 1e6)))) if not math.isinf(v) else (UDB_INF if v > 0 else -UDB_INF)


def nested(a, f):
    a = np.asarray(a)
    if a.ndim == 0:
        return f(a)
    return [nested(b, f) for b in a]
