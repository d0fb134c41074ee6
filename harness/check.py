#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N]

Runs the stages of a property: TLC design checks and plan generation, replay of
the plan in /repo, validation of the recorded traces by TLC.
exit 0: held on everything explored; 1: VIOLATION line; 2: machinery failure."""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import argparse  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

VERIF = os.path.dirname(HERE)


def load_findings():
    """known-findings.txt: '<signature> ...' lines; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = {}
                parts = line[len("known: "):].split(" ", 2)
                for w in parts[:2]:
                    k, _, v = w.partition("=")
                    d[k] = v
                d["what"] = parts[2] if len(parts) > 2 else ""
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    work_root = os.path.join(VERIF, ".work")
    os.makedirs(work_root, exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "-", dir=work_root)
    os.environ["VERIF_WORK"] = work
    rc = 2
    try:
        from lib import props, tlc
        try:
            ctx = props.Ctx(a.prop, a.tier, a.seed, work)
            props.STAGES[a.prop](ctx)
            rc = finish(ctx, a, t0)
        except tlc.MachineryError as exc:
            print("MACHINERY FAILURE (no verdict): %s" % exc)
            if ctx.violations:  # what was found before the failure still stands
                rc = finish(ctx, a, t0)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def finish(ctx, a, t0):
    known = load_findings()
    rdir = os.path.join(VERIF, "replays")
    real = []
    seen = set()
    for v in ctx.violations:
        hit = [k for k in known if k.get("property") == a.prop and k.get("sig") == v["sig"]]
        if hit:
            if v["sig"] not in seen:
                seen.add(v["sig"])
                print("KNOWN-FINDING: property=%s %s" % (a.prop, hit[0]["what"] or v["sig"]))
        else:
            real.append(v)
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:6] or ["none"],
    }
    cov.update(ctx.extra)
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
          "coverage": cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d stages, %d model states, %d observations validated, %d rejected, %.1f s" % (
        a.prop, a.tier, len(ctx.stages), ctx.states, ctx.traces, len(real), time.time() - t0))
    for s in ctx.stages:
        print("   ", s)
    if not real:
        return 0
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (a.prop, a.tier, a.seed))
    with open(path, "w") as f:
        json.dump(real[:50], f, indent=1, default=str)
    for v in real[:5]:
        print("  rejected: %s" % v["what"][:600])
    print("VIOLATION property=%s replay=%s" % (a.prop, path))
    return 1


if __name__ == "__main__":
    main()
