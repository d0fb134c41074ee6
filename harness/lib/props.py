"""What each property's check consists of."""
import json
import os
import time

from . import tlc


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.violations, self.stages = [], [], [], []
        self.extra = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def stage(self, name, t0, **kw):
        self.stages.append("%s: %s (%.1f s)" % (name, ", ".join("%s %s" % (v, k) for k, v in kw.items()), time.time() - t0))

    def violation(self, sig, what, **data):
        self.violations.append(dict(sig=sig, what=what, **data))

    def count(self, r):
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.distinct) + r.distinct

    # -- generic stages -------------------------------------------------------
    def design(self, module, cfg=None, cfg_text=None, min_states=2, **kw):
        """model-check a design module: its properties are those of the
        specification; a failure is a defect of the specification"""
        t0 = time.time()
        r = tlc.run(module, cfg=cfg, cfg_text=cfg_text, **kw)
        if r.distinct < min_states:
            raise tlc.MachineryError("%s explored only %d states" % (module, r.distinct))
        self.count(r)
        self.stage("design " + (cfg or module), t0, states=r.distinct)
        d = self.extra.setdefault("design_models", {})
        d[cfg or module] = d.get(cfg or module, 0) + r.distinct
        return r

    def plan(self, module, out=None, cfg=None, **env):
        out = out or self.path(module + ".plan")
        env = dict(env, PLAN=out)
        r = tlc.run(module, cfg=cfg, env=env, seed=self.seed, workers=1)
        self.count(r)
        with open(out) as f:
            return [json.loads(l) for l in f if l.strip()]

    def judge(self, module, events, cfg=None, name="trace", heap="6g", **env):
        """TLC gives every event a verdict; returns {id: record}"""
        path = self.path(name + ".ndjson")
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        r = tlc.run(module, cfg=cfg, env=dict(env, TRACE=path), heap=heap)
        self.count(r)
        verdicts = {x["id"]: x for x in r.records if isinstance(x, dict) and "st" in x}
        missing = [e["id"] for e in events if e["id"] not in verdicts]
        if missing:
            raise tlc.MachineryError("%s gave no verdict on %d of %d events, e.g. %s" % (module, len(missing), len(events), missing[:3]))
        return verdicts, r


# ---- exact definition (C01, C02, C11, C12, C18) --------------------------------

def exact_stage(ctx, n, maxl, prop=None, salt=0):
    from . import exactrun, pool
    prop = prop or ctx.prop
    t0 = time.time()
    plan = ctx.plan("ExactPlan", PROP=prop, N=n, MAXL=maxl)
    res = pool.run(exactrun.task, [(l, ctx.seed + 1000 * salt) for l in plan], timeout=150)
    t1 = time.time()
    events, skipped = [], 0
    for l, r in zip(plan, res):
        if isinstance(r, str):
            ctx.violation("hang", "%s calls on line %s of the plan did not return (%s)" % (prop, l["id"], r), line=l)
        elif "skip" in r:
            skipped += 1
        else:
            events.append(r)
    if len(events) < 0.6 * len(plan):
        raise tlc.MachineryError("only %d of %d plan lines could be realised" % (len(events), len(plan)))
    v, r = ctx.judge("ExactTrace", events, name="exact")
    kinds = {}
    for e in events:
        x = v[e["id"]]
        kinds[x["st"]] = kinds.get(x["st"], 0) + 1
        if x["st"] == "cert":
            raise tlc.MachineryError("certificate of line %s rejected" % e["id"])
        if x["st"] == "bad":
            for c in x["calls"]:
                cc = e["calls"][c["call"] - 1]
                ctx.violation("exact:%s:%s" % (cc["fn"], "+".join(c["clauses"])),
                              "%s(%s %s) K=%d M=%d T=%d L=%d zero_mean=%s load_diag=%d/%d %s: clauses %s" % (
                                  cc["fn"], cc["be"], cc["dt"], e["K"], e["M"], e["T"], e["L"], e["zm"], e["dn"], e["dd"],
                                  cc["opts"], c["clauses"]), line={k: e[k] for k in e if k not in ("cs", "cj", "calls")},
                              call=cc)
    calls = sum(len(e["calls"]) for e in events)
    ctx.traces += calls
    ctx.samples += [{"K": e["K"], "M": e["M"], "T": e["T"], "L": e["L"], "zero_mean": e["zm"], "refs": e["refs"][:1],
                     "call": {k: e["calls"][0][k] for k in ("fn", "be", "dt", "opts", "sdr")}} for e in events[:2] if e["calls"]]
    ctx.extra.setdefault("exact", {}).update(lines=len(events), unrealisable=skipped, verdicts=kinds, calls=calls)
    ctx.stage("exact definition", t0, lines=len(events), calls=calls, tlc_s=round(r.wall, 1))


def bigint(ctx):
    ctx.design("BigIntTest", min_states=400)


VIEWS = """SPECIFICATION Spec
CONSTANTS T0 = %d
 Vals <- %s
 Lmax = %d
 Ks = {%s}
 Loads <- %s
 Steps = %d
 Full = TRUE
INVARIANTS Bounded Nested Pieces Forgiven Certificates
PROPERTIES ViewsPreserve Monotone LoadShrinks
CHECK_DEADLOCK FALSE
"""
VIEWS_LOAD = VIEWS % (2, "Tern", 2, "1, 2", "SomeLoad", 1)
VIEWS_NEST = VIEWS % (3, "Bin", 2, "1, 2", "NoLoad", 1)
VIEWS_DEEP = [VIEWS % (3, "Bin", 1, "3", "SomeLoad", 1), VIEWS % (3, "Tern", 2, "1", "NoLoad", 1)]


def views(ctx, cfg):
    """the definition and its transformations, on every small scene"""
    for c in [cfg] + ([] if ctx.quick else VIEWS_DEEP):
        ctx.design("Views", cfg_text=c, min_states=5000)


def c01(ctx):
    bigint(ctx)
    exact_stage(ctx, ctx.n(220, 4000), 2048)


def c02(ctx):
    bigint(ctx)
    views(ctx, VIEWS_NEST)
    exact_stage(ctx, ctx.n(260, 4000), 1024)



# ---- sessions (C03, C05..C09, C13, C16) -----------------------------------------

def session_stage(ctx, n, ncalls, big=12, prop=None, salt=0, special=""):
    from . import pool, sessionrun
    prop = prop or ctx.prop
    t0 = time.time()
    plan = ctx.plan("SessionPlan", PROP=prop, N=n, NCALLS=ncalls, BIG=big)
    for W in plan:
        if special and W["id"] % 3 == 0:
            W["special"] = special
    res = pool.run(sessionrun.task, [(W, ctx.seed + 1000 * salt) for W in plan], timeout=240)
    events, skipped = [], 0
    for W, r in zip(plan, res):
        if isinstance(r, str):
            ctx.violation("hang", "%s: the calls of session %s did not return (%s)" % (prop, W["id"], r), world=W)
        elif "skip" in r:
            skipped += 1
        elif "broken" in r:
            ctx.violation("plain call", "%s: the plain evaluation of a well-conditioned scene failed: %s" % (prop, r), world=W)
        else:
            events.append(r)
    if len(events) < 0.5 * len(plan) and not ctx.violations:
        raise tlc.MachineryError("only %d of %d sessions could be realised" % (len(events), len(plan)))
    path = ctx.path("session.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    r = tlc.run("SessionTrace", env={"TRACE": path}, heap="8g")
    ctx.count(r)
    done = {x["id"]: x["n"] for x in r.records if isinstance(x, dict) and x.get("st") == "done"}
    calls = sum(len(e["calls"]) for e in events)
    for e in events:
        if done.get(e["id"]) != len(e["calls"]):
            raise tlc.MachineryError("session %s was not validated to its end" % e["id"])
    byid = {e["id"]: e for e in events}
    for x in r.records:
        if isinstance(x, dict) and x.get("st") == "bad":
            e = byid[x["id"]]
            c = e["calls"][x["call"] - 1]
            ctx.violation("session:%s:%s" % (c["fn"], "+".join(sorted(x["clauses"]))),
                          "%s(%s %s %s) %s ck=%s: clauses %s; outcome %s %s" % (
                              c["fn"], c["be"], c["dt"], c.get("opts"), e["meta"], e["ck"], x["clauses"], c["out"], c.get("exc", "")),
                          world=e["id"], meta=e["meta"], call=c,
                          truth=[s["q"][c["q"] - 1] for s in e["scenes"]])
    ctx.traces += calls
    ctx.samples += [{"scene": e["meta"], "history": [{k: c[k] for k in ("fn", "be", "dt", "form", "cg", "out")} for c in e["calls"][:4]]}
                    for e in events[:2]]
    ctx.extra.setdefault("sessions", {}).update(sessions=len(events), unrealisable=skipped, calls=calls)
    ctx.stage("sessions", t0, sessions=len(events), calls=calls, tlc_s=round(r.wall, 1))


def c03(ctx):
    session_stage(ctx, ctx.n(180, 2500), 10, big=25)


def c05(ctx):
    bigint(ctx)
    session_stage(ctx, ctx.n(110, 1800), 4, big=11)
    exact_stage(ctx, ctx.n(80, 1500), 257)


def c06(ctx):
    views(ctx, VIEWS_LOAD)
    session_stage(ctx, ctx.n(110, 1800), 12, big=11)


def c07(ctx):
    session_stage(ctx, ctx.n(90, 1500), 8, big=11, special="exact")


def c08(ctx):
    session_stage(ctx, ctx.n(120, 2000), 12, big=11)


def c09(ctx):
    session_stage(ctx, ctx.n(110, 1800), 12, big=20)
    api_stage(ctx, ctx.n(2000, 30000))


def c13(ctx):
    session_stage(ctx, ctx.n(90, 1500), 8, big=6)


def c16(ctx):
    session_stage(ctx, ctx.n(110, 1500), 12, big=15)



# ---- assignment (C04) -----------------------------------------------------------

HUNG = """SPECIFICATION Spec
CONSTANTS NR = %d
 NC = %d
 Vals = {%s}
INVARIANTS StarsIndependent StarsZero Reduced Unstarred CoversMeet Progress6 Done NoDeadEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
ASMC = """SPECIFICATION Spec
CONSTANTS NR = %d
 NC = %d
 Ext <- %s
INVARIANTS Weighing AllMatchings
CHECK_DEADLOCK FALSE
"""


def assign_stage(ctx, n, deep):
    from . import assignrun, pool
    t0 = time.time()
    if not assignrun.SOLVERS:
        ctx.stage("assignment solvers", t0, solvers=0)
        return
    plan = ctx.plan("AssignPlan", N=n, DEEP=int(deep))
    jobs = []
    for f in plan:
        if "vals" in f:
            for i, C in enumerate(assignrun.expand(f)):
                jobs.append((C, "one" if i % 3 else "tenth", "c", ("f64",) if i % 4 else ("f32",)))
        else:
            jobs.append((f["C"], f["scale"], f["lay"], ("f64", "f32")))
    size = 60
    chunks = [jobs[i:i + size] for i in range(0, len(jobs), size)]
    res = pool.run(assignrun.task, chunks, timeout=60)
    events = []
    hung = 0
    for ch, r in zip(chunks, res):
        if isinstance(r, str):
            hung += 1
            if hung <= 8:  # find the matrix
                for x, y in zip(ch, pool.run(assignrun.task, [[x] for x in ch], timeout=5)):
                    if isinstance(y, str):
                        ctx.violation("hang", "a solver did not return on the %dx%d matrix %s scale %s (%s)" % (
                            len(x[0]), len(x[0][0]), json.dumps(x[0])[:300], x[1], y), matrix=x[0])
                        break
                else:
                    ctx.violation("hang", "a solver did not return within a batch of matrices", matrices=len(ch))
        else:
            events += r
    for i, e in enumerate(events):
        e["id"] = i
    path = ctx.path("assign.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    r = tlc.run("AssignTrace", env={"TRACE": path}, heap="10g")
    if r.distinct != 2 * len(events):
        raise tlc.MachineryError("AssignTrace judged %d states for %d matrices" % (r.distinct, len(events)))
    ctx.count(r)
    for x in r.records:
        if isinstance(x, dict) and x.get("st") == "bad":
            e = events[x["id"]]
            for b in x["bad"]:
                ctx.violation("assign:%s" % b["clause"], "%s on the %dx%d matrix %s: %s" % (
                    b["who"], e["n"], e["m"], json.dumps(e["C"])[:300], b["clause"]), event=e)
    calls = sum(len(e["res"]) for e in events)
    ctx.traces += calls
    ctx.samples += [{"cost": e["C"], "results": e["res"]} for e in events[-2:] if e["n"] * e["m"] < 40]
    ctx.extra["assignment"] = {"matrices": len(events), "calls": calls, "solvers": [s[0] for s in assignrun.SOLVERS]}
    ctx.stage("assignment solvers", t0, matrices=len(events), calls=calls, tlc_s=round(r.wall, 1))


def c04(ctx):
    ctx.design("Hungarian", cfg_text=HUNG % (2, 3, "0,1,3"))
    ctx.design("Hungarian", cfg_text=HUNG % (3, 3, "0,1"))
    if not ctx.quick:
        ctx.design("Hungarian", cfg_text=HUNG % (3, 3, "0,1,2"))
        ctx.design("Hungarian", cfg_text=HUNG % (3, 4, "0,1"))
        ctx.design("Hungarian", cfg_text=HUNG % (2, 4, "0,1,3"))
        ctx.design("Hungarian", cfg_text=HUNG % (4, 4, "0,1"))
    ctx.design("AssignmentMC", cfg_text=ASMC % (2, 3, "ExtA"))
    ctx.design("AssignmentMC", cfg_text=ASMC % (2, 2, "ExtB"))
    assign_stage(ctx, ctx.n(1500, 8000), not ctx.quick)
    session_stage(ctx, ctx.n(40, 500), 6, big=1000, prop="C04")



# ---- filtered references (C18) ----------------------------------------------------

def fir_stage(ctx, n, maxt):
    from . import firrun, pool
    t0 = time.time()
    plan = ctx.plan("FirPlan", N=n, MAXT=maxt)
    res = pool.run(firrun.task, [(l, ctx.seed) for l in plan], timeout=200)
    events, skipped = [], 0
    for l, r in zip(plan, res):
        if isinstance(r, str):
            ctx.violation("hang", "calls on filtered references did not return (%s)" % r, line=l)
        elif "skip" in r:
            skipped += 1
        else:
            events.append(r)
    if len(events) < 0.5 * len(plan):
        raise tlc.MachineryError("only %d of %d lines could be realised" % (len(events), len(plan)))
    v, r = ctx.judge("FirTrace", events, name="fir")
    for e in events:
        x = v[e["id"]]
        if x["st"] == "cert":
            raise tlc.MachineryError("signals of line %s differ from the specification's" % e["id"])
        if x["st"] == "bad":
            for c in x["calls"]:
                cc = e["calls"][c["call"] - 1]
                ctx.violation("fir:%s:%s" % (cc["fn"], "+".join(c["clauses"])),
                              "%s(%s %s %s) K=%d T=%d L=%d taps %s: clauses %s" % (
                                  cc["fn"], cc["be"], cc["dt"], cc["opts"], e["K"], e["T"], e["L"], e["ests"], c["clauses"]),
                              line={k: e[k] for k in e if k != "calls"}, call=cc)
    calls = sum(len(e["calls"]) for e in events)
    ctx.traces += calls
    ctx.samples += [{k: e[k] for k in ("K", "L", "T", "ests")} for e in events[:2]]
    ctx.extra["filtered_references"] = {"scenes": len(events), "calls": calls, "unrealisable": skipped}
    ctx.stage("filtered references", t0, scenes=len(events), calls=calls, tlc_s=round(r.wall, 1))


def c11(ctx):
    bigint(ctx)
    exact_stage(ctx, ctx.n(200, 3000), 64)
    session_stage(ctx, ctx.n(40, 800), 8, big=9)


def c12(ctx):
    bigint(ctx)
    views(ctx, VIEWS_LOAD)
    exact_stage(ctx, ctx.n(200, 3000), 512)
    session_stage(ctx, ctx.n(40, 800), 8, big=9)
    api_stage(ctx, ctx.n(1500, 25000))


def c18(ctx):
    bigint(ctx)
    views(ctx, VIEWS_NEST)
    fir_stage(ctx, ctx.n(160, 2500), ctx.n(16384, 32768))
    exact_stage(ctx, ctx.n(120, 2500), 2048, prop="C18")



# ---- nested subspaces (C17) ---------------------------------------------------------

def order_stage(ctx, n, big=8):
    from . import orderrun, pool
    t0 = time.time()
    plan = ctx.plan("OrderPlan", N=n, BIG=big)
    res = pool.run(orderrun.task, [(l, ctx.seed) for l in plan], timeout=200)
    events, skipped = [], 0
    for l, r in zip(plan, res):
        if isinstance(r, str):
            ctx.violation("hang", "calls with nested references did not return (%s)" % r, line=l)
        elif "skip" in r:
            skipped += 1
        else:
            events.append(r)
    if len(events) < 0.5 * len(plan):
        raise tlc.MachineryError("only %d of %d scenes could be realised" % (len(events), len(plan)))
    path = ctx.path("order.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    r = tlc.run("OrderTrace", env={"TRACE": path}, heap="8g")
    ctx.count(r)
    done = {x["id"]: x["n"] for x in r.records if isinstance(x, dict) and x.get("st") == "done"}
    byid = {e["id"]: e for e in events}
    for e in events:
        if done.get(e["id"]) != len(e["obs"]):
            raise tlc.MachineryError("history %s was not validated to its end" % e["id"])
    for x in r.records:
        if isinstance(x, dict) and x.get("st") == "bad":
            e = byid[x["id"]]
            o = e["obs"][x["call"] - 1]
            ctx.violation("order:" + "+".join(sorted(x["clauses"])),
                          "%s(%s %s) L=%d references %s pair (%d, %d) %s: clauses %s" % (
                              o["fn"], o["be"], o["dt"], o["L"], o["sub"], o["r"], o["e"], e["meta"], x["clauses"]), obs=o, meta=e["meta"])
    n = sum(len(e["obs"]) for e in events)
    ctx.traces += n
    ctx.samples += [{"scene": e["meta"], "history": e["obs"][:3]} for e in events[:2]]
    ctx.extra["histories"] = {"scenes": len(events), "observations": n, "unrealisable": skipped}
    ctx.stage("nested subspaces", t0, scenes=len(events), observations=n, tlc_s=round(r.wall, 1))


def c17(ctx):
    bigint(ctx)
    views(ctx, VIEWS_NEST)
    order_stage(ctx, ctx.n(150, 2500))


# ---- calls on abstract signals (C10, C14; degenerate cases of C09, C12) ---------------

def api_stage(ctx, n, big=40, prop=None, salt=0):
    from . import apirun, pool
    prop = prop or ctx.prop
    t0 = time.time()
    plan = ctx.plan("ApiPlan", PROP=prop, N=n, BIG=big)
    size = 20
    chunks = [plan[i:i + size] for i in range(0, len(plan), size)]
    events, hung = [], 0
    for ch, r in zip(chunks, pool.run(apirun.task, [(c, ctx.seed + 1000 * salt) for c in chunks], timeout=120)):
        if isinstance(r, str):
            hung += 1
            if hung > 3:
                ctx.violation("hang", "calls of a batch did not return (%s)" % r, lines=ch[:3])
                continue
            for x, y in zip(ch, pool.run(apirun.task, [([l], ctx.seed + 1000 * salt) for l in ch], timeout=30)):
                if isinstance(y, str):
                    ctx.violation("hang", "the call %s did not return (%s)" % (x["cfg"], y), line=x)
                else:
                    events += y
        else:
            events += r
    path = ctx.path("api.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    r = tlc.run("ApiTrace", env={"TRACE": path}, heap="10g")
    ctx.count(r)
    if r.distinct < sum(1 + len(e["items"]) for e in events):
        raise tlc.MachineryError("ApiTrace explored only %d states" % r.distinct)
    acc = {}
    for x in r.records:
        if isinstance(x, dict) and x.get("st") == "accept":
            acc.setdefault(x["id"], {}).setdefault(x["item"], set()).add(x["how"])
    outcomes = {}
    for e in events:
        outcomes[e["out"]] = outcomes.get(e["out"], 0) + 1
        got = acc.get(e["id"], {})
        if e["out"] == "ok":
            bad = [j for j in range(len(e["items"]) + 1) if j not in got]
            ok = not bad
            why = "outputs of the wrong number, type or shape" if bad == [0] else "items %s do not match any behaviour" % bad
        else:
            ok = any("raise" in h for h in got.values())
            why = "raised where no behaviour does: " + e["out"]
        if not ok:
            c = e["cfg"]
            bad = [j for j in range(1, len(e["items"]) + 1) if j not in got] if e["out"] == "ok" else list(range(1, len(e["items"]) + 1))
            ctx.violation("api:%s:%s:%s" % (c["fn"], c["form"], e["out"] if e["out"] != "ok" else "meta" if bad == [] else "values"),
                          "%s %s(%s %s) K=%d M=%d L=%d batch=%s options %s: %s; items %s observed %s meta %s" % (
                              c["form"], c["fn"], c["be"], c["dt"], c["K"], c["M"], c["L"], c["batch"], e["opts"], why,
                              json.dumps([e["items"][j - 1] for j in bad[:1]]),
                              json.dumps([e["obs"][j - 1] for j in bad[:1] if e["obs"]]), e["meta"]), event=e)
    ctx.traces += len(events)
    ctx.samples += [{"cfg": e["cfg"], "item": e["items"][:1], "out": e["out"], "meta": e["meta"]} for e in events[:2]]
    ctx.extra.setdefault("abstract_signals", {}).update(calls=len(events), items=sum(len(e["items"]) for e in events), outcomes=outcomes)
    ctx.stage("abstract signals", t0, calls=len(events), items=sum(len(e["items"]) for e in events), tlc_s=round(r.wall, 1))


BSSMC = """SPECIFICATION Spec
CONSTANTS MaxCoef = 1
 Ks = {%s}
 Ms = {%s}
 Clamps = {%s}
INVARIANTS InRange NoNaN PermNoNaN Product SingleRef PoisonRefused PoisonLocal Unequal OnlyThese PermShape NotStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def pipeline_design(ctx):
    if ctx.quick:
        ctx.design("BssEvalMC", cfg_text=BSSMC % ("1, 2", "1", "0, 20"))
    else:
        ctx.design("BssEvalMC", cfg_text=BSSMC % ("1, 2", "1, 2", "0"))


def c10(ctx):
    bigint(ctx)
    pipeline_design(ctx)
    api_stage(ctx, ctx.n(4000, 60000))


def c14(ctx):
    bigint(ctx)
    pipeline_design(ctx)
    api_stage(ctx, ctx.n(3000, 50000))


# ---- gradients (C15) ------------------------------------------------------------------

def grad_stage(ctx, n, big=20):
    from . import gradrun, pool
    t0 = time.time()
    plan = ctx.plan("GradPlan", N=n, BIG=big)
    res = pool.run(gradrun.task, [(l, ctx.seed) for l in plan], timeout=150)
    events, skipped = [], 0
    for l, r in zip(plan, res):
        if isinstance(r, str):
            ctx.violation("hang", "back-propagation did not return (%s)" % r, line=l)
        elif "skip" in r:
            skipped += 1
        else:
            events.append(r)
    if len(events) < 0.5 * len(plan):
        raise tlc.MachineryError("only %d of %d lines could be realised" % (len(events), len(plan)))
    v, r = ctx.judge("GradTrace", events, name="grad")
    for e in events:
        x = v[e["id"]]
        if x["st"] == "cert":
            raise tlc.MachineryError("certificate of line %s rejected" % e["id"])
        if x["st"] == "bad":
            for c in x["calls"]:
                cc = e["calls"][c["call"] - 1]
                ctx.violation("grad:%s:%s:%s" % (cc["fn"], cc["metric"], "+".join(c["clauses"])),
                              "%s %s of %s(%s) pair (%d,%d) K=%d M=%d T=%d L=%d zero_mean=%s load_diag=%d/%d %s %s: clauses %s dd=%s fd=%s sc=%s eul=%s" % (
                                  cc["form"], cc["metric"], cc["fn"], cc["dt"], cc["k"], cc["m"], e["K"], e["M"], e["T"], e["L"], e["zm"], e["dn"], e["dd"],
                                  cc.get("opts"), e["cls"], c["clauses"], cc["dd"], cc["fd"], cc["sc"], cc["eul"]),
                              line={k: e[k] for k in e if k not in ("cs", "cj", "calls")}, call=cc)
    calls = sum(1 for e in events for c in e["calls"] if c["out"] == "ok")
    ctx.traces += calls
    ctx.samples += [{"L": e["L"], "refs": e["refs"][:1], "call": {k: e["calls"][0][k] for k in ("fn", "form", "metric", "k", "m", "wrt", "dd", "fd")}} for e in events[:2]]
    out = {}
    for e in events:
        for c in e["calls"]:
            out[c["out"]] = out.get(c["out"], 0) + 1
    ctx.extra["gradients"] = {"lines": len(events), "unrealisable": skipped, "back_propagations": calls, "outcomes": out}
    ctx.stage("gradients", t0, lines=len(events), back_propagations=calls, tlc_s=round(r.wall, 1))


def c15(ctx):
    bigint(ctx)
    grad_stage(ctx, ctx.n(400, 5000))


STAGES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
