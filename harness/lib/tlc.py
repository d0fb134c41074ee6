"""Running TLC and reading what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """something that is not a verdict on the code under test"""


class Result:
    def __init__(self):
        self.lines = []
        self.records = []  # JSON values printed with PrintT(ToJson(..))
        self.generated = 0
        self.distinct = 0
        self.violation = None
        self.out = ""
        self.wall = 0.0
        self.depth = 0


def ncpu():
    try:
        return len(os.sched_getaffinity(0))
    except Exception:
        return 4


def run(module, cfg=None, cfg_text=None, env=None, workers=None, seed=None, simulate=None,
        depth=None, timeout=800, heap="4g", allow_violation=False, coverage=False, workdir=None):
    """Run TLC on spec/<module>.tla. Raises MachineryError when TLC fails for any
    reason but a violated property (returned in .violation when allowed)."""
    workdir = workdir or os.environ.get("VERIF_WORK") or tempfile.gettempdir()
    os.makedirs(workdir, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    try:
        if cfg_text is not None:
            cfgf = os.path.join(meta, module + ".cfg")
            with open(cfgf, "w") as f:
                f.write(cfg_text)
        else:
            cfgf = os.path.join(SPEC, cfg or (module + ".cfg"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", cfgf, "-metadir", os.path.join(meta, "st"), "-noGenerateSpecTE",
               "-workers", str(workers or ncpu())]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth is not None:
            cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        r = Result()
        r.wall = time.time() - t0
        r.out = p.stdout
        r.rc = p.returncode
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    for line in r.out.splitlines():
        s = line.strip()
        if s.startswith('"') and s.endswith('"'):
            try:
                inner = json.loads(s)
            except ValueError:
                continue
            r.lines.append(inner)
            if inner.startswith("{") or inner.startswith("["):
                try:
                    r.records.append(json.loads(inner))
                except ValueError:
                    pass
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", r.out)
    if m and not r.generated:
        r.generated = int(m[-1].replace(",", ""))
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m[-1])
    if "No error has been found" in r.out and r.rc == 0:
        return r
    if simulate is not None and r.rc == 0:
        return r
    m = re.search(r"(Invariant \S+ is violated|Temporal propert.* violated|Action property.* violated"
                  r"|Deadlock reached|Assumption .* is false|The first argument of Assert)", r.out)
    if m and allow_violation:
        r.violation = m.group(1)
        return r
    i = r.out.find("Error:")
    raise MachineryError("TLC failed on %s (rc %s):\n%s\n...\n%s" % (module, r.rc, r.out[i:i + 2500], r.out[-800:]))
