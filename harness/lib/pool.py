"""A pool of worker processes in which a task that hangs or dies is an outcome."""
import multiprocessing as mp
import os
import time
from multiprocessing.connection import wait

HANG = "__hang__"
DIED = "__died__"
UNRUN = "__not_run__"     # given up after too many hangs
MAX_HANGS = 8


def _worker(conn, fn, init):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    except OSError:
        pass
    if init is not None:
        init()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, task = msg
        try:
            res = ("ok", fn(task))
        except Exception as exc:  # machinery failure, reported to the parent
            import traceback
            res = ("error", "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()))
        conn.send((i, res))


def run(fn, tasks, timeout=60.0, workers=None, init=None):
    """[fn(t) for t in tasks] in parallel; HANG / DIED stands for a task that did
    not come back. An exception in fn is re-raised (fn itself catches what the
    code under test raises)."""
    from .tlc import MachineryError, ncpu
    tasks = list(tasks)
    n = min(workers or ncpu(), max(1, len(tasks)))
    ctx = mp.get_context("fork")
    results = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    procs = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, fn, init), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "i": None, "t": None}

    def feed(w):
        if todo:
            w["i"] = todo.pop()
            w["t"] = time.time()
            w["c"].send((w["i"], tasks[w["i"]]))
        else:
            w["i"] = None

    procs = [spawn() for _ in range(n)]
    for w in procs:
        feed(w)
    hangs = 0
    try:
        while any(w["i"] is not None for w in procs):
            ready = wait([w["c"] for w in procs if w["i"] is not None], timeout=0.5)
            for w in procs:
                if w["i"] is None:
                    continue
                if w["c"] in ready:
                    try:
                        i, (st, val) = w["c"].recv()
                    except (EOFError, ConnectionResetError):
                        results[w["i"]] = DIED
                        w["p"].join(1)
                        w.update(spawn())
                        feed(w)
                        continue
                    if st == "error":
                        raise MachineryError("driver task failed: " + val)
                    results[i] = val
                    feed(w)
                elif time.time() - w["t"] > timeout:
                    results[w["i"]] = HANG
                    hangs += 1
                    if hangs >= MAX_HANGS:
                        for i in todo:
                            results[i] = UNRUN
                        todo.clear()
                    w["p"].kill()
                    w["p"].join(5)
                    w.update(spawn())
                    feed(w)
    finally:
        for w in procs:
            try:
                if w["p"].is_alive():
                    w["c"].send(None)
            except OSError:
                pass
        for w in procs:
            w["p"].join(0.5)
            if w["p"].is_alive():
                w["p"].kill()
    return results
