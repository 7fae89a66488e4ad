"""Parallel loops under imposed orders of completion."""
import os
import threading
import time
import numpy as np
from rt import *
import nannos as nn


class TaskError(Exception):
    pass


CONTAINER = dict(list=list, tuple=tuple, array=np.array, range=lambda a: range(a[0], a[-1] + 1) if a else range(0), gen=lambda a: (x for x in a))
RETURN = dict(int=lambda v: v, tuple=lambda v: (v, "x"), array=lambda v: np.array([v, 1]), dict=lambda v: dict(v=v))


def value_of(kind, r):
    try:
        return int(r if kind == "int" else r["v"] if kind == "dict" else r[0])
    except Exception:
        return -CLIP


def threads(it):
    """The tasks meet at a gate that lets them finish in the order wanted."""
    cond, state = threading.Condition(), dict(done=0, late=0)
    starts, extras = [], []
    pos = {}
    for k, p in enumerate(it["order"]):
        pos[it["args"][p - 1]] = k

    def gate(x):
        k = pos.get(x)
        if k is None or len(pos) != len(it["order"]):
            return
        with cond:
            if not cond.wait_for(lambda: state["done"] >= k, timeout=0.4 if not state["late"] else 0.01):
                state["late"] += 1
            state["done"] += 1
            cond.notify_all()

    @nn.parloop(n_jobs=it["jobs"], prefer=it["prefer"])
    def task(x, a=0, *, b=0):
        x = int(x)
        with cond:
            starts.append(x)
            extras.append([a, b])
        gate(x)
        if x in it["fails"]:
            raise TaskError(x)
        return RETURN[it["ret"]](x * x + 10 * a + 1000 * b)
    return task, starts, extras, state


def processes(it, d):
    log = os.path.join(d, f"log{it['id']}")
    pos = {it["args"][p - 1]: k for k, p in enumerate(it["order"])}
    fails, ret = it["fails"], it["ret"]

    @nn.parloop(n_jobs=it["jobs"], prefer=it["prefer"])
    def task(x, a=0, *, b=0):
        x = int(x)
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{x} {a} {b}\n".encode())
        os.close(fd)
        time.sleep(0.03 * pos.get(x, 0))
        if x in fails:
            raise RuntimeError(x)
        v = x * x + 10 * a + 1000 * b
        return v if ret == "int" else (v, "x") if ret == "tuple" else np.array([v, 1]) if ret == "array" else dict(v=v)
    return task, log


def one(it):
    row = dict(outcome="", res=[], exc=-1, starts=[], extras=[], late=0, **{k: it[k] for k in ("args", "fails", "a", "b", "order", "jobs")})
    row["order"] = list(it["order"])
    arg = CONTAINER[it["container"]](it["args"])
    pa = [it["a"]] if it["a"] else []
    kw = dict(b=it["b"]) if it["b"] else {}
    if it["mode"] == "threads":
        task, starts, extras, state = threads(it)
    else:
        task, log = processes(it, os.environ["TMPDIR"])
    try:
        res = task(arg, *pa, **kw)
        row["outcome"] = "results"
        row["res"] = [value_of(it["ret"], r) for r in res]
    except (TaskError, RuntimeError) as e:
        row["outcome"] = "exception"
        row["exc"] = e.args[0] if e.args and isinstance(e.args[0], int) else -2
    except CaseTimeout:
        row["outcome"] = "stuck"
    except Exception as e:
        row["outcome"] = f"{type(e).__name__}: {e}"[:200]
    if it["mode"] == "threads":
        time.sleep(0.002)
        row["starts"], row["extras"], row["late"] = list(starts), [list(e) for e in extras], state["late"]
    else:
        lines = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        for line in lines:
            x, a, b = map(int, line.split())
            row["starts"].append(x)
            row["extras"].append([a, b])
    return row


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"), limit=30)


if __name__ == "__main__":
    main(run)
