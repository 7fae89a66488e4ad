"""Runs of the topology optimizer with recorded calls."""
import contextlib
import io
import os
import numpy as np
from rt import *
import nannos as nn

BACKEND = os.environ.get("OPT_BACKEND", "autograd")
nn.set_backend(BACKEND)
from nannos import optimize as op  # noqa
bk = nn.backend


def traced(x):
    if BACKEND == "autograd":
        return type(x).__name__ == "ArrayBox"
    if BACKEND == "jax":
        import jax
        return isinstance(x, jax.core.Tracer)
    return bool(getattr(x, "requires_grad", False))


def objective(it):
    t = np.array(it["target"])
    w = np.array(it["weights"])
    if BACKEND == "torch":
        import torch
        t, w = torch.tensor(t), torch.tensor(w)
    k = it["fun"]

    def f(x, beta, *args):
        s = sum(args) * 0.01
        if k == 1:
            return bk.sum(w * (x - t) ** 2) + s
        if k == 2:  # the optimum moves with the level
            return bk.sum(w * (x - t / (1 + 0.2 * beta)) ** 2) + s
        if k == 3:  # linear: an optimum in a corner
            return bk.sum((w - 1.5) * x) + s
        if k == 4:
            return bk.sum(w * bk.sin(7 * (x - t)) + (x - t) ** 2) + s
        if k == 6:  # kinks, where line searches fail
            return bk.sum(w * bk.abs(x - t)) + s
        p = op.project(x, beta, 0.5)
        return bk.sum(w * (p - t) ** 2) + s
    return f


def one(it):
    rec, ids, log = [], {}, []
    nv = it["nvar"]
    extra = tuple(it["extra"])
    f = objective(it)

    def ident(x):
        x = np.array(to_np(x), dtype=float)
        return ids.setdefault(x.tobytes(), len(ids) + 1), [fx(v, 10**6) for v in x]

    def fun(x, beta, *args):
        if traced(x):
            rec.append(dict(ev="grad", proj=beta, same=list(args) == list(extra)))
            return f(x, beta, *args)
        y = f(x, beta, *args)
        n, c = ident(x)
        rec.append(dict(ev="fun", x=n, y=float(y), proj=beta, same=list(args) == list(extra), coords=c))
        return y

    def cb(x, y, beta, *args):
        rec.append(dict(ev="cb", x=ident(x)[0], y=float(y), proj=beta, same=list(args) == list(extra)))

    x0 = np.array(it["x0"])
    if BACKEND != "autograd":
        x0 = bk.array(x0)
    user = (it["first"],) + extra
    user = list(user) if it["listed"] else user
    if not extra and it["first"] == 0:  # no arguments at all
        user = None
    start = float(f(x0, 2 ** it["lo"], *extra))
    stop = dict(none=None, start=start + 0.1, easy=start - 0.05 * abs(start) - 1e-3, middle=start - 0.3 * abs(start) - 0.01, hard=start - 50)[it["stop"]]
    opts = dict(it["options"])
    o = op.TopologyOptimizer(fun, x0, method=it["method"], threshold=(it["lo"], it["lo"] + it["levels"]), maxiter=it["maxiter"], stopval=stop,
                             args=user, callback=cb if it["cb"] else None, options=opts or None)
    head = dict(ev="start", lo=it["lo"], hi=it["lo"] + it["levels"], cb=it["cb"], x0=ident(it["x0"])[0], budget=it["maxiter"] if it["method"] == "nlopt" else 0)
    rows = []
    for again in range(it["runs"]):
        rec.clear()
        before = o.current_iteration
        end = dict(ev="end", err="", x=0, y=0.0, count=0, kept=True)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x, y = o.minimize()
            end.update(x=ident(x)[0], y=float(y), count=o.current_iteration - before,
                       kept=bool(np.array_equal(to_np(x0), it["x0"])) and (user is None or list(user) == [it["first"], *extra]))
        except Exception as e:
            end["err"] = f"{type(e).__name__}: {e}"[:200]
        rows += [dict(head)] + [dict(r) for r in rec] + [end]
    # values as ranks
    vals = sorted({r["y"] for r in rows if "y" in r} | ({stop} if stop is not None else set()))
    rank = {v: k for k, v in enumerate(vals)}
    for r in rows:
        if "y" in r:
            r["y"] = rank[r["y"]]
        if r["ev"] == "start":
            r["stop"] = -1 if stop is None else rank[stop]
    return rows


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"), limit=60)


if __name__ == "__main__":
    main(run)
