"""Runs of the adaptive sampler on tabulated functions."""
import os
import numpy as np
from rt import *
import nannos as nn


def form_of(b):
    """The answer of the sampled function in the form a computation with this backend has."""
    if b == "torch":
        import torch
        return lambda y: torch.tensor(y, dtype=torch.float64) if isinstance(y, float) else torch.tensor(np.array(y))
    if b == "jax":
        return nn.backend.array
    if b == "0d":
        return np.array
    return lambda y: y


def one(it):
    b = it.get("backend", "")
    if b in ("torch", "jax", "autograd", "numpy") and nn.get_backend() != b:
        nn.set_backend(b)
    form = form_of(b)
    from nannos.sample import adaptive_sampler
    table = {x: y for x, y in it["calls"]}
    u, v, off = it["unit"], it["vunit"], it["off"]
    calls, log = [], os.path.join(os.environ["TMPDIR"], f"calls{it['id']}")
    many, multi = it["jobs"] > 1, it["multi"]

    def f(x):
        k = float(x) / u - off
        k = int(k) if k == int(k) and abs(k) < 10**6 else 999983
        y = table.get(k, (k * 7919) % 7 - 3)
        if many:
            fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, f"{k} {y}\n".encode())
            os.close(fd)
        else:
            calls.append([k, y])
        if multi == 0:
            return form(float(y * v))
        if multi == 1:
            return form(float(y * v)), form(float(k)), 0.5 * y
        return form(np.array([y * v, float(k)]))

    first = [float(x + off) * u for x in it["order"]]
    first = np.array(first)
    kept = first.copy()
    rows = [dict(ev="start", par=it["par"], first=it["first"])]
    end = dict(ev="end", err="", xs=[], ys=[], calls=[])
    p = it["par"]
    try:
        kw = dict(max_bend=p["bend"], max_x_rel=1 / p["relx"] if p["relx"] else 0, max_df=1 / p["df"] if p["df"] else 0)
        if it["jobs"] > 0:
            kw["n_jobs"] = it["jobs"]
        x, y = adaptive_sampler(f, first, **kw)
        if not np.array_equal(first, kept):
            raise ValueError("the initial points were modified")
        end["xs"] = [fx(a / u - off, 1) if a / u == int(a / u) else CLIP for a in np.asarray(x)]
        if multi == 0:
            end["ys"] = [fx(a / v, 1) for a in np.asarray(y)]
        else:
            ok = all(float(r[1]) == k for r, k in zip(y, end["xs"]))
            end["ys"] = [fx(r[0] / v, 1) if ok else CLIP for r in y]
    except Exception as e:
        end["err"] = f"{type(e).__name__}: {e}"[:200]
    if many and os.path.exists(log):
        calls = [[int(w) for w in line.split()] for line in open(log).read().split("\n")[:-1]]
    rows += [dict(ev="call", x=a, y=b) for a, b in calls]
    end["calls"] = calls
    rows.append(end)
    return rows


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"), limit=60)


if __name__ == "__main__":
    main(run)
