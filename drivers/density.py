"""Projections, interpolations and filters of densities."""
import os
import numpy as np
from rt import *
import nannos as nn

BACKEND = os.environ.get("DENSITY_BACKEND", "numpy")
if BACKEND != "numpy":
    nn.set_backend(BACKEND)
from nannos import optimize as op  # noqa
from nannos.utils import apply_filter  # noqa
bk = nn.backend
U = 10**6


def arr(x):
    return bk.array(np.asarray(x).copy())


def beta_of(m):
    return 4 * m * np.log(2)


def pair(z):
    z = complex(z)
    return [fx(z.real, U), fx(z.imag, U)]


def flat(x, s=U):
    return [fx(v, s) for v in np.ravel(to_np(x))]


def radius(N, q, v):
    if q == 0:
        return 0
    s = (N if v is None else v) / (N - 1) if N > 1 else 1.0
    return 1e5 * s if q == -1 else s / np.sqrt(q * np.log(2))


def one(it):
    rows = []
    row = {k: v for k, v in it.items() if k in ("ev", "k", "den", "m", "t", "es", "N", "q", "x", "lo", "hi")}
    row["err"] = ""
    try:
        e = it["ev"]
        if e in ("project", "multi", "simp", "msimp"):
            x = np.array(it["k"]) / it["den"]
            if it["shape"] == "scalars":
                f = lambda g: np.array([to_np(g(float(v))) for v in x]).ravel()
            elif it["shape"] == "column":
                f = lambda g: to_np(g(arr(x[:, None] * np.ones((1, 3)))))[:, 1]
            else:
                f = lambda g: to_np(g(arr(x)))
            if e == "project":
                a = f(lambda v: op.project(v, beta_of(it["m"]), it["t"] / 8))
            elif e == "multi":
                a = f(lambda v: op.multi_project(v, beta_of(it["m"]), it["t"]))
            elif e == "simp":
                es = [cplx(v) if v[1] else v[0] for v in it["es"]]
                a = f(lambda v: op.simp(v, *es, it["m"]))
            else:
                es = [cplx(v) if v[1] else v[0] for v in it["es"]]
                a = f(lambda v: op.multi_simp(v, es, it["m"]))
            row["ans"] = [fx(v, U) for v in a] if e in ("project", "multi") else [pair(v) for v in a]
        elif e == "sweep":
            x = np.array(it["xs"])
            fn, p = it["fn"], it["par"]
            g = dict(project=lambda v: op.project(v, *p), multi=lambda v: op.multi_project(v, p[0], p[1]), simp=lambda v: op.simp(v, it["lo"] / U, it["hi"] / U, p[0]),
                     msimp=lambda v: bk.real(op.multi_simp(v, [it["lo"] / U, it["hi"] / U], p[0])))[fn]
            row["ans"] = flat(g(arr(x)))
            row["comp"] = []
            if fn in ("project", "multi"):
                if fn == "project":
                    g = lambda v: op.project(v, p[0], 1 - p[1])
                row["comp"] = flat(g(arr(1 - x)))
        elif e == "filter":
            N, v = it["N"], it["vectors"]
            r = tuple(radius(N[a], it["q"][a], None if v is None else v[a][a]) for a in (0, 1))
            if it["scalar"] and r[0] == r[1]:
                r = r[0]
            x = arr(np.array(it["x"], dtype=float))
            keep = np.array(to_np(x))
            # a filter of the same radius in another cell, before: no answer may depend on it
            apply_filter(x * 0.5, r, vectors=[[2.75 * (v[0][0] if v else N[0]), 0], [0, 0.625 * (v[1][1] if v else N[1])]])
            if v is not None:
                apply_filter(x, r)
            a = to_np(apply_filter(x, r) if v is None else apply_filter(x, r, vectors=v))
            if not np.array_equal(keep, to_np(x)):
                raise ValueError("the density was modified")
            row["ans"] = [[fx(v, U) for v in r] for r in a]
        else:  # laws on larger grids
            g = np.random.default_rng(it["seed"])
            N, v, r = it["N"], it["vectors"], it["r"]
            r = tuple(r) if isinstance(r, list) else r
            f = lambda x: to_np(apply_filter(arr(x), r) if v is None else apply_filter(arr(x), r, vectors=v))
            x, y = g.uniform(0, 1, N), (g.uniform(0, 1, N) > 0.7) * 1.0
            a, b = 0.75, -1.5
            fx_, fy_ = f(x), f(y)
            sh = [int(g.integers(0, n)) for n in N]
            agree = lambda law, L, R: rows.append(dict(ev="agree", err="", law=law, left=flat(L), right=flat(R)))
            agree("constant densities are kept", f(np.full(N, 0.375)), np.full(N, 0.375))
            agree("linear", f(a * x + b * y), a * fx_ + b * fy_)
            agree("commutes with cyclic translations", f(np.roll(y, sh, (0, 1))), np.roll(fy_, sh, (0, 1)))
            agree("the mean density is kept", [fx_.mean(), fy_.mean()], [x.mean(), y.mean()])
            # lengths have no unit: only their ratios to the cell count (the same radius in two cells, one after the other)
            cell = v if v is not None else [[N[0], 0], [0, N[1]]]
            half = tuple(q / 2 for q in r) if isinstance(r, tuple) else r / 2
            twice = [[2 * c for c in w] for w in cell]
            agree("only lengths relative to the cell matter", apply_filter(arr(y), r, vectors=twice), apply_filter(arr(y), half, vectors=cell))
            agree("a filter answers the same again", f(y), fy_)
            if N[0] % 2:
                agree("commutes with mirrors", f(y[::-1]), fy_[::-1])
            if N[1] % 2:
                agree("commutes with mirrors", f(y[:, ::-1]), fy_[:, ::-1])
            if N[0] == N[1] and not isinstance(r, tuple) and (v is None or v[0][0] == v[1][1]):
                agree("commutes with the transposition", f(y.T), fy_.T)
            if BACKEND in ("torch", "autograd"):
                # the filter is linear: its derivative along x is its value
                w = arr(g.normal(size=N))
                d = nn.grad(lambda z: bk.sum(w * (apply_filter(z, r) if v is None else apply_filter(z, r, vectors=v))))(arr(y))
                agree("the gradient is the derivative", [(to_np(d) * x).sum()], [(to_np(w) * fx_).sum()])
            rows.append(dict(ev="inside", err="", ans=flat(fy_), lo=fx(y.min(), U), hi=fx(y.max(), U)))
            return rows
    except Exception as ex:
        row["err"] = f"{type(ex).__name__}: {ex}"[:200]
    return rows + [row]


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"))


if __name__ == "__main__":
    main(run)
