"""Permittivities reconstructed by simulations."""
import os
import numpy as np
from rt import *
import nannos as nn

BACKEND = os.environ.get("SPECTRUM_BACKEND", "numpy")
U = 100000


def pair(z, s=1):
    return [fx(z.real * s, U), fx(z.imag * s, U)]


def pattern(it):
    n, m = it["N"]
    if it["ev"] == "exact":
        return np.array([[complex(*v) for v in r] for r in it["g"]])
    x, y = np.meshgrid(np.arange(n) / n, np.arange(m) / m, indexing="ij")
    return sum(complex(*c["v"]) * np.exp(2j * np.pi * (c["h"][0] * x + c["h"][1] * y)) for c in it["coef"])


def one(it):
    row = dict(err="", ans=[], H=[], **{k: it[k] for k in ("ev", "N", "g", "coef", "value")})
    try:
        if BACKEND != "numpy":
            nn.set_backend(BACKEND)
        n, m = it["N"]
        kw = {} if it["harm"] is None else dict(harmonics_array=np.array(it["harm"]).T)
        if it["basis"] is None:
            lat = nn.Lattice(0.8, discretization=n, **kw)
        else:
            lat = nn.Lattice(tuple(map(tuple, it["basis"])), discretization=(n, m), **kw)
        if it["ev"] == "uniform":
            e = cplx(it["value"])
        else:
            e = pattern(it)
            if not np.iscomplexobj(e) or np.all(e.imag == 0):
                e = e.real
            if it["aniso"]:
                rr = np.random.default_rng(it["aniso"]).normal(size=(3, 3, n, m)) + 3
                rr = rr + 0j
                rr[2, 2] = e
                e = rr
        probe = lat.Layer("probe", thickness=0.1, epsilon=e)
        other = lat.Layer("other", thickness=0.1, epsilon=lat.ones() * 2 + to_np(lat.grid[0]) if BACKEND == "numpy" else 2)
        layers = [lat.Layer("top", epsilon=1), other, probe, lat.Layer("bottom", epsilon=2)]
        name = "probe"
        if it["copy"]:
            c = probe.copy("again")
            layers.insert(3, c)
            name = "again"
        sim = nn.Simulation(layers, nn.PlaneWave(1.0, (10, 20, 30)), nh=it["nh"], formulation=it["form"])
        if it["solved"]:
            sim.diffraction_efficiencies()
        k = it["by"]
        ans = to_np(sim.get_epsilon(name if k == 0 else [L.name for L in layers].index(name) - (len(layers) if k == 2 else 0)))
        row["H"] = [[int(v) for v in h] for h in to_np(sim.harmonics).T]
        if it["ev"] == "uniform":
            row["ans"] = pair(complex(ans)) if np.ndim(ans) == 0 else pair(complex(np.ravel(ans)[0]))
        elif it["ev"] == "exact":
            row["ans"] = [[pair(v, n * m) for v in r] for r in np.asarray(ans)]
        else:
            ans = np.asarray(ans)
            if ans.shape != (n, m):
                raise ValueError(f"shape {ans.shape}")
            # spectrum of the answer, by the definition
            x, y = np.arange(n), np.arange(m)
            Fx, Fy = np.exp(-2j * np.pi * np.outer(x, x) / n), np.exp(-2j * np.pi * np.outer(y, y) / m)
            c = Fx @ ans @ Fy / (n * m)
            row["ans"] = [dict(h=[int(a), int(b)], v=pair(c[a, b])) for a in range(n) for b in range(m) if not abs(c[a, b]) < 1e-7]
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return row


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"))


if __name__ == "__main__":
    main(run)
