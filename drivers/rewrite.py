"""Answers of rewritten descriptions of one structure."""
import numpy as np
from rt import *
import nannos as nn
from scene_math import gammas

NAMES = [lambda j, n: f"layer{j}", lambda j, n: ["Superstrate", *[f"L{k}" for k in range(n)], "Substrate"][j if j < n + 1 else -1],
         lambda j, n: str(n + 1 - j)]


def flat(v, ph):
    return [x for c in v for x in (fx((c * ph).real), fx((c * ph).imag))]


def observe(sc, desc):
    n = len(desc["stack"])
    name = NAMES[desc["names"]]
    outs = [dict(name=name(0, n), d=desc["outer"][0] * sc["unit"], eps=sc["ends"][0])]
    for j, L in enumerate(desc["stack"]):
        outs.append(dict(name=name(j + 1, n), d=L["d"] * sc["unit"], eps=sc["mats"][L["mat"] - 1], rep=L["rep"]))
    outs.append(dict(name=name(n + 1, n), d=desc["outer"][1] * sc["unit"], eps=sc["ends"][1]))
    lat = lattice_of(nn, sc["lattice"])
    layers = []
    for L in outs:
        e = eps_value(L["eps"])
        if L.get("rep") == "grid" and np.ndim(e) == 0:
            e = np.ones(lat.discretization) * e
        layers.append(lat.Layer(L["name"], thickness=L["d"], epsilon=e))
    sim = nn.Simulation(layers, nn.PlaneWave(sc["exc"]["wl"], tuple(sc["exc"]["ang"])), nh=sc["nh"], formulation=sc["form"])
    R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
    r, t = (to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True))
    s = sim.diffraction_efficiencies()
    h = np.array(to_np(sim.harmonics)).T.astype(int)
    g = gammas(dict(sc, layers=[dict(eps=sc["ends"][0]), dict(eps=sc["ends"][1])]), h)
    g0 = gammas(dict(sc, layers=[dict(eps=sc["ends"][0]), dict(eps=sc["ends"][1])]), [[0, 0]])[0][0]
    d0 = desc["outer"][0] * sc["unit"]
    obs = []
    for k in range(len(h)):
        obs.append(dict(h=[int(v) for v in h[k]], R=fx(R[k]), T=fx(T[k]), r=flat(r[:, k], np.exp(-1j * (g0 + g[0][k]) * d0) if abs(g[0][k].imag) < 1e-9 else 1),
                        t=flat(t[:, k], np.exp(-1j * g0 * d0))))
    return obs, [fx(s[0]), fx(s[1])]


def one(item):
    sc = item["scene"]
    rows, sum0 = [], None
    for k, desc in enumerate(item["hist"]):
        row = dict(ev="structure" if k == 0 else "describe", err="", obs=[], sum=[0, 0], sum0=sum0 or [0, 0], **desc)
        try:
            row["obs"], row["sum"] = observe(sc, desc)
            if k == 0:
                sum0 = row["sum"]
        except Exception as e:
            row["err"] = f"{type(e).__name__}: {e}"[:200]
        rows.append(row)
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
