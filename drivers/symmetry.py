"""Efficiencies of the descriptions of one structure."""
import math
import numpy as np
from rt import *
import nannos as nn

SCALES = [1.0, 2.5, 0.4, 1e-3]


def describe(sc, d, lift=False):
    """The scene as the description reads it: what a user would write."""
    n, m = np.array(d["n"]), np.array(d["m"])
    A, t, O = np.array(d["A"]), np.array(d["t"]), np.array(d["O"])
    x = np.stack(np.meshgrid(np.arange(m[0]), np.arange(m[1]), indexing="ij"))
    y = (np.einsum("ab,bij->aij", A, x) + t[:, None, None]) % n[:, None, None]
    a = math.radians(15 * d["turn"])
    rot = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    mir = np.diag([-1.0, 1.0]) if d["flip"] else np.eye(2)
    Q = np.eye(3)
    Q[:2, :2] = rot @ mir
    s = SCALES[d["scale"]]
    th, ph, ps = sc["exc"]["ang"]
    if d["flip"]:
        ph, ps = 180 - ph, -ps
    ang = (th, ph + 15 * d["turn"], ps)
    basis = O @ np.array(sc["basis"], dtype=float) @ Q[:2, :2].T * s
    layers = []
    for L in sc["layers"]:
        e = eps_value(L["eps"])
        if np.ndim(e) >= 2:
            g = e if np.ndim(e) == 4 else np.asarray(e)
            if lift:  # invariant along y
                g = np.broadcast_to(g, (*g.shape[:-1], n[1]))
            if np.ndim(e) == 2 and np.shape(e) == (3, 3):
                g = Q @ g @ Q.T
            elif np.ndim(e) == 4:
                g = np.einsum("ab,bcij,dc->adij", Q, g[:, :, y[0], y[1]], Q)
            else:
                g = g[y[0], y[1]]
            e = g
        kw = {}
        if L.get("field") is not None and np.ndim(e) >= 2 and e.shape != (3, 3):
            # a field of the user, one vector per point; its sign and length mean nothing
            f = np.array(L["field"]).reshape(2, n[0], -1)
            f = np.broadcast_to(f, (2, *n))[:, y[0], y[1]]
            kw = dict(tangent_field=[nn.backend.array(v) for v in np.einsum("ab,bij->aij", Q[:2, :2], f)])
        layers.append((L["name"], L["d"] * s, e, kw))
    return basis, m, layers, sc["exc"]["wl"] * s, ang


def observe(sc, d, harm, lift=False, one=False):
    basis, m, layers, wl, ang = describe(sc, d, lift)
    if one:
        b, disc = float(basis[0][0]), (int(m[0]), 1)
        if d["n"][1] > 1:
            raise ValueError("not mono-periodic")
    else:
        b, disc = tuple(tuple(float(v) for v in r) for r in basis), tuple(int(v) for v in m)
    kw = {} if harm is None else dict(harmonics_array=np.array(harm).T)
    lat = nn.Lattice(b, discretization=disc, **kw)
    L = [lat.Layer(nm, thickness=t, epsilon=e, **k) for nm, t, e, k in layers]
    sim = nn.Simulation(L, nn.PlaneWave(wl, ang), nh=sc["nh"] if harm is None else len(harm), formulation=sc.get("form", "original"))
    R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
    s = sim.diffraction_efficiencies()
    h = np.array(to_np(sim.harmonics)).T.astype(int)
    return [dict(h=[int(v) for v in h[k]], R=fx(R[k]), T=fx(T[k])) for k in range(len(h))], [fx(s[0]), fx(s[1])]


def one(item):
    sc, rows = item["scene"], []
    for k, d in enumerate(item["hist"]):
        row = dict(ev="structure" if k == 0 else "describe", err="", obs=[], sum=[0, 0], explicit=sc["harm"] is not None, **d)
        try:
            if sc.get("lift") and k == 0:
                d = dict(d, n=[d["n"][0], 1], m=[d["m"][0], 1])
                row["obs"], row["sum"] = observe(sc, d, sc["harm"], one=True)
            elif sc["harm"] is None:
                row["obs"], row["sum"] = observe(sc, d, None, one=sc["one"])
            else:
                O = np.array(d["O"])
                harm = [[int(v) for v in O @ h] for h in sc["harm"]] + (d["extra"] if k else [])
                harm = [list(h) for h in dict.fromkeys(map(tuple, harm))]
                row["obs"], row["sum"] = observe(sc, d, harm, lift=bool(sc.get("lift")), one=sc["one"])
        except Exception as e:
            row["err"] = f"{type(e).__name__}: {e}"[:200]
        rows.append(row)
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
