"""The power each channel of a structure (side, order, polarization) sends to each other, both ways."""
import math
import numpy as np
from rt import *
import nannos as nn
from scene_math import basis_of, cplx, kpar, reciprocal

S6 = 10**6


def transposed(e):
    e = eps_value(e)
    if np.ndim(e) == 4:
        return np.swapaxes(e, 0, 1)
    return e


def build(sc, H, k, flipped, back, psi):
    """Incidence with lateral wavevector k on the top (or, flipped, on what was the bottom)."""
    L = sc["layers"][::-1] if flipped else sc["layers"]
    n0 = math.sqrt(cplx(L[0]["eps"]).real)
    k0 = 2 * math.pi / sc["exc"]["wl"]
    th, ph = math.degrees(math.asin(math.hypot(*k) / (n0 * k0))), math.degrees(math.atan2(k[1], k[0]))
    lat = sc["lattice"] if H is None else dict(sc["lattice"], harm=np.array(H).T.tolist())
    lattice = lattice_of(nn, lat)
    # what the user describes as the reversed structure has the transposed tensors
    lay = [lattice.Layer(x["name"], thickness=x["d"], epsilon=transposed(x["eps"]) if back else eps_value(x["eps"])) for x in L]
    return nn.Simulation(lay, nn.PlaneWave(sc["exc"]["wl"], (th, ph, psi)), nh=sc["nh"] if H is None else len(H), formulation=sc["form"])


def split(v, P, k, n, k0):
    """Powers (p, s) of an order of coefficients v, total power P, lateral wavevector k."""
    kk = math.hypot(*k)
    s = np.array([-k[1], k[0]]) / kk
    ps = abs(v[0] * s[0] + v[1] * s[1]) ** 2
    return [P - ps, ps]


def one(it):
    sc, own = it["scene"], it["harm"] is None
    if own:  # the harmonics the lattice chooses: the same for opposite incidences
        H = [tuple(int(x) for x in q) for q in np.array(to_np(lattice_of(nn, sc["lattice"]).get_harmonics(sc["nh"])[0])).T]
    else:
        H = [tuple(h) for h in it["harm"]]
    k0 = 2 * math.pi / sc["exc"]["wl"]
    K = kpar(sc, H).T
    eps = [cplx(sc["layers"][0]["eps"]), cplx(sc["layers"][-1]["eps"])]
    ch = [(sd, j) for sd in (0, 1) for j in range(len(H)) if not eps[sd].imag and eps[sd].real * k0**2 - K[j] @ K[j] > 0]
    nor = [c for c in ch if np.hypot(*K[c[1]]) < 1e-9 * k0]
    ch = [c for c in ch if c not in nor]
    # few enough channels, both sides among them
    rnd = np.random.default_rng(it["seed"])
    if own:
        ch = [c for c in ch if H[c[1]] == (0, 0)]
    ask = [ch[i] for i in sorted(rnd.permutation(len(ch))[: it["ask"]])]
    rows = [dict(ev="begin", err="", n=2 * len(ask), lossless=int(it["lossless"]), whole=int(not own and len(ask) == len(ch) and not nor and not eps[1].imag))]
    todo = [(d, c, p) for d in (0, 1) for c in range(len(ask)) for p in (0, 1)]
    rnd.shuffle(todo)
    for d, c, p in todo:
        sd, j = ask[c]
        k = K[j] if d == 0 else -K[j]
        hs = [((h[0] - H[j][0], h[1] - H[j][1]) if d == 0 else (H[j][0] - h[0], H[j][1] - h[1])) for h in H]
        order = list(range(len(H)))
        if it["shuffle"]:
            rnd.shuffle(order)
        sim = build(sc, None if own else [hs[i] for i in order], k, sd == 1, d == 1, 90 * p)
        R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
        r, t = (to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True))
        hh = [tuple(int(x) for x in q) for q in np.array(to_np(sim.harmonics)).T]
        pos = [hh.index(q) for q in hs]
        out, tot = [], float(np.sum(R) + np.sum(T))
        for sd2, j2 in ask:
            P, v = (R, r) if sd2 == sd else (T, t)
            a = pos[j2]
            out += [fx(x, S6) for x in split(v[:, a], float(P[a]), (K[j2] if d == 0 else -K[j2]), None, k0)]
        rows.append(dict(ev="send", dir=int(d), frm=2 * int(c) + int(p) + 1, out=out, tot=fx(tot, S6)))
    rows.append(dict(ev="end"))
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
