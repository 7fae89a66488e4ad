"""Stress integrals at depths of stacks, with the powers of the orders."""
import math
import numpy as np
from rt import *
import nannos as nn
from scene_math import basis_of, cplx, kpar

S6 = 10**6


def mean_stress(L, E, H, h):
    """Normal stress averaged over the cell, from the field and the pattern at its points."""
    e = eps_value(L["eps"])
    n, m = e.shape[-2:] if np.ndim(e) >= 2 else (1, 1)
    x, y = np.meshgrid(np.arange(n) / n, np.arange(m) / m, indexing="ij")
    ph = np.exp(2j * math.pi * (h[:, 0, None, None] * x + h[:, 1, None, None] * y))
    if np.ndim(e) == 4:
        I = e
    else:
        I = np.eye(3)[:, :, None, None] * (e if np.ndim(e) else np.full((1, 1), e))
    if np.ndim(e) < 2:  # Parseval
        e0 = complex(e)
        v = np.real(np.conj(e0)) * np.sum(np.abs(E) ** 2, axis=1)
        w = np.sum(np.abs(H) ** 2, axis=1)
    else:
        f = np.einsum("ck,kxy->cxy", E, ph)
        D = np.einsum("cdxy,dxy->cxy", I, f)
        v = np.mean(np.real(f * np.conj(D)), axis=(1, 2))
        w = np.sum(np.abs(H) ** 2, axis=1)
    return 0.5 * (v[2] + w[2] - v[0] - v[1] - w[0] - w[1])


def one(it):
    sc = it["scene"]
    sim = sim_of(nn, sc)
    if it["first"]:
        sim.solve()
    R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
    h = np.array(to_np(sim.harmonics)).T.astype(int)
    w = 2 * math.pi / sc["exc"]["wl"]
    p = kpar(sc, h) / w
    e0, e1 = cplx(sc["layers"][0]["eps"]).real, cplx(sc["layers"][-1]["eps"])
    inc = math.cos(math.radians(sc["exc"]["ang"][0])) / math.sqrt(e0)
    nz = lambda e: [fx(math.sqrt(max(0.0, e - a * a - b * b)), S6) for a, b in p.T]
    v = lambda q: [fx(x, S6) for x in q]
    rows = [dict(ev="begin", err="", p=[v(p[0]), v(p[1])], nt=nz(e0), nb=nz(e1.real), zero=int(sim.get_order_index((0, 0))) + 1, R=v(R), T=v(T))]
    a = basis_of(sc)[1]
    g = a / np.hypot(*a)
    rnd = np.random.default_rng(it["seed"])
    orig = sc["form"] == "original"
    mono = not isinstance(sc["lattice"]["basis"], list)
    for j, (L, kind) in enumerate(zip(sc["layers"], ["top"] + it["kinds"] + ["bottom"])):
        d = float(L["d"])
        if kind == "top":
            zs = [d - x for x in sorted(rnd.uniform(0, 0.5, 2) * sc["exc"]["wl"])[::-1]] + [d]
        elif kind == "bottom":
            zs = [0.0] + sorted(rnd.uniform(0, 0.5, 2) * sc["exc"]["wl"])
        else:
            zs = sorted([0.0, d] + list(rnd.uniform(0, d, 2)))
        # the same layer under all its names
        name = [j, L["name"], sim.layers[j], j - len(sc["layers"])][it["seed"] % 4]
        if kind == "bottom" and e1.imag:
            zs = zs[:1]
        st = [[fx(float(x) / inc, S6) for x in sim.get_z_stress_tensor_integral(name, z=z)] for z in zs]
        F = to_np(sim.get_field_fourier(j, zs))
        S = np.real(F[:, 0, 0] * F[:, 1, 1].conj() - F[:, 0, 1] * F[:, 1, 0].conj()) / inc
        grid = isinstance(L["eps"], dict)
        lossless = kind != "absorbing" and not (kind == "bottom" and e1.imag)
        real = [fx(mean_stress(L, f[0], f[1], h) / inc, S6) for f in F] if orig or not grid else []
        rows.append(dict(ev="layer", kind=kind, T=st, S=[v(s) for s in S], groove=v(g), real=real,
                         keep=int(lossless and (orig or not grid or mono and "tgrid" not in L["eps"]))))
    rows.append(dict(ev="end"))
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
