"""Power flux at depths of a stack, and the absorption of its layers from the fields."""
import math
import numpy as np
from rt import *
import nannos as nn
from scene_math import cplx
from walk import eps_matrices


def own(sim, j, zs, inc):
    """The flux at the same depths as the code itself computes it from the amplitudes of the modes."""
    if not hasattr(sim, "_get_amplitudes"):
        return []
    out = []
    for z in zs:
        f, b = sim.get_z_poynting_flux(sim.layers[j], *sim._get_amplitudes(j, z=z))
        out.append(fx(float(np.sum(to_np(f)) + np.sum(to_np(b))) / inc))
    return out


def one(sc):
    sim = sim_of(nn, sc)
    ask = sc.get("first", 0)
    if ask == 1:
        sim.solve()
    R, T = sim.diffraction_efficiencies()
    h = np.array(to_np(sim.harmonics)).T.astype(int)
    w = 2 * math.pi / sc["exc"]["wl"]
    th = math.radians(sc["exc"]["ang"][0])
    inc = math.cos(th) / math.sqrt(cplx(sc["layers"][0]["eps"]).real)
    R, T = float(R), float(T)
    if sc.get("orders"):
        a, b = sim.diffraction_efficiencies(orders=True)
        R, T = float(np.sum(to_np(a))), float(np.sum(to_np(b)))
    rows = [dict(ev="begin", err="", R=fx(R), T=fx(T))]
    n = len(sc["layers"])
    rnd = np.random.default_rng(sc["seed"])
    allquad = 1
    for j, L in enumerate(sc["layers"]):
        d = float(L["d"])
        e = L["eps"]
        last = j == n - 1
        lossy = isinstance(e, list) or isinstance(e, dict) and "im" in e
        zs = [0.0] if last else sorted([0.0, d] + list(rnd.uniform(0, d, 2))) if d else [0.0, 0.0]
        gx, gw = np.polynomial.legendre.leggauss(24)
        quad = lossy and not last
        zq = list(0.5 * d * (gx + 1)) if quad else []
        F = to_np(sim.get_field_fourier(j, zs + zq))
        S = np.sum(F[:, 0, 0] * F[:, 1, 1].conj() - F[:, 0, 1] * F[:, 1, 0].conj(), axis=-1).real / inc
        row = dict(ev="layer", name=L["name"], lossy=int(lossy), flux=[fx(v) for v in S[:len(zs)]], taken=0, quad=0)
        row["own"] = own(sim, j, zs, inc)
        if quad:
            form = sc["form"] == "original" or not isinstance(e, dict)
            if form:
                E = F[len(zs):, 0]
                B = eps_matrices(sc, L, h)
                full = np.block(B)
                im = (full - full.conj().T) / 2j
                v = E.reshape(len(zq), -1)
                p = w * np.einsum("zi,ij,zj->z", v.conj(), im, v).real / inc
                row["taken"], row["quad"] = fx(0.5 * d * np.dot(gw, p)), 1
            else:
                row["taken"] = fx(S[0] - S[len(zs) - 1])
        if not last:
            rows.append(row)
            if lossy and not row["quad"]:
                allquad = 0
        else:
            # the flux entering the substrate
            rows.append(dict(ev="layer", name=L["name"], lossy=0, flux=row["flux"][:1], taken=0, quad=0, own=row["own"][:1]))
    rows.append(dict(ev="end", sub=0, quad=allquad))
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
