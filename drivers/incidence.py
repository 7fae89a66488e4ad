"""Answers of a structure to incident waves described by angles."""
import math
import numpy as np
from rt import *
import nannos as nn

S6 = 10**6
ALPHA = math.degrees(math.atan2(3, 4))


def deg(a):
    return 90.0 * a[0] + ALPHA * a[1]


def ask(sc, th, ph, ps, zs, order):
    sim = sim_of(nn, dict(sc, exc=dict(wl=sc["exc"]["wl"], ang=[th, ph, ps])))
    lin, quad = [], []

    def coeffs():
        r, t = (to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True))
        lin.append(("c", np.concatenate([r.ravel(), t.ravel()])))

    def powers():
        R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
        quad.append(("p", np.concatenate([R, T])))

    def fields():
        for j, z in zs:
            f = to_np(sim.get_field_fourier(j, z))[0]
            lin.append((f"f{j}", f.ravel()))
            quad.append((f"s{j}", np.array([float(x) for x in sim.get_z_stress_tensor_integral(j, z=z)])))
    for k in order:
        (coeffs, powers, fields)[k]()
    lin, quad = (np.concatenate([v for _, v in sorted(q, key=lambda x: x[0])]) for q in (lin, quad))
    return [fx(x, S6) for x in lin.real] + [fx(x, S6) for x in lin.imag], [fx(x, S6) for x in quad]


def one(it):
    sc, h = it["scene"], it["hist"]
    rnd = np.random.default_rng(it["seed"])
    zs = [(j, float(rnd.uniform(0, 1) * L["d"])) for j, L in enumerate(sc["layers"])]
    zs = [zs[i] for i in rnd.permutation(len(zs))[:2]]
    t0, p0 = deg(h["base"]["th"]), deg(h["base"]["ph"])
    order = [0, 1, 2]
    (lp, qp), (ls, qs), (lm, qm) = (ask(sc, t0, p0, ps, zs, order) for ps in (0, 90, ALPHA))
    rows = [dict(ev="begin", err="", lp=lp, ls=ls, lm=lm, qp=qp, qs=qs, qm=qm)]
    for d in h["log"]:
        rnd.shuffle(order)
        lin, quad = ask(sc, deg(d["th"]), deg(d["ph"]), deg(d["ps"]), zs, order)
        rows.append(dict(ev="describe", err="", lin=lin, quad=quad, c=d["c"], s=d["s"], at=[deg(d["th"]), deg(d["ph"]), deg(d["ps"])]))
    return rows


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
