"""Harmonics chosen by lattices and simulations; powers of the orders of a scene."""
import cmath
import math
import numpy as np
from rt import *
import nannos as nn


def rotated(b, scale, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return tuple((scale * (c * x - s * y), scale * (s * x + c * y)) for x, y in ((b[0], b[1]), (b[2], b[3])))


def listof(h):
    return [[int(a), int(b)] for a, b in np.array(to_np(h)).T]


def lattice(case, disc=64, **kw):
    if case["kind"] == "1D":
        return nn.Lattice(case["scale"], discretization=tuple(disc) if isinstance(disc, list) else disc)
    if case["kind"] == "explicit":
        kw["harmonics_array"] = np.array(case["given"]).T
    else:
        kw["truncation"] = case["kind"]
    return nn.Lattice(rotated(case["basis"], case["scale"], case["rot"]), discretization=tuple(disc) if isinstance(disc, list) else disc, **kw)


def choose(case):
    out = []
    base = dict(ev="harm", basis=case["basis"], kind=case["kind"], nh=case["nh"], err="", list=[], n=0, given=case.get("given", []))
    first = None
    for sort in case["sorts"]:
        e = dict(base)
        try:
            h, n = lattice(case).get_harmonics(case["nh"], sort=sort)
            e.update(list=listof(h), n=int(n))
            first = first or e["list"]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        out.append(e)
    if first is None:
        return out
    m = max(max(abs(a), abs(b)) for a, b in first)
    for dx, dy in case["discs"]:
        disc = [max(1, 2 * m + dx), 1 if case["kind"] == "1D" else max(1, 2 * m + dy)]
        if disc == [3, 3]:
            continue  # a 3 x 3 array is a permittivity tensor
        e = dict(ev="disc", kind=case["kind"], list=first, disc=disc, simlist=[], simnh=0)
        try:
            lat = lattice(case, disc if case["kind"] != "1D" else [disc[0], 7])
            g = np.ones(lat.discretization)
            g[0, 0] = 2.0
            L = [lat.Layer("t"), lat.Layer("m", 0.3, g), lat.Layer("b")]
            sim = nn.Simulation(L, nn.PlaneWave(1.1, (10, 20, 30)), nh=case["nh"])
            e.update(outcome="ok", simlist=listof(sim.harmonics), simnh=int(sim.nh))
            # every retained order can be looked up
            if sorted(sim.get_order_index(tuple(h)) for h in first) != list(range(len(first))):
                e["simnh"] = -1
        except Exception as x:
            e["outcome"] = type(x).__name__
        out.append(e)
    return out


def powers(case):
    wl, q, s, kin = case["wl"], case["q"], case["s"], case["kin"]
    e0, e1 = (a / b for a, b in case["eps"])
    kap = math.hypot(*kin) / q
    phi = math.degrees(math.atan2(kin[1], kin[0])) + case["rot"]
    th = math.degrees(math.asin(kap / math.sqrt(e0)))
    lat = nn.Lattice(rotated(case["basis"], wl / s, case["rot"]), discretization=tuple(case["disc"]))
    L = [lat.Layer("t", case["dt"], e0), lat.Layer("m", 0.3 * wl, np.array(case["grid"])), lat.Layer("b", 0, e1)]
    sim = nn.Simulation(L, nn.PlaneWave(wl, (th, phi, case["psi"])), nh=case["nh"])
    e = dict(ev="orders", err="", basis=case["basis"], s=s, q=q, kin=kin, eps=case["eps"])
    e["list"] = listof(sim.harmonics)
    R, T = sim.diffraction_efficiencies(orders=True)
    e["R"] = [fx(sim.get_order(R, tuple(h))) for h in e["list"]]
    e["T"] = [fx(sim.get_order(T, tuple(h))) for h in e["list"]]
    R, T = sim.diffraction_efficiencies()
    e["total"] = fx(R + T)
    z = 0.02 * wl
    F = to_np(sim.get_field_fourier("b", z=[0, z]))
    gam, grow = [], []
    for h in e["list"]:
        n = sim.get_order_index(tuple(h))
        A = F[:, :, :, n].reshape(2, 6)
        c = int(np.argmax(abs(A[0])))
        if abs(A[0, c]) < 1e-6:
            gam.append(CLIP)
            grow.append(2)
            continue
        ratio = A[1, c] / A[0, c]
        g = cmath.log(ratio) / (1j * 2 * math.pi * z / wl)
        gam.append(fx((g * g).real, 10**4))
        grow.append(0 if abs(abs(ratio) - 1) < 1e-9 else 1 if abs(ratio) > 1 else -1)
    e["gam"], e["grow"] = gam, grow
    return [e]


def one(c):
    return powers(c) if "kin" in c else choose(c)


def run(payload):
    return pmap(one, payload["cases"])


if __name__ == "__main__":
    main(run)
