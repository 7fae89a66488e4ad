"""Replays planar stacks of the specification: reflectance, transmittance, coefficients, fields."""
import math
import numpy as np
from rt import *
import nannos as nn


def build(case, selected=None, thickness=None):
    """The simulation of a case; the thickness of one layer may be replaced."""
    kx = case["kap"][0] / case["kap"][1]
    q0 = case["q0"][0] / case["q0"][1]
    sub = complex(case["sub"][0], case["sub"][1]) / case["sub"][2]
    wl, phi, psi = case["wl"], case["phi"], case["psi"]
    n0 = math.sqrt(kx**2 + q0**2)
    theta = math.degrees(math.asin(min(1.0, kx / n0)))
    lattice = lattice_of(nn, case["lattice"])
    disc = lattice.discretization

    def eps(v, grid):
        v = complex(v)
        if grid:
            return np.ones(disc, dtype=complex) * v if v.imag else np.ones(disc) * v.real
        if v.imag:
            return v
        # the ways to write a real permittivity: a number, a complex number or its conjugate
        return [v.real, complex(v.real, 0.0), complex(v.real, -0.0)][case.get("rep", 0)]

    layers = [lattice.Layer("top", thickness=case.get("dtop", 0), epsilon=eps(kx**2 + q0**2, False))]
    for j, L in reversed(list(enumerate(case["stack"]))):
        q = L["q"][0] / L["q"][1]
        d = thickness if j == selected else L["m"] * wl / (8 * q)
        layers.append(lattice.Layer(f"L{j}", thickness=d, epsilon=eps(kx**2 + q**2, L.get("grid"))))
    layers.append(lattice.Layer("bottom", thickness=0, epsilon=eps(kx**2 + sub**2, case.get("subgrid"))))
    pw = nn.PlaneWave(wavelength=wl, angles=(theta, phi, psi))
    return pw, nn.Simulation(layers, pw, nh=case["nh"])


def measure(case):
    phi = case["phi"]
    pw, sim = build(case)
    R, T = sim.diffraction_efficiencies()
    out = dict(R=fx(R), T=fx(T), err="")
    r, t = sim.diffraction_efficiencies(orders=True, complex=True)
    i0 = sim.get_order_index((0, 0))
    amp = np.array(pw.amplitude)
    u = np.array([math.cos(math.radians(phi)), math.sin(math.radians(phi))])
    if case["w"][1] == 4:
        u = np.array([-u[1], u[0]])
    rt = (r[0][i0] * u[0] + r[1][i0] * u[1]) / (amp[0] * u[0] + amp[1] * u[1])
    out["r"] = [fx(rt.real), fx(rt.imag)]
    gains = []
    for j, L in enumerate(case["stack"]):
        name = f"L{j}"
        d = float(sim.get_layer(name)[0].thickness)
        F = sim.get_field_fourier(name, z=[0, d])
        Et = F[:, 0, 0, i0] * u[0] + F[:, 0, 1, i0] * u[1]
        gains.append(fx(abs(Et[0]) ** 2 / abs(Et[1]) ** 2, 10**5))
    out["gain"] = gains
    return out


def run(payload):
    return pmap(measure, payload["cases"])


if __name__ == "__main__":
    main(run)
