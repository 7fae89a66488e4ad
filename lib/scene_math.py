"""Kinematics of scenes computed from the description alone (numpy, independent of the package)."""
import math

import numpy as np


def cplx(x):
    return complex(x[0], x[1]) if isinstance(x, (list, tuple)) else complex(x)


def basis_of(sc):
    b = sc["lattice"]["basis"]
    return np.array(b, dtype=float) if isinstance(b, list) else np.array([[b, 0.0], [0.0, 1.0]])


def reciprocal(sc):
    """Columns: reciprocal vectors."""
    return 2 * math.pi * np.linalg.inv(basis_of(sc))


def kin(sc):
    """In-plane incident wavevector (the angle is inside the incidence medium)."""
    wl, (th, ph, _) = sc["exc"]["wl"], sc["exc"]["ang"]
    n0 = math.sqrt(cplx(sc["layers"][0]["eps"]).real)
    k = 2 * math.pi / wl * n0 * math.sin(math.radians(th))
    return np.array([k * math.cos(math.radians(ph)), k * math.sin(math.radians(ph))])


def kpar(sc, h):
    """(2, nh) in-plane wavevectors of the harmonics h (nh, 2)."""
    K = reciprocal(sc)
    if not isinstance(sc["lattice"]["basis"], list):
        K = K.copy()
        K[:, 1] = 0
    return kin(sc)[:, None] + K @ np.asarray(h, dtype=float).T


def gammas(sc, h):
    """Normal wavenumbers of the orders in the two outer media."""
    k0 = 2 * math.pi / sc["exc"]["wl"]
    k = kpar(sc, h)
    k2 = k[0] ** 2 + k[1] ** 2
    out = []
    for L in (sc["layers"][0], sc["layers"][-1]):
        g = np.sqrt(cplx(L["eps"]) * k0**2 - k2 + 0j)
        out.append(np.where(g.imag < 0, -g, g))
    return out
