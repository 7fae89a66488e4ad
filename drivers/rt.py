"""Helpers of the drivers: building scenes through the public API, process pool, recording."""
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import traceback

import numpy as np

SCALE = 10**7
CLIP = 10**9
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def fx(v, scale=SCALE):
    try:
        v = float(v)
    except Exception:
        return CLIP
    if not math.isfinite(v) or abs(v) * scale >= CLIP:
        return CLIP
    return int(round(v * scale))


def to_np(x):
    if hasattr(x, "detach"):
        x = x.detach()
        if hasattr(x, "resolve_conj"):
            x = x.resolve_conj()
        return x.cpu().numpy()
    return np.asarray(x)


def cplx(x):
    """[re, im] or number -> complex."""
    if isinstance(x, (list, tuple)):
        return complex(x[0], x[1])
    return complex(x)


def eps_value(e):
    """Permittivity description -> what a user passes to a layer."""
    if isinstance(e, dict):
        if "grid" in e:
            g = np.array(e["grid"], dtype=float) + 1j * np.array(e.get("im", 0), dtype=float)
            return g
        if "tensor" in e:
            return np.array([[cplx(v) for v in row] for row in e["tensor"]])
        if "tgrid" in e:  # 3x3 of grids [re, im]
            return np.array([[np.array(v[0], dtype=float) + 1j * np.array(v[1], dtype=float) for v in row] for row in e["tgrid"]])
        raise ValueError(e)
    v = cplx(e)
    return v if v.imag else v.real


def lattice_of(nn, lat):
    basis = lat["basis"]
    if isinstance(basis, list):
        basis = tuple(tuple(b) for b in basis)
    disc = lat.get("disc", [16, 16])
    kw = {}
    if lat.get("harm") is not None:
        kw["harmonics_array"] = np.array(lat["harm"])
    if lat.get("trunc"):
        kw["truncation"] = lat["trunc"]
    return nn.Lattice(basis, discretization=tuple(disc) if isinstance(disc, list) else disc, **kw)


def layer_of(nn, lattice, L):
    kw = {}
    for k in ("tangent_field", "tangent_field_type"):
        if k in L:
            kw[k] = L[k]
    return lattice.Layer(L["name"], thickness=L.get("d", 0), epsilon=eps_value(L["eps"]), **kw)


def sim_of(nn, scene):
    lattice = lattice_of(nn, scene["lattice"])
    layers = [layer_of(nn, lattice, L) for L in scene["layers"]]
    pw = nn.PlaneWave(wavelength=scene["exc"]["wl"], angles=tuple(scene["exc"]["ang"]))
    return nn.Simulation(layers, pw, nh=scene.get("nh", 1), formulation=scene.get("form", "original"))


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout("no answer in time")


_FN = None
_LIMIT = 60


def _one(item):
    if _LIMIT:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(_LIMIT)
    try:
        return _FN(item)
    except BaseException as e:  # noqa: the exception is the observation
        return {"error": f"{type(e).__name__}: {e}"[:300], "tb": traceback.format_exc()[-1200:]}
    finally:
        if _LIMIT:
            signal.alarm(0)


def pmap(fn, items, procs=None, limit=60, chunksize=None):
    """fn over items in forked workers; exceptions become {"error": ...}."""
    global _FN, _LIMIT
    _FN, _LIMIT = fn, limit
    procs = min(procs or NPROC, max(1, len(items)))
    if procs == 1:
        return [_one(i) for i in items]
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(_one, items, chunksize=chunksize or max(1, min(16, len(items) // (4 * procs) or 1)))


def main(fn):
    with open(sys.argv[1]) as fh:
        payload = json.load(fh)
    out = fn(payload)
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(out, fh)
    os.replace(tmp, sys.argv[2])
