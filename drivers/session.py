"""Replays a session of backend / precision / device / log-level selections in this process."""
import logging
import math
import sys
from rt import *

import nannos as nn

REF = 49 / 529  # s wave, kap = 3/5, q = 4/5 on q = 3/2 below a half-wave layer q = 2, which is absent (HalfWaveOK of Planar)


def lib(x):
    m = type(x).__module__.split(".")[0]
    return {"jaxlib": "jax", "builtins": "numpy"}.get(m, m)


def dt(x):
    return str(x.dtype).replace("torch.", "")


def name(t):
    return str(getattr(t, "__name__", t)).replace("torch.", "")


def probe():
    lat = nn.Lattice(((0.7, 0.1), (0.0, 0.9)), discretization=(9, 9))
    ones = lat.ones()
    wl = 1.3
    pw = nn.PlaneWave(wavelength=wl, angles=(math.degrees(math.asin(0.6)), 30, 90))
    top = lat.Layer("top")
    mid = lat.Layer("mid", thickness=wl / 8, epsilon=ones * 4.36)
    uni = lat.Layer("uni", thickness=wl / 8, epsilon=4.36)
    bot = lat.Layer("bot", epsilon=0.36 + 2.25)
    sim = nn.Simulation([top, mid, uni, bot], pw, nh=5)
    R, T = sim.diffraction_efficiencies()
    F = sim.get_field_fourier("bot")
    objs = [ones, pw.wavevector, pw.amplitude, top.epsilon, mid.epsilon]
    # only the library of results is fixed: single precision data may be computed in double precision
    libs = [lib(o) for o in objs + [R, T, F, sim.get_S_matrix()[0][0], lat.grid, lat.circle((0.3, 0.3), 0.2)]]
    return libs, [dt(o) for o in objs], max(abs(float(R) - REF), abs(float(T) - (1 - REF)))


def differentiates():
    try:
        x = nn.array([1.0, 2.0])
        g = nn.grad(lambda y: (y**2).sum())(x)
        return int(abs(float(g[1]) - 4) < 1e-6)
    except NotImplementedError:
        return 0


def run(payload):
    out = []
    first = True
    logging.raiseExceptions = False
    for op in [["import", ""]] + payload["ops"]:
        rej = False
        e = dict(op=op, probe=0, err="", libs=[], dtypes=[], off=0, grad=0)
        try:
            if op[0] == "backend":
                nn.set_backend(op[1])
            elif op[0] == "use32":
                nn.use_32_bit(op[1])
            elif op[0] == "gpu":
                nn.use_gpu(op[1])
            elif op[0] == "log":
                nn.set_log_level(op[1])
        except (ValueError, KeyError):
            rej = True
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
            e["probe"] = 1
        e.update(rejected=rej, backend=nn.get_backend(), device=nn.get_device(), types=[name(t) for t in nn.get_types()],
                 level=logging.getLevelName(nn.logger.getEffectiveLevel()), handlers=len(nn.logger.handlers))
        if not e["err"] and op[0] in ("import", "backend", "use32", "gpu"):
            e["probe"] = 1
            try:
                e["libs"], e["dtypes"], off = probe()
                e["off"] = fx(off, 10**12)
                e["grad"] = differentiates()
            except Exception as x:
                e["err"] = f"{type(x).__name__}: {x}"[:200]
        out.append(e)
    return out


if __name__ == "__main__":
    main(run)
