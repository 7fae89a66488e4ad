"""Masks of shapes on lattices."""
import math
import os
import numpy as np
from rt import *
import nannos as nn

BACKEND = os.environ.get("RASTER_BACKEND", "numpy")


def one(item):
    s, u, N, f = item["s"], item["u"], item["N"], item["unit"]
    row = dict(ev="mask", err="", mask=[], grid=[], **{k: item[k] for k in ("s", "u", "N")})
    try:
        if BACKEND != "numpy":
            nn.set_backend(BACKEND)
        v = lambda a: tuple(float(x) * f for x in a)
        if item.get("one"):
            lat = nn.Lattice(u[0][0] * f, discretization=N[0])
        else:
            lat = nn.Lattice((v(u[0]), v(u[1])), discretization=tuple(N))
        deg = math.degrees(math.atan2(s["rot"][1], s["rot"][0]))
        k = s["kind"]
        if k == "polygon":
            m = lat.polygon([v(p) for p in s["rings"][0]])
        elif k == "region":
            import shapely.geometry as sg
            out = None
            for ring in s["rings"]:
                p = sg.Polygon([v(q) for q in ring])
                out = p if out is None else out.symmetric_difference(p)
            m = lat.geometry_mask(out)
        elif k == "rectangle":
            m = lat.rectangle(v(s["c"]), v(s["w"]), rotate=deg)
        elif k == "square":
            m = lat.square(v(s["c"]), s["w"][0] * f, rotate=deg)
        elif k == "circle":
            m = lat.circle(v(s["c"]), s["w"][0] * f)
        elif k == "ellipse":
            m = lat.ellipse(v(s["c"]), v(s["w"]), rotate=deg)
        else:
            m = lat.stripe(s["c"][0] * f, s["w"][0] * f)
        m = to_np(m)
        if m.ndim == 1:
            m = m[:, None]
        g, D = to_np(lat.grid), max(N[0] - 1, 1) * max(N[1] - 1, 1)
        row["grid"] = [[a + 1, b + 1, fx(g[0][a][b] * D / f, 1000), fx(g[1][a][b] * D / f, 1000) if not item.get("one") else 0]
                       for a, b in {(0, 0), (N[0] - 1, 0), (0, N[1] - 1), (N[0] // 2, N[1] // 3), (N[0] - 1, N[1] - 1)}]
        row["mask"] = [[int(bool(b)) for b in r] for r in m]
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return row


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"))


if __name__ == "__main__":
    main(run)
