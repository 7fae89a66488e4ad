"""Pictures of structures and layers, recorded instead of shown."""
import math
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from rt import *
import nannos as nn

UNIT = 0.1  # of thickness


class Recorder:
    """Stands for a plotter: keeps the solids it is given."""

    def __init__(self):
        self.solids = []
        self.camera = type("Camera", (), dict(azimuth=0.0, elevation=0.0, roll=0.0))()

    def add_mesh(self, mesh, **kw):
        self.solids.append((mesh, dict(kw)))

    def __getattr__(self, name):
        return lambda *a, **k: None


def near(x):
    k = int(round(x))
    if abs(x - k) > 1e-3:
        raise ValueError(f"not at a grid point: {x}")
    return k


def build(it):
    lat = lattice_of(nn, it["lattice"])
    layers = []
    for j, L in enumerate(it["layers"]):
        e = np.array(L["grid"], dtype=float) / 1000 if L["grid"] else L["eps"] / 1000
        if L["im"]:
            e = e + 1j * L["im"] * (np.arange(e.size).reshape(e.shape) / e.size if L["grid"] else 1)
        e = nn.backend.array(e) if L["grid"] else e
        layers.append(lat.Layer(f"l{j}", thickness=L["d"] * UNIT, epsilon=e))
    return lat, layers


def solid(mesh, kw, B, disc, styled):
    c = np.asarray(mesh.points if mesh.n_cells == 6 and type(mesh).__name__ == "PolyData" else mesh.cell_centers().points, dtype=float)
    uv = np.linalg.solve(B.T, c[:, :2].T)
    b = mesh.bounds
    v = np.unique(np.asarray(mesh.cell_data[mesh.cell_data.keys()[0]]))
    if len(v) != 1:
        raise ValueError("several values in one solid")
    box = type(mesh).__name__ == "PolyData"
    if box:
        per = [near(uv[0].min()), near(uv[1].min())]
        if near(uv[0].max()) != per[0] + 1 or near(uv[1].max()) != per[1] + 1:
            raise ValueError("not a full period")
        pts = []
    else:
        n, m = disc
        per = [int(math.floor(uv[0].min())), int(math.floor(uv[1].min()))]
        pts = [[near((x - per[0]) * n - 0.5) + 1, near((y - per[1]) * m - 0.5) + 1] for x, y in uv.T]
    style = [0, 0]
    if styled:
        q = {kw[s] for s in ("color", "metallic", "roughness")}
        style = list(q.pop()) if len(q) == 1 else [-1, -1]
    return dict(per=per, z0=near(b[4] / UNIT), z1=near(b[5] / UNIT), val=near(v[0] * 1000), pts=pts, style=style)


def structure(it):
    row = dict(ev="structure", err="", drawn=[], **{k: it[k] for k in ("layers", "nper", "dz", "null", "styled")})
    try:
        lat, layers = build(it)
        sim = nn.Simulation(layers, nn.PlaneWave(1.0, (0, 0, 0)), nh=1)
        if it["solved"] and all(v > 0 for L in it["layers"] for v in sum(L["grid"], [L["eps"]])):
            sim.diffraction_efficiencies()
        kw = {}
        if it["styled"]:
            st = [[(j + 1, q + 1) for q in range(20)] if L["grid"] else (j + 1, 0) for j, L in enumerate(it["layers"])]
            kw = dict(layer_colors=st, layer_metallic=st, layer_roughness=st)
        rec = Recorder()
        sim.plot_structure(rec, nper=tuple(it["nper"]), dz=it["dz"] * UNIT, null_thickness=it["null"] * UNIT if it["null"] else None, **kw)
        B = np.array([[float(v) for v in r] for r in lat.basis_vectors])
        row["drawn"] = [solid(m, k, B, lat.discretization, it["styled"]) for m, k in rec.solids]
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return [row]


def layer(it):
    L = it["layers"][0]
    row = dict(ev="layer", err="", offsets=[], shown=[], placed=1, cell=[], nper=it["nper"], show=it["show"], grid=[])
    try:
        lat, layers = build(it)
        e = to_np(layers[0].epsilon)
        row["grid"] = [[fx(v, 1000) for v in r] for r in (e.imag if it["comp"] == "im" else e.real)]
        fig, ax = plt.subplots()
        nper = it["nper"][0] if it["nper"][0] == it["nper"][1] and it["plain"] else tuple(it["nper"])
        ims = layers[0].plot(nper=nper, ax=ax, comp=it["comp"], show_cell=bool(it["show"]))
        B = np.array([[float(v) for v in r] for r in lat.basis_vectors])
        fig.canvas.draw()
        x = to_np(lat.grid)
        for im in ims:
            t = im.get_transform() - ax.transData
            o = np.linalg.solve(B.T, t.transform((0.0, 0.0)))
            row["offsets"].append([near(v) for v in o])
            row["shown"].append([[fx(v, 1000) for v in r] for r in np.ma.getdata(im.get_array()).reshape(e.shape)])
            c = np.asarray(im.get_coordinates(), dtype=float)
            mid = (c[1:, 1:] + c[:-1, 1:] + c[1:, :-1] + c[:-1, :-1]) / 4
            # points inside the lattice (at the rim the quadrangles are made up)
            row["placed"] &= int(np.allclose(mid[1:-1, 1:-1], np.moveaxis(x, 0, -1)[1:-1, 1:-1], atol=1e-5))
        for ln in ax.lines:
            q = np.linalg.solve(B.T, np.array(ln.get_data(), dtype=float))
            row["cell"].append(sorted([near(q[0, k]), near(q[1, k])] for k in (0, 1)))
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    plt.close("all")
    return [row]


def one(it):
    nn.set_backend(it["backend"])
    try:
        return globals()[it["what"]](it)
    finally:
        nn.set_backend("numpy")


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
