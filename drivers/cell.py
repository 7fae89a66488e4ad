"""What lattices answer about their cell."""
import math
import numpy as np
from rt import *
import nannos as nn

S5 = 10**5


def ints(x):
    x = np.real(to_np(x))
    if x.ndim == 0:
        return fx(x, S5)
    return [ints(v) for v in x]


def one(it):
    # lattices of one session: nothing is reloaded in between
    if nn.get_backend() != it["backend"]:
        nn.set_backend(it["backend"])
    if (nn.get_types()[0] in (np.float32, getattr(nn.backend, "float32", None))) != (it["bits"] == 32):
        nn.use_32_bit(it["bits"] == 32)
    bk = nn.backend
    B, den, n = it["b"], it["den"], it["n"]
    if it["one"]:
        lat = nn.Lattice(B[0][0] / den, discretization=n[0] if it["k"] % 2 else (n[0], 1))
        n = [n[0], 1]
    else:
        v = [[x / den for x in u] for u in B]
        v = [v, tuple(map(tuple, v)), [tuple(u) for u in v]][it["k"] % 3]
        lat = nn.Lattice(v, discretization=n[0] if n[0] == n[1] and it["k"] % 2 else [tuple(n), list(n)][it["k"] % 2])
    pts = np.array(it["pts"]).T / 4
    dt = np.float32 if it["bits"] == 32 else np.float64
    x, y = (bk.array(q.astype(dt)) if it["backend"] != "torch" else bk.tensor(q.astype(dt)) for q in pts)
    moved = [lat.transform(bk.stack([x, y])), lat.transform([(x, y), [x, y]][it["k"] % 2])]
    c = lat.constant(2.0 - 1j)
    flat = [lat.ones(), lat.zeros(), c]
    arr = [lat.unit_grid, lat.grid, lat.matrix, lat.reciprocal, *moved, *flat]
    kind = sorted({type(a).__module__.split(".")[0].replace("jaxlib", "jax").replace("autograd", "numpy") for a in arr})
    rec = to_np(lat.reciprocal) / (2 * math.pi)
    return dict(ev="lattice", err="", b=B if not it["one"] else [[B[0][0], 0], [0, 1]], den=den, n=n, one=int(it["one"]), bits=it["bits"], area=ints(lat.area), matrix=ints(lat.matrix),
                reciprocal=ints(rec), unit=ints(lat.unit_grid), grid=ints(lat.grid), pts=it["pts"] if not it["one"] else [[p[0], 0] for p in it["pts"]],
                moved=[ints(m) if not it["one"] else [ints(m)[0], [0] * len(it["pts"])] for m in moved],
                shapes=[[int(v) for v in to_np(f).shape] for f in flat],
                flat=[np.ravel(ints(flat[0])).tolist(), np.ravel(ints(flat[1])).tolist(), np.ravel(ints(c)).tolist(), np.ravel(ints(np.imag(to_np(c)))).tolist()],
                stripe=[[int(v) for v in r] for r in to_np(lat.stripe(it["c"] / it["q"], it["w"] / it["q"]))], c=it["c"], w=it["w"], q=it["q"],
                dims=[list(map(int, lat.unit_grid.shape)), list(map(int, lat.grid.shape)), [2, *map(int, to_np(lat.stripe(0, 1)).shape)]], kind=kind, want=[{"torch": "torch", "jax": "jax"}.get(it["backend"], "numpy")])


def run(payload):
    return pmap(one, payload["items"], chunksize=40)


if __name__ == "__main__":
    main(run)
