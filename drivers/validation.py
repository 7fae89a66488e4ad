"""Valid and invalid calls on the same objects."""
import os
import numpy as np
from rt import *
import nannos as nn

BACKEND = os.environ.get("VALIDATION_BACKEND", "numpy")
if BACKEND != "numpy":
    nn.set_backend(BACKEND)
import matplotlib  # noqa
matplotlib.use("agg")
import matplotlib.pyplot as plt  # noqa

PW = dict(wavelength=1.1, angles=(20, 30, 40))


def lattice(s, period=None, disc=None, harm=True, **kw):
    period = period or 1.3
    d = disc or s["disc"]
    if harm:
        kw["harmonics_array"] = np.array(s["H"]).T
    if s["dim"] == 1:
        return nn.Lattice(period, discretization=d[0], **kw)
    return nn.Lattice(((period, 0), (0.2, 1.1)), discretization=tuple(d), **kw)


def pattern(lat, k=0):
    n, m = lat.discretization
    x, y = np.meshgrid(np.arange(n) / n, np.arange(m) / m, indexing="ij")
    return 3 + np.cos(2 * np.pi * (x + (y if m > 1 else 0)) + k) + 0.1j


def tensor_pattern(lat):
    p = pattern(lat)
    z = 0 * p
    return np.array([[p, 0.1 * p, z], [0.1 * p, p + 1, z], [z, z, p]])


def stack(lat, names=("top", "a", "b", "c", "bottom"), other=None, lats=None, **kw):
    lats = lats or [lat] * 5
    d = (0, 0.2, 0.3, 0.15, 0)
    eps = (1, pattern(lat), 2.5, pattern(lat, 1), 1.5 + 0.1j)
    return [l.Layer(n, thickness=t, epsilon=e, **(kw if isinstance(e, np.ndarray) else {})) for l, n, t, e in zip(lats, names, d, eps)]


def answers(sim):
    R, T = sim.diffraction_efficiencies(orders=True)
    return [np.array(to_np(v)) for v in (R, T, sim.get_field_fourier("a", 0.05), sim.get_field_fourier(2, 0.05))]


def same(a, b):
    return all(x.shape == y.shape and np.allclose(x, y, atol=1e-9) for x, y in zip(a, b))


class Session:
    def __init__(self, s):
        self.s = s
        self.ref = answers(nn.Simulation(stack(lattice(s)), nn.PlaneWave(**PW)))
        self.lat = lattice(s)
        self.layers = stack(self.lat)
        self.sim = nn.Simulation(self.layers, nn.PlaneWave(**PW))
        self.solved = False

    def usable(self, again):
        if not same(answers(self.sim), self.ref):
            return False
        if again:
            other = nn.Simulation(self.layers, nn.PlaneWave(**PW))
            return same(answers(other), self.ref) and same(answers(self.sim), self.ref)
        return True

    def call(self, c):
        return getattr(self, c[0].replace(" ", "_"))(*c[1:])

    def lattice(self, trunc):
        lattice(self.s, harm=False, truncation=None if trunc == "none" else trunc)
        return True

    def harmonics(self, n):
        G, k = lattice(self.s, harm=False).get_harmonics(dict(integer=5, whole=5.0, fraction=4.5)[n])
        return G.shape[1] == k

    def shape(self, m):
        a = dict(polygon=([(0.1, 0.1), (0.6, 0.2), (0.3, 0.9)],), circle=((0.5, 0.5), 0.3), ellipse=((0.5, 0.5), (0.3, 0.2)), square=((0.5, 0.5), 0.4),
                 rectangle=((0.5, 0.5), (0.4, 0.2)), stripe=(0.5, 0.4))[m]
        return tuple(getattr(self.lat, m)(*a).shape) == tuple(self.lat.discretization)

    def layer(self, d, mu):
        d = dict(zero=0, positive=0.4, none=None, negative=-0.5)[d] if d != "barely negative" else -1e-12
        if mu in ("tensor", "pattern"):
            mu = np.eye(3) * 1.5 if mu == "tensor" else pattern(self.lat)
        else:
            mu = {"one": 1, "one float": 1.0, "one complex": 1 + 0j, "two": 2, "lossy": 1 + 0.1j, "zero": 0}[mu]
        return self.lat.Layer("new", thickness=d, mu=mu, epsilon=2).name == "new"

    def simulation(self, names, lats, form, n, m):
        own = lats == "same" and names == "distinct" and [n, m] == list(self.s["disc"])
        lat = self.lat if own else lattice(self.s, disc=(n, m))
        kind, at = ("same", None) if lats == "same" else lats.split()
        ls = [lat] * 5
        if at is not None:
            more = dict(other=dict(period=1.7), equal={}, grid=dict(disc=(n + 2, m + 2)), harmonics=dict(s=dict(self.s, H=self.s["H"][:-1])))[kind]
            ls[dict(first=0, inner=2, last=4)[at]] = lattice(**dict(dict(s=self.s, disc=(n, m)), **more))
        nm = {"adjacent twins": ("top", "a", "a", "c", "bottom"), "far twins": ("top", "a", "b", "c", "top")}.get(names, ("top", "a", "b", "c", "bottom"))
        layers = self.layers if own else stack(lat, nm, lats=ls)
        if names == "same layer twice":
            layers[3] = layers[1]
        sim = nn.Simulation(layers, nn.PlaneWave(**PW), formulation=None if form == "none" else form)
        return sim.nh == len(self.s["H"])

    def identify(self, method, id):
        if id == "stranger":
            v = self.lat.Layer("stranger", 0.1, epsilon=2)
        elif id == "namesake":
            v = self.lat.Layer("b", 0.1, epsilon=2)
        elif id == "object":
            v = self.layers[3]
        else:
            v = {"index0": 0, "index1": 1, "last": 4, "minus1": -1, "minusn": -5, "name first": "top", "name inner": "b", "name last": "bottom",
                 "unknown": "nothing", "empty": "", "beyond": 5, "before": -6, "float": 1.0, "none": None, "list": [1], "true": True, "numpy int": np.int64(1), "case": "TOP"}[id]
        want = {"index0": 0, "index1": 1, "last": 4, "minus1": 4, "minusn": 0, "name first": 0, "name inner": 2, "name last": 4, "object": 3, "namesake": 2}.get(id)
        a = getattr(self.sim, method)(v)
        if want is None:
            return True
        L = self.layers[want]
        if method == "get_layer":
            return a[0] is L and a[1] == want
        if method in ("get_layer_by_name", "build_matrix"):
            return a is L
        b = getattr(self.sim, method)(want)
        return all(np.allclose(to_np(x), to_np(y)) for x, y in zip(a, b)) if isinstance(a, tuple) else np.allclose(to_np(a), to_np(b))

    def field(self, method, field, comp):
        f = None if field == "none" else field
        k = dict(component=None if comp == "none" else comp)
        if method == "get_field_grid":
            a = self.sim.get_field_grid("a", z=0.05, field=f, **k)
        else:
            a = getattr(self.sim, method)("a", z=0.05, **k)
            f = method[4]
        n = tuple(self.lat.discretization) + (1,)
        shape = (3,) + n if comp == "all" else n
        return all(tuple(x.shape) == shape for x in (a if f == "all" else [a]))

    def order(self, o):
        v = {"pair": (1, 0), "list": [1, 0], "negative pair": (-1, 0), "integer": 1, "absent integer": 50, "absent pair": (1, 1), "far pair": (50, -50), "triple": (1, 0, 0), "single": (1,),
             "empty": (), "none": None, "float": 1.0, "text": "ab", "half pair": (0.5, 0), "array": np.array([1, 0])}[o]
        k = self.sim.get_order_index(v)
        h = [int(x) for x in to_np(self.sim.harmonics)[:, k]]
        R = self.sim.diffraction_efficiencies(orders=True)[0]
        return h == {"negative pair": [-1, 0], "absent pair": [1, 1]}.get(o, [1, 0]) and float(self.sim.get_order(R, v)) == float(R[k])

    def tangent(self, kind, form):
        layers = stack(lattice(self.s), tangent_field_type=None if kind == "none" else kind)
        R, T = nn.Simulation(layers, nn.PlaneWave(**PW), formulation=form).diffraction_efficiencies()
        return 0 < float(R) + float(T) < 1.2

    def uniform_tensor(self, how):
        lat = lattice(self.s)
        layers = stack(lat)
        layers[2] = lat.Layer("b", 0.3, epsilon=np.diag([2.0, 3, 4]) + 0.1)
        if how == "copied":
            layers[3] = layers[2].copy("c")
        nn.Simulation(layers, nn.PlaneWave(**PW)).diffraction_efficiencies()
        return True

    def anisotropic(self, form):
        lat = lattice(self.s)
        layers = stack(lat)
        layers[3] = lat.Layer("c", 0.15, epsilon=tensor_pattern(lat))
        R, T = nn.Simulation(layers, nn.PlaneWave(**PW), formulation=form).diffraction_efficiencies()
        return 0 < float(R) + float(T) < 1.2

    def plot(self, comp, nper):
        n = {"integer": 2, "pair": (1, 2), "list": [2, 1], "float": 1.5, "triple": (1, 1, 1), "none": None}[nper]
        try:
            self.layers[1].plot(comp=None if comp == "none" else comp, nper=n)
        finally:
            plt.close("all")
        return True

    def backend(self, name):
        nn.set_backend(None if name == "none" else name)
        return True

    def gradient(self):
        nn.grad(lambda x: x)(1.0)
        return True


def one(it):
    rows = []
    S = Session(it["s"])
    for k, c in enumerate(it["calls"]):
        row = dict(s=it["s"], c=c, out=[], right=True, usable=True, msg="")
        try:
            row["right"] = bool(S.call(c))
        except Exception as e:
            row["out"] = [t.__name__ for t in type(e).__mro__][:-2]
            row["msg"] = f"{type(e).__name__}: {e}"[:160]
        try:
            row["usable"] = bool(S.usable(it["again"][k]))
        except Exception as e:
            row["usable"] = False
            row["msg"] += f" / afterwards {type(e).__name__}: {e}"[:160]
        rows.append(row)
    return rows


def run(payload):
    return pmap(one, payload["items"], procs=payload.get("procs"))


if __name__ == "__main__":
    main(run)
