"""Replays histories of the specification Sim: layers, copies, simulations, changes, resets, queries."""
import numpy as np
from rt import *
import nannos as nn

EXT = {"eff": {}, "ord": dict(orders=True), "dict": dict(orders=True, return_dict=True),
       "cpl": dict(orders=True, complex=True), "cplsum": dict(complex=True)}


def flat(x):
    if isinstance(x, dict):
        out = []
        for k in sorted(x):
            out += [float(k)] + flat(x[k])
        return out
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return list(np.asarray(to_np(x), dtype=complex).ravel())


def ask(sim, q, a, b, v=0):
    """The answer of a simulation; v varies depths, components and grids slightly."""
    i = a - 1
    dz, shape, comp = [(0.0, (12, 12), "z"), (3e-4, (9, 14), "x"), (0.017, (12, 12), "z")][v]
    if q in EXT:
        return flat(sim.diffraction_efficiencies(**EXT[q]))
    if q == "S":
        return flat(sim.get_S_matrix())
    if q == "range":
        return flat(sim.get_S_matrix(indices=(a - 1, b - 1)))
    if q == "four":
        d = float(sim.layers[i].thickness or 0)
        return flat(sim.get_field_fourier(i, z=[0.0, 0.4 * d + dz]))
    if q == "grid":
        return flat(sim.get_field_grid(i, z=0.1 + dz, shape=(shape[0], 1 if sim.lattice.is_1D else shape[1])))
    if q == "comp":
        return flat(sim.get_Efield_grid(i, z=0.05 + dz, component=comp))
    if q == "stress":
        return flat(sim.get_z_stress_tensor_integral(i, z=0.03 + dz))
    if q == "eps":
        return flat(sim.get_epsilon(i))
    if q == "solve":
        sim.solve()
        return [1.0]
    if q == "look":
        l, k = sim.get_layer(sim.layers[i].name)
        return [float(k), float(l is sim.layers[i])]
    if q == "oidx":
        return [float(sim.get_order_index((0, 0))), float(sim.nh)]
    raise ValueError(q)


def same(x, y):
    x, y = np.array(x), np.array(y)
    return x.shape == y.shape and bool(np.all(np.isfinite(x))) and bool(np.max(np.abs(x - y), initial=0) <= 1e-8 * (1 + np.max(np.abs(y), initial=0)))


_FRESH = {}
_SCENES = None


class World:
    def __init__(self, k):
        self.k, self.sc = k, _SCENES[k]
        self.lattice = lattice_of(nn, self.sc["lattice"])
        self.eps = {o: [eps_value(e) for e in v] for o, v in self.sc["eps"].items()}
        self.obj, self.root, self.sims, self.stacks = {}, {}, {}, {}
        for o in self.sc["eps"]:
            self.obj[int(o)] = self.layer(f"o{o}", int(o), 0, 0)
            self.root[int(o)] = int(o)

    def value(self, root, e):
        v = self.eps[str(root)][e]
        return v.copy() if hasattr(v, "copy") else v

    def thick(self, root, d):
        return self.sc["d"][str(root)][d]

    def layer(self, name, root, e, d):
        return self.lattice.Layer(name, thickness=self.thick(root, d), epsilon=self.value(root, e))

    def simulation(self, s, layers):
        p = self.sc["sims"][s]
        pw = nn.PlaneWave(wavelength=p["wl"], angles=tuple(p["ang"]))
        return nn.Simulation(layers, pw, nh=p["nh"], formulation=p.get("form", "original"))

    def versions(self, s):
        """Decode what the layers of a simulation currently hold."""
        out = []
        for o, l in zip(self.stacks[s], self.sims[s].layers):
            r = self.root[o]
            e = [k for k, v in enumerate(self.eps[str(r)]) if np.shape(v) == np.shape(to_np(l.epsilon)) and np.array_equal(np.asarray(v, dtype=complex), to_np(l.epsilon))]
            d = [k for k, v in enumerate(self.sc["d"][str(r)]) if v == l.thickness]
            out.append((e[0] if e else -1, d[0] if d else -1))
        return tuple(out)

    def fresh(self, s, vec, q, a, b, v):
        roots = tuple(self.root[o] for o in self.stacks[s])
        v = v if q in ("four", "grid", "comp", "stress") else 0
        key = (self.k, s, roots, vec, q, a, b, v)
        if key not in _FRESH:
            lat = self.lattice
            self.lattice = lattice_of(nn, self.sc["lattice"])
            try:
                layers = [self.layer(f"f{i}", r, e, d) for i, (r, (e, d)) in enumerate(zip(roots, vec))]
                _FRESH[key] = ask(self.simulation(s, layers), q, a, b, v)
            finally:
                self.lattice = lat
        return _FRESH[key]


def history(item):
    w = World(item["scene"])
    ev = [dict(ev="begin")]
    seen = {}
    nq = 0
    for op in item["ops"]:
        name = op[0]
        e = dict(ev=name, args=op[1:], err="", match=[])
        ev.append(e)
        try:
            if name == "copy":
                o, c, eps = op[1:]
                had = [k for k, v in enumerate(w.eps[str(w.root[o])]) if np.array_equal(np.asarray(v, dtype=complex), to_np(w.obj[o].epsilon))]
                w.obj[c] = w.obj[o].copy() if item.get("noname") and c == 11 else w.obj[o].copy(f"c{c}")
                w.root[c] = w.root[o]
                if had != [eps]:
                    w.obj[c].epsilon = nn.array(w.value(w.root[c], eps), dtype=nn.get_types()[1]) if False else np.array(w.value(w.root[c], eps), dtype=complex)
            elif name == "build":
                s, st = op[1:]
                w.stacks[s] = st
                w.sims[s] = w.simulation(s, [w.obj[o] for o in st])
            elif name == "setd":
                w.obj[op[1]].thickness = w.thick(w.root[op[1]], op[2])
            elif name == "sete":
                w.obj[op[1]].epsilon = np.array(w.value(w.root[op[1]], op[2]), dtype=complex)
            elif name == "reset":
                w.sims[op[1]].reset(op[2])
            elif name == "spoil":
                p = w.sc["sims"]["A"]
                bad = w.lattice.Layer("bad", thickness=0.1, epsilon=np.diag([2.0, 3.0, 4.0]))
                stack = [w.obj[1], w.obj[op[1]], bad, w.obj[3]] if op[1] != 3 else [w.obj[1], w.obj[3], bad, w.obj[4]]
                pw = nn.PlaneWave(wavelength=1.13 * p["wl"], angles=(p["ang"][0] / 2 + 5, p["ang"][1], 60))
                try:
                    nn.Simulation(stack, pw, nh=p["nh"], formulation=p.get("form", "original")).diffraction_efficiencies()
                except NotImplementedError:  # in-plane anisotropy of uniform layers
                    pass
            elif name == "query":
                s, q, a, b = op[1:]
                v_ = nq % 3
                nq += 1
                got = ask(w.sims[s], q, a, b, v_)
                vec = w.versions(s)
                cands = [vec] + [v for v in seen.get(s, []) if v != vec]
                for k, v in enumerate(cands[:4]):
                    if same(got, w.fresh(s, v, q, a, b, v_)):
                        e["match"].append([list(x) for x in v])
                        if k == 0:
                            break
            for s in w.sims:
                v = w.versions(s)
                if v not in seen.setdefault(s, []):
                    seen[s].append(v)
        except CaseTimeout:
            e["err"] = "no answer in time"
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
    return ev


def run(payload):
    global _SCENES
    _SCENES = payload["scenes"]
    return pmap(history, payload["items"])


if __name__ == "__main__":
    main(run)
