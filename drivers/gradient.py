"""Gradients of scenes with respect to all their parameters, against differences of the values."""
import warnings
import numpy as np
from rt import *
import nannos as nn
from nannos import optimize as no

U6 = 10**6


def parameters(sc):
    """Groups of parameters: name -> (offset, size) in one vector, and the vector."""
    groups, x = {}, []

    def put(name, v):
        v = np.ravel(np.array(v, dtype=float))
        groups[name] = (len(x), len(v))
        x.extend(v)
    put("wavelength", sc["exc"]["wl"])
    for k, L in enumerate(sc["layers"]):
        e, outer = L["eps"], k in (0, len(sc["layers"]) - 1)
        if not outer:
            put(f"thickness {k}", L["d"])
        if isinstance(e, dict) and "grid" in e:
            put(f"pattern {k}", e["grid"])
            if "im" in e:
                put(f"losses {k}", e["im"])
        elif isinstance(e, dict):
            put(f"tensor {k}", [[v for v in row] for row in e["tgrid"]])
        else:
            c = cplx(e)
            put(f"permittivity {k}", c.real)
            if c.imag:
                put(f"loss {k}", c.imag)
    return groups, np.array(x)


def objective(sc, groups, kind, direct=None, base=None):
    """The objective as a function of all parameters, or of those of one group (direct) only."""
    bk = nn.backend
    n, m = sc["lattice"]["disc"]

    def f(x):
        def get(name):
            a, s = groups[name]
            return x if name == direct else (base if direct else x)[a:a + s]
        lat = lattice_of(nn, sc["lattice"])
        layers = []
        for k, L in enumerate(sc["layers"]):
            e = L["eps"]
            d = get(f"thickness {k}")[0] if f"thickness {k}" in groups else L["d"]
            if f"pattern {k}" in groups:
                eps = get(f"pattern {k}").reshape(n, m)
                if sc.get("through") == "density" and f"losses {k}" not in groups:
                    rho = (eps - 0.5) / 6.5
                    rho = no.project(no.apply_filter(rho, sc["radius"]), sc["beta"]) if min(n, m) > 1 else no.project(rho, sc["beta"])
                    eps = no.simp(rho, 1.2, 6.0, sc["p"])
                if f"losses {k}" in groups:
                    eps = eps + 1j * get(f"losses {k}").reshape(n, m)
            elif f"tensor {k}" in groups:
                t = get(f"tensor {k}").reshape(3, 3, 2, n, m)
                eps = t[:, :, 0] + 1j * t[:, :, 1]
            else:
                eps = get(f"permittivity {k}")[0]
                if f"loss {k}" in groups:
                    eps = eps + 1j * get(f"loss {k}")[0]
            layers.append(lat.Layer(L["name"], thickness=d, epsilon=eps))
        sim = nn.Simulation(layers, nn.PlaneWave(wavelength=get("wavelength")[0], angles=tuple(sc["exc"]["ang"])), nh=sc["nh"], formulation=sc["form"])
        if kind in ("R", "T", "R+T"):
            R, T = sim.diffraction_efficiencies()
            return R if kind == "R" else T if kind == "T" else R + T
        Ri, Ti = sim.diffraction_efficiencies(orders=True)
        H = [tuple(h) for h in to_np(sim.harmonics).T]  # whose order may depend on the backend
        o = sorted(range(len(H)), key=lambda k: H[k])
        w, z = o[sc["which"] % len(o)], o[len(o) // 2]
        if kind == "order":
            return Ti[w]
        if kind == "index":
            return sim.get_order(Ri, (0, 0))
        if kind == "mix":
            return Ri[z] * Ti[z] + 0.3 * Ri[w] ** 2
        if kind == "orders of R":
            return bk.sum(Ri)
        c = sim.diffraction_efficiencies(orders=True, complex=True)[0]
        if kind == "coefficients":
            return bk.abs(c[0][z]) ** 2 + 0.5 * bk.abs(c[1][w]) ** 2
        if kind == "field":
            return bk.abs(sim.get_field_fourier(1, z=0.1 * sc["exc"]["wl"])[0, 0, 1, 0]) ** 2
        if kind == "grid":
            return bk.abs(sim.get_field_grid(1, z=0.1 * sc["exc"]["wl"])[0][0, n // 2, m // 3]) ** 2
        if kind == "stress":
            return bk.real(sim.get_z_stress_tensor_integral(1)[2])
    return f


def array(x):
    return nn.backend.array(x, dtype=nn.backend.float64)


def gradient(f, x):
    g = nn.grad(f)(array(x))
    return to_np(g)


def measure(case):
    sc, kind = case["scene"], case["kind"]
    warnings.simplefilter("ignore")
    groups, x0 = parameters(sc)
    f = objective(sc, groups, kind)
    row = dict(err="", scene=case["id"], kind=kind)
    g = gradient(f, x0)
    row["real"] = not np.iscomplexobj(g)
    row["finite"] = bool(np.all(np.isfinite(g)))
    g = g.real
    rng = np.random.default_rng(case["seed"])
    names = list(groups)
    pick = names if len(names) < 5 else [names[0]] + [names[k] for k in rng.choice(range(1, len(names)), 4, replace=False)]
    steps = []
    for name in pick + ["all"]:
        a, s = groups.get(name, (0, len(x0)))
        D = np.zeros(len(x0))
        D[a:a + s] = rng.uniform(0.3, 1, s) * rng.choice([-1, 1], s)
        if name in ("all",) or name.startswith(("pattern", "tensor")):
            D /= np.linalg.norm(D)
        for h in (1e-3, 2e-4, 5e-5):
            v = [float(to_np(f(array(x0 + k * h * D))).real.sum()) for k in (-2, -1, 1, 2)]
            d1, d2, gd = v[2] - v[1], v[3] - v[0], 12 * h * float(g @ D)
            unit = max([u for u in (10**8, 10**9, 10**10, 10**11, 10**12) if max(abs(d1), abs(d2)) * u < 2e8] + [10**8])
            steps.append(dict(group=name, d1=fx(d1, unit), d2=fx(d2, unit), g=fx(gd, unit)))
    row["steps"] = steps
    one = [k for k in names if k.startswith(("pattern", "thickness", "permittivity"))]
    one = one[case["seed"] % len(one)]
    a, s = groups[one]
    g1 = gradient(objective(sc, groups, kind, one, array(x0)), x0[a:a + s])
    row["real"] = row["real"] and not np.iscomplexobj(g1)
    row["alone"] = fx(np.abs(g1 - g[a:a + s]).max(), U6)
    row["null"] = row["scale"] = row["sum"] = 0
    if case["lossless"]:
        n0 = gradient(objective(sc, groups, "R+T"), x0).real
        for name, (a, n) in groups.items():
            if not name.startswith("tensor"):  # whose entries have to stay conjugate of each other
                row["null"] = max(row["null"], fx(np.abs(n0[a:a + n]).max(), U6))
    s = x0[0] * g[0]
    for name, (a, n) in groups.items():
        if name.split()[0] in ("pattern", "losses", "tensor", "permittivity", "loss"):
            s = s + 2 * float(x0[a:a + n] @ g[a:a + n])
    if case["scaling"]:
        row["scale"] = fx(s, U6)
    if kind == "R":
        row["sum"] = fx(np.abs(gradient(objective(sc, groups, "orders of R"), x0).real - g).max(), U6)
    row["sample"] = [fx(v, U6) for v in np.concatenate([g[:6], g[6::7]])]
    return row


def thickness(case):
    """Derivative of the reflectance of a planar stack with the phase thickness of a layer."""
    import planar
    L = case["stack"][case["sel"]]
    q = L["q"][0] / L["q"][1]
    out = []
    for k in (0, 1):
        g = gradient(lambda d: planar.build(case, case["sel"], d)[1].diffraction_efficiencies()[k], L["m"] * case["wl"] / (8 * q))
        out.append(float(np.ravel(g)[0]) * case["wl"] / (2 * np.pi * q))
    return dict(grad=fx(out[0], U6), gradT=fx(out[1], U6))


def run(payload):
    nn.set_backend(payload["backend"])
    if payload["backend"] == "torch":
        import torch
        torch.set_num_threads(1)
    return [pmap(measure, payload["items"], limit=200), pmap(thickness, payload["planar"])]


if __name__ == "__main__":
    main(run)
