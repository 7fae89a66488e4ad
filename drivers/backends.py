"""The same scenes in a session of backend and precision selections."""
import numpy as np
from rt import *
import nannos as nn

U = 10**6


def ints(*xs):
    out = []
    for x in xs:
        for v in np.ravel(to_np(x)):
            out += [fx(v.real, U), fx(v.imag, U)] if np.iscomplexobj(v) else [fx(v, U)]
    return out


def solve(scene):
    sim = sim_of(nn, scene)
    R, T = sim.diffraction_efficiencies()
    H = [[int(v) for v in h] for h in to_np(sim.harmonics).T]
    o = sorted(range(len(H)), key=lambda k: H[k])
    p = [k for k, L in enumerate(scene["layers"]) if isinstance(L["eps"], dict)]
    p = p[0] if p else 1
    Ro, To = (to_np(v)[o] for v in sim.diffraction_efficiencies(orders=True))
    Rc, Tc = (to_np(v)[..., o] for v in sim.diffraction_efficiencies(orders=True, complex=True))
    z = 0.3 * scene["layers"][p]["d"]
    F = np.concatenate([to_np(sim.get_field_fourier(k, zz))[..., o].astype(complex) for k, zz in ((0, 0), (p, z), (len(scene["layers"]) - 1, 0.1))])
    G = np.array([to_np(g)[:, ::3, ::4] for g in sim.get_field_grid(p, z=z)]).astype(complex)
    S = [to_np(v).real for k in (0, p) for v in sim.get_z_stress_tensor_integral(k)]
    E = np.ravel(to_np(sim.get_epsilon(p)))[::5].astype(complex)
    return dict(harm=[H[k] for k in o], total=ints(R, T), orders=ints(Ro, To), coefs=ints(Rc, Tc), fourier=ints(F), grid=ints(G), stress=ints(S), eps=ints(E))


def session(it):
    rows = []
    bits, sel = 64, "numpy"
    for k, v in it["ops"]:
        row = dict(ev=k, err="", bits=bits, selected=sel, backend="")
        try:
            if k == "backend":
                sel = v
                nn.set_backend(v)
            elif k == "bits":
                bits = v
                nn.use_32_bit(v == 32)
            else:
                row.update(scene=v, backend=nn.get_backend(), **solve(it["scenes"][v]))
        except Exception as e:
            row["err"] = f"{type(e).__name__}: {e}"[:200]
        rows.append(row)
    return rows


def run(payload):
    return session(payload)


if __name__ == "__main__":
    main(run)
