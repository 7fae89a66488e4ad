"""Stacks with layers of any thickness: powers, logarithms, fields."""
import math
import numpy as np
from rt import *
import nannos as nn
from scene_math import cplx, kpar

S8 = 10**8
NIL = -10**6
L10 = math.log(10)


def dec(x):
    x = float(x)
    return NIL if x < 1e-300 else int(round(1000 * math.log10(x))) if math.isfinite(x) else 10**6


def norm(f):
    m = float(np.abs(f).max())
    return m * float(np.sqrt(np.sum(np.abs(f / m) ** 2))) if math.isfinite(m) and m > 1e-300 else m


def powers(sim):
    R, T = sim.diffraction_efficiencies(orders=True)
    R, T = np.ravel(to_np(R)), np.ravel(to_np(T))
    return dict(err="", R=[fx(v, S8) for v in R], T=[fx(v, S8) for v in T], logT=dec(np.sum(T)))


def waves(sc, eps):
    """Decay rates of the harmonics in a uniform layer (slowest first, distinct)."""
    h = np.array(to_np(sim_of(nn, sc).harmonics)).T.astype(int)
    k0 = 2 * math.pi / sc["exc"]["wl"]
    k2 = np.sum(kpar(sc, h) ** 2, axis=0)
    q = np.sqrt(cplx(eps) * k0**2 - k2 + 0j)
    q = np.where(q.imag < 0, -q, q)
    im = np.sort(np.abs(q.imag))
    keep = [im[0]]
    for v in im[1:]:
        if v > keep[-1] * (1 + 1e-9) + 1e-12:
            keep.append(v)
    return keep, q, k0


def gap(sc, L):
    w, _, _ = waves(sc, L["eps"])
    return math.inf if len(w) == 1 else w[1] / w[0] - 1


def build(sc, stack):
    """Thicknesses of the attenuating layers from their exponents."""
    for L, a in zip(sc["layers"][1:-1], stack):
        if a and not isinstance(L["eps"], dict):
            w, _, k0 = waves(sc, L["eps"])
            if w[0] < 0.02 * k0:
                return False
            L["d"] = a * L10 / w[0]
    return True


def row(ev, sc, **kw):
    try:
        return dict(ev=ev, **powers(sim_of(nn, sc)), **kw)
    except CaseTimeout:
        raise
    except Exception as e:
        return dict(ev=ev, err=f"{type(e).__name__}: {e}"[:200], R=[], T=[], logT=0, **kw)


def change(sc, j, **kw):
    L = [dict(x) for x in sc["layers"]]
    L[j].update(kw)
    return dict(sc, layers=L)


def one(it):
    if nn.get_backend() != it["backend"]:
        nn.set_backend(it["backend"])
    sc, stack = it["scene"], it["stack"]
    if not build(sc, stack):
        return []
    rnd = np.random.default_rng(it["seed"])
    rows = [row("begin", sc, stack=stack, lossless=it["lossless"], bound=it["bound"])]
    murky = any(a and isinstance(L["eps"], dict) for L, a in zip(sc["layers"][1:-1], stack))
    for j, a in enumerate(stack):
        L = sc["layers"][j + 1]
        if not a:
            continue
        uni = not isinstance(L["eps"], dict)
        if uni:
            by = [1, 4, 25, 200][int(rnd.integers(4))]
            alone = int(not murky and a * 2 * gap(sc, L) > 6)
            rows.append(row("deeper", change(sc, j + 1, d=L["d"] * (a + by) / a), j=j + 1, by=by, alone=alone, bound=it["bound"]))
        below = [dict(x) for x in sc["layers"][j + 2:]]
        for x in below:
            if isinstance(x["eps"], dict):
                g = {k: np.roll(np.array(v), 1, axis=-2).tolist() if k in ("grid", "im") else v for k, v in x["eps"].items()}
                x["eps"] = g
            x["d"] = x["d"] * 0.7 + 0.05
        below[-1]["eps"] = it["other"]
        o = row("hidden", dict(sc, layers=sc["layers"][:j + 2] + (below[-1:] if rnd.random() < 0.3 else below)), j=j + 1)
        rows.append({k: v for k, v in o.items() if k not in ("T", "logT")})
        at = [0, 2, 4, 5, 6, 7, 9, 10]
        try:
            sim = sim_of(nn, sc)
            if rnd.random() < 0.5:
                sim.solve()
            F = to_np(sim.get_field_fourier(j + 1, [L["d"] * z / 10 for z in at]))
            lg = [dec(norm(f[0])) for f in F]
            rows.append(dict(ev="fields", err="", j=j + 1, at=at, log=lg, alone=int(uni and not murky and a >= 9 and 0.4 * a * gap(sc, L) > 4)))
        except CaseTimeout:
            raise
        except Exception as e:
            rows.append(dict(ev="fields", err=f"{type(e).__name__}: {e}"[:200], j=j + 1, at=at, log=[], alone=0))
    # nearly nothing
    k = int(rnd.integers(1, len(sc["layers"])))
    L = [dict(x) for x in sc["layers"]]
    L.insert(k, dict(name="film", d=1e-10 * sc["exc"]["wl"], eps=it["film"]))
    rows.append(row("nothing", dict(sc, layers=L), what="a film of nearly no thickness", tol=30))
    # a film grows from nothing: powers change smoothly
    if it["seed"] % 4 == 0:
        step = [2e-6, 2e-5, 2e-4, 6e-4, 6e-4, 2e-3][int(rnd.integers(6))]
        tab, err = [], ""
        for n in range(19):
            L[k]["d"] = n * step * sc["exc"]["wl"] / (2 * math.pi)
            r = row("nothing", dict(sc, layers=L))
            err = err or r["err"]
            tab.append(r["R"] + r["T"])
        big = max(abs(cplx(it["film"])), *[float(np.max(np.abs(eps_value(x["eps"])))) for x in L])
        rows.append(dict(ev="ladder", err=err, tab=tab, slack=min(5 * 10**7, 20 + int(10 * S8 * (step * big) ** 2))))
    # whole turns
    for j, a in enumerate(stack):
        L = sc["layers"][j + 1]
        if a or isinstance(L["eps"], dict) or cplx(L["eps"]).imag:
            continue
        _, q, k0 = waves(sc, L["eps"])
        re = sorted({round(v, 9) for v in np.abs(q[np.abs(q.imag) < 1e-9].real)})
        ev = [v for v in q.imag if abs(v) > 1e-9]
        if len(re) != 1 or re[0] < 0.1 * k0:
            continue
        qq = float(np.abs(q[np.abs(q.imag) < 1e-9].real)[0])
        d0 = (12 * L10 / min(ev) if ev else 0) + L["d"]
        if d0 > 200 * sc["exc"]["wl"]:
            continue
        base = row("begin", change(sc, j + 1, d=d0), stack=[0] * len(stack), lossless=0, bound=0)
        turn = row("nothing", change(sc, j + 1, d=d0 + int(rnd.choice([1, 7, 100, 1000])) * 2 * math.pi / qq), what="whole turns of a uniform layer", tol=50, j=j+1, q=qq, d0=d0)
        # the same layer with whole turns: powers alone
        base["logT"], turn["logT"] = 0, 0
        rows += [base, turn]
    return rows


def run(payload):
    return pmap(one, payload["items"], chunksize=8)


if __name__ == "__main__":
    main(run)
