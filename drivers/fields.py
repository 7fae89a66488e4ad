"""Field accessors of all kinds on one simulation, against the amplitudes of fresh ones."""
import numpy as np
from rt import *
import nannos as nn

S = 10**6


def z2(v):
    return [fx(v.real, S), fx(v.imag, S)]


def nest(a):
    a = np.asarray(a)
    return z2(complex(a)) if a.ndim == 0 else [nest(x) for x in a]


def table(F):
    """fields array (nz, 2, 3, nh) -> [{"E": .., "H": ..}]"""
    return [{"E": nest(F[k, 0]), "H": nest(F[k, 1])} for k in range(F.shape[0])]


def ident(sim, j, how):
    return {"index": j, "negative": j - len(sim.layers), "name": sim.layers[j].name, "object": sim.layers[j]}[how]


def depth(zs, how):
    return zs[0] if how == "scalar" else list(zs) if how == "list" else np.array(zs)


def get_grid(sim, lid, z, shape, fld, comp, alias):
    comp = {0: "all", 1: "x", 2: "y", 3: "z"}[comp]
    if fld != "all" and alias:
        f = sim.get_Efield_grid if fld == "E" else sim.get_Hfield_grid
        out = f(lid, z=z, shape=shape, component=comp)
    else:
        out = sim.get_field_grid(lid, z=z, shape=shape, field=fld, component=comp)
    out = [to_np(x) for x in out] if fld == "all" else [to_np(out)]
    return [o if comp == "all" else o[None] for o in out]


def one(item):
    sc, j = item["scene"], item["layer"]
    zs = item["zs"]
    t = dict(ev="table", err="", u=[], hs=[])
    out = [t]
    try:
        F = []
        for z in zs:
            s = sim_of(nn, sc)
            F.append(to_np(s.get_field_fourier(j, z)))
        F = np.concatenate(F)
        h = np.array(to_np(s.harmonics)).T.astype(int)
        t["u"], t["hs"] = table(F), [[int(a), int(b)] for a, b in h]
    except Exception as e:
        t["err"] = f"{type(e).__name__}: {e}"[:200]
        return out
    sim = sim_of(nn, sc)
    size = max(1.0, float(np.max(np.abs(F))))
    for n, rq in enumerate(item["asks"]):
        grid = rq["grid"]
        g = [abs(v) for v in grid]
        exact = grid == [0, 0] or rq.get("exact")
        e = dict(ev="ask" if exact else "plain", req=rq, err="", val=[])
        out.append(e)
        try:
            z = depth([zs[k - 1] for k in rq["zs"]], rq["zhow"])
            lid = ident(sim, j, rq["id"])
            if grid == [0, 0]:
                e["val"] = table(to_np(sim.get_field_fourier(lid, z)))
                continue
            ans = get_grid(sim, lid, z, None if rq.get("default") else tuple(g), rq["fld"], rq["comp"], n % 2)
            if exact:
                e["val"] = [nest(a) for a in ans]
            else:
                flds = [0, 1] if rq["fld"] == "all" else [0 if rq["fld"] == "E" else 1]
                comps = [0, 1, 2] if rq["comp"] == 0 else [rq["comp"] - 1]
                ks = [k - 1 for k in rq["zs"]]
                x, y = np.arange(g[0]) / g[0], np.arange(g[1]) / g[1]
                ph = np.exp(2j * np.pi * (h[:, 0, None, None] * x[None, :, None] + h[:, 1, None, None] * y[None, None, :]))
                e["shape"] = [list(a.shape) for a in ans]
                e["want"] = [[len(comps), g[0], g[1], len(ks)] for _ in flds]
                off = 0.0
                if e["shape"] == e["want"]:
                    for a, f in zip(ans, flds):
                        ref = np.einsum("kcn,nxy->cxyk", F[ks][:, f][:, comps], ph)
                        off = max(off, float(np.max(np.abs(a - ref))) / size)
                e["off"] = fx(off, S)
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
    return out


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
