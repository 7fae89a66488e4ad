"""Diffraction orders asked in all forms and orders of asking."""
import numpy as np
from rt import *
import nannos as nn
from scene_math import gammas


def vec(a):
    return [[fx(v.real), fx(v.imag)] for v in np.asarray(a, dtype=complex).ravel()]


def table(sc):
    t = dict(ev="table", err="", list=[], R=[], T=[], Rc=[], Tc=[], propR=[], propT=[], clear=0)
    try:
        a, b = sim_of(nn, sc), sim_of(nn, sc)
        R, T = (to_np(x) for x in a.diffraction_efficiencies(orders=True))
        Rc, Tc = (to_np(x) for x in b.diffraction_efficiencies(orders=True, complex=True))
        h = np.array(to_np(a.harmonics)).T.astype(int)
        g0, g1 = gammas(sc, h)
        lossy = isinstance(sc["layers"][-1]["eps"], list)
        t.update(list=[[int(i), int(j)] for i, j in h], R=[fx(v) for v in R], T=[fx(v) for v in T],
                 Rc=[vec(Rc[:, n]) for n in range(Rc.shape[1])], Tc=[vec(Tc[:, n]) for n in range(Tc.shape[1])], clear=int(not lossy),
                 propR=[int(abs(g.imag) < 1e-9) for g in g0], propT=[int(lossy or abs(g.imag) < 1e-9) for g in g1])
    except Exception as e:
        t["err"] = f"{type(e).__name__}: {e}"[:200]
    return t


def plain(a, cpl, total):
    """JSON form of an array answer; its kind."""
    a = to_np(a)
    if cpl:
        return (vec(a), "total") if a.ndim == 1 and total else ([vec(a[:, n]) for n in range(a.shape[1])], "orders") if a.ndim == 2 else ([], f"array of shape {a.shape}")
    return (fx(a), "total") if a.ndim == 0 else ([fx(v) for v in a], "orders")


def one(item):
    sc = item["scene"]
    out = [table(sc)]
    if out[0]["err"]:
        return out
    sim = sim_of(nn, sc)
    rnd = np.random.default_rng(item["seed"])
    for form in item["asks"]:
        e = dict(ev="ask", form=form, err="", kind="", R=[], T=[])
        out.append(e)
        looks = []
        try:
            ans = sim.diffraction_efficiencies(orders=form["orders"], complex=form["complex"], return_dict=form["dict"])
            for s, a in zip("RT", ans):
                if isinstance(a, dict):
                    e[s], e["kind"] = [[[int(i), int(j)], vec(v) if form["complex"] else fx(v)] for i, row in a.items() for j, v in row.items()], "dict"
                else:
                    e[s], e["kind"] = plain(a, form["complex"], not form["orders"])
                    if form["orders"]:
                        for h in rnd.permutation(out[0]["list"])[:2]:
                            h = [int(v) for v in h]
                            k = h[0] if sim.lattice.is_1D and rnd.integers(2) else tuple(h) if rnd.integers(2) else list(h)
                            l = dict(ev="look", err="", side=s, order=h, complex=form["complex"], val=0)
                            looks.append(l)
                            try:
                                l["val"] = vec([to_np(sim.get_order(a[c], k)) for c in range(3)]) if form["complex"] else fx(sim.get_order(a, k))
                            except Exception as x:
                                l["err"] = f"{type(x).__name__}: {x}"[:200]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        out += looks
    return out


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
