"""The same gratings with every formulation, tangent field and lattice."""
import numpy as np
from rt import *
import nannos as nn


def tensor(e2, ez):
    """Diagonal permittivity on a grid."""
    z = np.zeros(e2[0].shape)
    return np.array([[e2[0] + z, z, z], [z, e2[1] + z, z], [z, z, ez + z]])


def solve(lat, exc, layers, nh, form):
    ls = [lat.Layer(f"l{k}", thickness=L["d"], epsilon=L["eps"], **L.get("kw", {})) for k, L in enumerate(layers)]
    return nn.Simulation(ls, nn.PlaneWave(exc["wl"], tuple(exc["ang"])), nh=nh, formulation=form)


def coefficients(sim):
    R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
    r, t = (to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True))
    k = int(sim.get_order_index((0, 0)))
    return [fx(R[k]), fx(T[k])] + [f for c in list(r[:, k]) + list(t[:, k]) for f in (fx(c.real), fx(c.imag))]


def film(it):
    """pts: permittivities and directions, drawn on a grid; the wave is polarized along axis `axis`."""
    row = dict(ev="film", pts=it["pts"], form=it["form"], axis=it["axis"], eff=it["eff"], err="", grating=[], film=[])
    try:
        n, m = it["disc"]
        order = np.array(it["order"]).reshape(n, m)
        turn = it["turn"]  # angle of the first axis
        c, s = np.cos(turn), np.sin(turn)
        f1, f2 = [np.array([p["e"][a][0] / p["e"][a][1] for p in it["pts"]])[order] for a in (0, 1)]
        kind = np.array([p["dir"] for p in it["pts"]])[order]
        sg = np.where(np.array(it["sign"]).reshape(n, m), -1.0, 1.0) if it["form"] != "jones" else 1.0
        ax = np.where(kind == 1, c, -s) * sg, np.where(kind == 1, s, c) * sg
        eps = f1 + 0j if it["iso"] else tensor((f1, f2), it["ez"])
        if m == 1:
            lat = nn.Lattice(it["period"], discretization=n)
        else:
            lat = nn.Lattice(it["period"], discretization=(n, m))
        top, bottom = it["ends"]
        mk = lambda e, kw: [dict(d=0, eps=top), dict(d=it["d"], eps=e, kw=kw), dict(d=0, eps=bottom)]
        row["grating"] = coefficients(solve(lat, it["exc"], mk(eps, dict(tangent_field=[nn.backend.array(v) for v in ax]) if m > 1 else {}), 1, it["form"]))
        row["film"] = coefficients(solve(nn.Lattice(1.0, discretization=4), it["exc"], mk(it["eff"][0] / it["eff"][2], {}), 1, "original"))
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return [row]


def describe(sc, d, r):
    n = sc["n"]
    g = np.array(d["g"], dtype=float)
    g /= np.hypot(*g)
    v = np.array([-g[1], g[0]])
    harm = np.arange(-(sc["nh"] // 2), sc["nh"] // 2 + 1)
    m = sc["m"]
    kw = dict(tangent_field_type=d["src"]) if d["src"] != "user" else {}
    if d["dim"] == 1:
        lat = nn.Lattice(sc["period"], discretization=n, harmonics_array=np.array([harm, 0 * harm]))
    else:
        b = [sc["period"] * g + 0.3 * d["skew"] * sc["across"] * v, sc["across"] * v]
        h = [harm, 0 * harm]
        if d["swap"]:
            b, h = b[::-1], h[::-1]
        lat = nn.Lattice(tuple(tuple(x) for x in b), discretization=(m, n) if d["swap"] else (n, m), harmonics_array=np.array(h))
    ones = np.ones((n, 1 if d["dim"] == 1 else m))
    layout = (lambda a: (a * ones).T) if d["swap"] else (lambda a: a * ones)
    layers, field = [], None
    for L in sc["layers"]:
        e = L["eps"]
        k = {}
        if isinstance(e, dict) and "tgrid" in e:
            T = eps_value(e)  # in the axes of the grating
            Q = np.array([[g[0], v[0], 0], [g[1], v[1], 0], [0, 0, 1]])
            T = np.einsum("ai,bj,ijxy->abxy", Q, Q, T)
            e = np.array([[layout(T[a, b]) for b in range(3)] for a in range(3)])
            k = dict(kw)
        elif isinstance(e, dict):
            e = layout(eps_value(e))
            k = dict(kw)
        else:
            e = eps_value(e)
        if k is not None and np.ndim(e) >= 2 and d["src"] == "user":
            shape = ones.T.shape if d["swap"] else ones.shape
            sg = {0: 1, 1: -1, 2: r.choice([-1.0, 1.0], size=shape)}[d["sign"]]
            ln = {0: 1, 1: 0.01, 2: r.uniform(0.05, 2, size=shape)}[d["length"]]
            k = dict(tangent_field=[nn.backend.array(v[a] * sg * ln * np.ones(shape)) for a in range(2)])
        layers.append(dict(d=L["d"], eps=e, kw=k))
    th, ph, ps = sc["exc"]["ang"]
    ang = [th, ph + np.degrees(np.arctan2(g[1], g[0])), ps]
    sim = solve(lat, dict(wl=sc["exc"]["wl"], ang=ang), layers, sc["nh"], d["form"])
    tilt, clear, typed = 0.0, True, True
    if d["dim"] == 2 and d["src"] != "user" and d["form"] != "original":
        for layer in sim.layers:
            if layer.is_uniform:
                continue
            get = lambda **q: [np.real(to_np(c)) for c in layer.get_tangent_field(sim.harmonics, **q)]
            t = get(normalize=False)
            ln = np.hypot(*t)
            seen = ln > 1e-2 * ln.max()
            clear &= bool(seen.all())
            tilt = max(tilt, np.max(np.abs(t[0] * v[1] - t[1] * v[0])[seen] / ln[seen]))
            other = "fft" if d["src"] == "opt" else "opt"
            ref = lat.Layer("twin", thickness=0.1, epsilon=layer.epsilon, tangent_field_type=other).get_tangent_field(sim.harmonics)
            typed &= all(np.allclose(a, np.real(to_np(b)), atol=1e-9) for a, b in zip(get(type=other), ref))
            typed &= all(np.array_equal(a, b) for a, b in zip(get(type=d["src"]), t))
    R, T = (to_np(x) for x in sim.diffraction_efficiencies(orders=True))
    k = [int(sim.get_order_index((0, int(i)) if d["swap"] else (int(i), 0))) for i in harm]
    return dict(obs=[fx(x) for x in list(R[k]) + list(T[k])], tilt=fx(tilt), clear=clear, typed=typed)


def grooves(it):
    sc = it["scene"]
    rows = [dict(ev="begin")]
    for j, d in enumerate(it["hist"]):
        row = dict(ev="describe", d=d, err="", obs=[], tilt=0, clear=True, typed=True, tangential=sc["tangential"])
        try:
            row.update(describe(sc, d, np.random.default_rng(it["seed"] + j)))
        except Exception as e:
            row["err"] = f"{type(e).__name__}: {e}"[:200]
        rows.append(row)
    return rows


def smooth(it):
    row = dict(ev="smooth", err="", obs=[], tol=it["tol"])
    try:
        lats = {t: lattice_of(nn, dict(it["lattice"], trunc=t)) for t in (None, "parallelogrammic")}
        lat = lats[None]
        n, m = lat.discretization
        x, y = np.meshgrid(np.arange(n) / n, np.arange(m) / m, indexing="ij")
        e = it["mean"] + sum(a * np.cos(2 * np.pi * (p * x + q * y + f)) for p, q, a, f in it["waves"])
        e = e + 1j * it["loss"] * (1 + np.cos(2 * np.pi * x))
        for f in it["forms"]:
            kw = {}
            if f[1] == "turning":
                a = 2 * np.pi * (x - y if m > 1 else x)
                kw = dict(tangent_field=[nn.backend.array(np.cos(a)), nn.backend.array(np.sin(a))])
            elif f[1]:
                kw = dict(tangent_field_type=f[1])
            top, bottom = it["ends"]
            sim = solve(lats[f[2]], it["exc"], [dict(d=0, eps=top), dict(d=it["d"], eps=e, kw=kw), dict(d=0, eps=bottom)], it["nh"], f[0])
            R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
            k = [int(sim.get_order_index(o)) for o in it["orders"]]
            row["obs"].append([fx(v) for v in list(R[k]) + list(T[k])])
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return [row]


def turned(it):
    """A pattern with computed tangent fields, turned and scaled as a whole."""
    row = dict(ev="turned", err="", obs=[])
    try:
        for a, f in it["turns"]:
            c, s = f * np.cos(np.radians(a)), f * np.sin(np.radians(a))
            lat = nn.Lattice(tuple((c * x - s * y, s * x + c * y) for x, y in it["basis"]), discretization=tuple(it["disc"]))
            th, ph, ps = it["exc"]["ang"]
            top, bottom = it["ends"]
            layers = [dict(d=0, eps=top), dict(d=it["d"] * f, eps=eps_value(it["eps"]), kw=dict(tangent_field_type=it["src"])), dict(d=0, eps=bottom)]
            sim = solve(lat, dict(wl=it["exc"]["wl"] * f, ang=[th, ph + a, ps]), layers, it["nh"], it["form"])
            R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
            k = np.lexsort(np.array(to_np(sim.harmonics)))
            row["obs"].append([fx(v) for v in list(R[k]) + list(T[k])])
    except Exception as e:
        row["err"] = f"{type(e).__name__}: {e}"[:200]
    return [row]


def one(it):
    return dict(film=film, grooves=grooves, smooth=smooth, turned=turned)[it["what"]](it)


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
