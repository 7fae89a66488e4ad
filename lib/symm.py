"""Structures for the checks of descriptions of one structure (C19, C20)."""
import math

import vp
from scenes import BASES, grazing_margin, pattern, tensor_pattern


def hists(res):
    """One behaviour of each group of siblings of a simulation."""
    out = {}
    for h in res.tagged("HIST"):
        out.setdefault(str(h[:-1]), []).append(h)
    return [v for _, v in sorted(out.items())]


def gen(sizes, kinds, steps, num, entry=2, area=6, seed=0):
    t = open(vp.SPEC + "/SymmetryGen.cfg").read()
    t = t.replace("genSizes", sizes).replace("SymKinds", kinds).replace("MaxSteps = 4", f"MaxSteps = {steps}").replace(
        "MaxEntry = 2", f"MaxEntry = {entry}").replace("MaxArea = 6", f"MaxArea = {area}")
    return vp.tlc("MCSymmetry", cfg_text=t, args=["-simulate", f"num={num}", "-depth", str(steps + 2), "-seed", str(vp.SEED + seed)])


def structure(r, n, *, one=False, lift=False, nh=(5, 9, 13), harm=None, aniso=0.25, loss=0.3, refine=1):
    """A random structure on the grid n: basis rows, layers, excitation, away from grazing orders."""
    for _ in range(500):
        wl = round(r.uniform(0.4, 1.6), 3)
        e0, e1 = round(r.uniform(1, 3), 3), round(r.uniform(1, 6), 3)
        if r.random() < 0.2:
            e1 = [e1, round(r.uniform(0.1, 1), 3)]
        th = 0 if r.random() < 0.2 else round(r.uniform(-70, 75), 1)
        ph, ps = r.choice([0, 90, 30, round(r.uniform(-180, 180), 1)]), r.choice([0, 90, round(r.uniform(-90, 180), 1)])
        media = [e0, complex(*e1) if isinstance(e1, list) else e1]
        L = []
        for j in range(r.randint(1, 2)):
            d, k = round(r.uniform(0.03, 0.5) * wl, 4), r.random()
            if k < 0.2:
                if r.random() < 0.5:
                    e = round(r.uniform(1, 6), 3)
                    media.append(e)
                else:  # a constant tensor
                    v = [round(r.uniform(1.5, 4), 3) for _ in range(3)]
                    xy, g = round(r.uniform(-0.5, 0.5), 3), round(r.uniform(-0.5, 0.5), 3)
                    f = lambda x, y=0: [[[q] * n[1] for _ in range(n[0])] for q in (x, y)]
                    e = dict(tgrid=[[f(v[0]), f(xy, g), f(0)], [f(xy, -g), f(v[1]), f(0)], [f(0), f(0), f(v[2])]])
            elif k < 0.2 + aniso:
                e = tensor_pattern(r, *n)
            else:
                e = pattern(r, *n, loss=0.6 if r.random() < loss else 0)
            L.append(dict(name=f"l{j}", d=d, eps=e))
        s = wl * r.uniform(0.4, 1.6)
        basis = [[s, 0.0], [0.0, round(r.uniform(0.5, 1.5), 3) * s]] if one or lift else [[round(s * v, 6) for v in u] for u in r.choice(BASES)]
        kx = math.sqrt(e0) * math.sin(math.radians(th))
        # the cells of the other descriptions are larger: no order of theirs may be at grazing incidence either
        f = [[v / refine for v in u] for u in basis] if refine > 1 else basis
        if grazing_margin(basis, wl, kx, ph, media, one_d=one or lift) < 0.02 or min(abs(e - kx * kx) for e in media) < 0.02:
            continue
        return dict(basis=basis, exc=dict(wl=wl, ang=[th, ph, ps]), nh=r.choice(nh), harm=harm, one=one, lift=lift,
                    layers=[dict(name="top", d=r.choice([0, 0.2]), eps=e0)] + L + [dict(name="bottom", d=0, eps=e1)])
    raise RuntimeError("no structure")


def formulate(r, st, n, turned_only=False):
    """Another formulation, with tangent fields of the user where the structure has two periods."""
    if st["one"] or st["lift"]:
        st["form"] = "tangent"
        for L in st["layers"] if st["lift"] else []:
            if isinstance(L["eps"], dict):  # along the grooves, when described with two periods
                L["field"] = [[0.0] * n[0], [round(r.choice([-1, 1]) * r.uniform(0.2, 1), 4) for _ in range(n[0])]]
        return st
    st["form"] = r.choice(["tangent", "pol"] + ["jones"] * turned_only)
    for L in st["layers"]:
        if isinstance(L["eps"], dict):
            a = [r.uniform(0, 2 * math.pi) for _ in range(n[0] * n[1])]
            q = [r.uniform(0.2, 1) for _ in a]
            L["field"] = [[round(x * f(v), 4) for v, x in zip(a, q)] for f in (math.cos, math.sin)]
    return st


def inside(O, h, one=False):
    """Is h the image by O of a harmonic (of the form (i, 0))?"""
    det = O[0][0] * O[1][1] - O[0][1] * O[1][0]
    i, j = O[1][1] * h[0] - O[0][1] * h[1], -O[1][0] * h[0] + O[0][0] * h[1]
    return i % det == 0 and j % det == 0 and (not one or j == 0)


def grazing(st, d, harm, margin=0.02):
    """Distance to grazing of the given orders of a description (lattice O B)."""
    O, B = d["O"], st["basis"]
    b = [[O[k][0] * B[0][c] + O[k][1] * B[1][c] for c in (0, 1)] for k in (0, 1)]
    (a, bb), (c, dd) = b
    det = a * dd - bb * c
    wl, (th, ph, _) = st["exc"]["wl"], st["exc"]["ang"]
    e0 = st["layers"][0]["eps"]
    k = math.sqrt(e0) * math.sin(math.radians(th))
    cx, cy = k * math.cos(math.radians(ph)), k * math.sin(math.radians(ph))
    med = [L["eps"] for L in st["layers"] if not isinstance(L["eps"], dict)]
    med = [complex(*e) if isinstance(e, list) else e for e in med]
    best = 9
    for i, j in harm:
        px, py = cx + wl * (i * dd - j * bb) / det, cy + wl * (-i * c + j * a) / det
        best = min(best, min(abs(e - px * px - py * py) for e in med))
    return best


def judge(chk, items, timeout=600):
    out = chk.driver("symmetry.py", dict(items=items), timeout=timeout)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="structure", err=o["error"], obs=[], sum=[0, 0], explicit=False, **it["hist"][0])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(dict(hist=items[0]["hist"]))
    P = 5
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "SymmetryTrace", rows[a:b], describe=lambda row, x: dict(event=row, scene=owner[a + x["line"] - 1]["scene"]))
                  for a, b in zip(cut, cut[1:])], n=P)
