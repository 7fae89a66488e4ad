"""C13: fields satisfy Maxwell's interface conditions."""
import math
import vp
from scenes import rand_scene, safe_lattice


def run(chk):
    r = vp.rng("C13")
    if vp.THOROUGH:
        runs = [lambda: vp.tlc("MCWalk", workers=8, consts=dict(MaxLayers=4, Lim=150), timeout=800, heap="8g")]
    else:
        runs = [lambda: vp.tlc("MCWalk", workers=4, consts=dict(MaxLayers=2)),
                lambda: vp.tlc("MCWalk", consts=dict(MaxLayers=6), args=["-simulate", "num=150", "-depth", "7", "-seed", str(vp.SEED)])]
    cases = []
    for res in vp.parallel(*runs):
        chk.add_tlc(res)
        cases += sorted(res.tagged("CASE"), key=str)
    r.shuffle(cases)
    cases = [c for c in cases if len(c["stack"]) <= 2][:300] + [c for c in cases if len(c["stack"]) > 2][:250 if not vp.THOROUGH else 8000]
    items = []
    for c in cases:
        kx, q0 = c["kap"][0] / c["kap"][1], r.choice([1, 2, 0.75, 1.5])
        wl, phi = r.choice([1.0, 0.6328, 1.55]), r.choice([0, 90, 180, 30, 137.5, -60])
        grids = [r.random() < 0.3 for _ in c["stack"]]
        eps = [kx**2 + q0**2, kx**2 + (complex(c["sub"][0], c["sub"][1]) / c["sub"][2]) ** 2] + [kx**2 + (L["q"][0] / L["q"][1]) ** 2 for L in c["stack"]]
        items.append(dict(c, q0=q0, wl=wl, phi=phi, grids=grids, nh=5 if any(grids) else 1, dtop=r.choice([0, 0.3]), dbot=r.choice([0, 0.25]),
                          lattice=safe_lattice(r, wl, kx, phi, eps, one_d=r.random() < 0.3)))
    n = len(items)
    for k in range(150 if not vp.THOROUGH else 2500):
        sc = rand_scene(r, layers=(1, 4), loss=k % 3 == 0, aniso=k % 2 == 0, lossy_sub=k % 4 == 0, forms=("original",) * 4 + ("tangent", "pol", "jones"), scale=(0.4, 1.8))
        items.append(dict(scene=sc, seed=k))
    out = chk.driver("walk.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for k, (it, o) in enumerate(zip(items, out)):
        starts.append(len(rows))
        if k < n:
            rr = [dict(ev="medium", kap=it["kap"], sub=it["sub"], pol=it["pol"])] + [dict(ev="layer", q=L["q"], m=L["m"]) for L in it["stack"]]
            rr += o if isinstance(o, list) else [dict(ev="measure", err=o["error"])]
        else:
            rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(items[0])
    chk.sample(items[-1])
    P = 6
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]

    def desc(row, it):
        row = dict(row)
        if "want" in row:
            bad = [(k, a, b) for k, (a, b) in enumerate(zip(row["f"], row["want"])) if abs(a - b) > 20]
            row = dict(ev=row["ev"], layer=row["layer"], worst=bad[:4], of=len(row["f"]))
        elif "f" in row:
            row["f"] = row["f"][:8]
        return dict(event=row, case=it)
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "WalkTrace", rows[a:b], describe=lambda row, x: desc(row, owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
