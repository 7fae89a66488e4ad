"""C27: stress integrals are the momentum carried by the field."""
import vp
from scenes import pattern, rand_scene, tensor_pattern


def lines(r, n, m):
    g = pattern(r, n, 1)["grid"]
    return dict(grid=[row * m for row in g])


def realize(r, sc, kinds):
    n, m = sc["lattice"]["disc"]
    mid = []
    for j, k in enumerate(kinds):
        if k == "plain":
            e = round(r.uniform(1, 6), 3)
        elif k == "lines":
            e = lines(r, n, m)
        elif k == "pattern":
            e = tensor_pattern(r, n, m) if r.random() < 0.5 and not (m == 1 and sc["form"] == "tangent") else pattern(r, n, m)
        elif r.random() < 0.5:
            e = pattern(r, n, m, loss=r.choice([0.05, 0.8, 3]))
        else:
            e = [round(r.uniform(1, 4) * r.choice([1, 1, -1]), 3), round(r.uniform(0.02, 1.5), 3)]
        mid.append(dict(name=f"l{j}", d=round(r.uniform(0.02, 0.35) * sc["exc"]["wl"], 4), eps=e))
    sc["layers"] = [sc["layers"][0]] + mid + [sc["layers"][-1]]


def run(chk):
    r = vp.rng("C27")
    res = chk.add_tlc(vp.tlc("MCMomentum", workers=4))
    chk.add_tlc(vp.tlc("MCMomentum", workers=6, consts=dict(Quanta=2, MaxLayers=1 if not vp.THOROUGH else 2)))
    kinds = sorted({tuple(k) for k in res.tagged("KINDS")}) + [tuple(r.choice(["plain", "lines", "pattern", "absorbing"]) for _ in range(r.choice([3, 4]))) for _ in range(60)]
    items = []
    for k in range(600 if not vp.THOROUGH else 9000):
        kd = kinds[k % len(kinds)]
        od = r.random() < 0.3
        sc = rand_scene(r, layers=(1, 1), lossy_sub=k % 5 == 0, forms=("original",) * 3 + ("tangent", "pol", "jones"), scale=(0.25, 2.2),
                        nh2=(5, 9, 13, 19), nh1=(3, 5, 9, 15), disc=(24, 1) if od else (14, 14) if k % 3 else (15, 11), one_d=od)
        realize(r, sc, kd)
        items.append(dict(scene=sc, kinds=list(kd), seed=k, first=k % 3 == 0))
    out = chk.driver("momentum.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], p=[[0], [0]], nt=[0], nb=[0], zero=1, R=[0], T=[0])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(rows[:4])
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "MomentumTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
