"""C07: energy is conserved."""
import vp
from scenes import rand_scene, pattern


def realize(r, sc, kinds):
    """Give the layers of the scene the absorbing / lossless kinds of the behaviour."""
    n, m = sc["lattice"]["disc"]
    for L, lossy in zip(sc["layers"][1:-1], kinds):
        e = L["eps"]
        if lossy:
            if isinstance(e, dict) and "tgrid" in e:
                L["eps"] = pattern(r, n, m, loss=r.choice([0.05, 0.8, 3]))
            elif isinstance(e, dict):
                e["im"] = [[round(r.choice([0, 1]) * r.uniform(0, 1.5), 3) for _ in range(m)] for _ in range(n)]
                e["im"][0][0] = 0.3
            else:
                L["eps"] = [e * r.choice([1, 1, -1]), round(r.uniform(0.02, 1.5), 3)]
            L["d"] = min(L["d"], 0.35 * sc["exc"]["wl"])


def run(chk):
    r = vp.rng("C07")
    res = chk.add_tlc(vp.tlc("MCFlow", workers=4, consts=dict(Unit=2) if not vp.THOROUGH else dict(Unit=5, MaxLayers=5)))
    kinds = sorted({tuple(k) for k in res.tagged("KINDS")})
    kinds = [k for k in kinds if k]
    items = []
    for k in range(420 if not vp.THOROUGH else 8000):
        kd = kinds[k % len(kinds)] if k % 2 else (False,) * r.randint(1, 5)
        od = r.random() < 0.3
        sc = rand_scene(r, layers=(len(kd), len(kd)), aniso=r.random() < 0.6, lossy_sub=k % 5 == 0, forms=("original",), scale=(0.25, 2.2), nh2=(5, 9, 13, 19, 25), nh1=(3, 5, 9, 15, 21),
                        
                        disc=(24, 1) if od else (14, 14) if k % 3 else (15, 11), one_d=od)
        realize(r, sc, kd)
        sc["seed"], sc["first"], sc["orders"] = k, k % 3 == 0, k % 4 == 1
        items.append(sc)
    out = chk.driver("flow.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], R=0, T=0)]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(rows[:6])
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "FlowTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
