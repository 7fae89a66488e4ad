"""C28: pictures show the structure."""
import vp
from scenes import BASES


def realize(r, it, kinds):
    one = r.random() < 0.3
    s = round(r.uniform(0.5, 2), 3)
    n, m = r.choice([(4, 4), (5, 3), (3, 6), (6, 4)])
    m = 1 if one else m
    B = r.choice(BASES)
    it["lattice"] = dict(basis=s if one else [[round(s * v, 6) for v in u] for u in B], disc=n if one else [n, m])
    layers = []
    for kind, d in kinds:
        L = dict(d=d, eps=1000, grid=[], im=0)
        if kind == "plain":
            L["eps"] = r.choice([2250, 1500, 12000, -4000, 1001])
        elif kind in ("pattern", "holes"):
            vals = r.sample([1500, 2250, 4000, 12000, -3000], r.randint(2, 3))
            if kind == "holes":
                vals[0] = 1000
            L["grid"] = [[r.choice(vals) for _ in range(m)] for _ in range(n)]
            L["grid"][0][0], L["grid"][-1][-1] = vals[:2]
        if kind != "air" and r.random() < 0.3:
            L["im"] = 1
        layers.append(L)
    it["layers"] = layers
    return it


def run(chk):
    r = vp.rng("C28")
    res = chk.add_tlc(vp.tlc("MCPlot", workers=6, consts={} if not vp.THOROUGH else dict(MaxPeriods=3)))
    scenes = res.tagged("SCENE")
    scenes.sort(key=str)
    items = []
    for k in range(320 if not vp.THOROUGH else 4000):
        h = r.choice(scenes)
        it = dict(what="structure", nper=h["nper"], dz=h["dz"], null=h["null"], styled=int(k % 3 == 0), solved=k % 4 == 0,
                  backend=("numpy", "torch", "autograd", "jax", "scipy")[k % 5 if k < 60 else 0])
        items.append(realize(r, it, [(L["kind"], L["d"]) for L in h["layers"]]))
    for k in range(160 if not vp.THOROUGH else 2000):
        it = dict(what="layer", nper=[r.randint(1, 3), r.randint(1, 3)], show=k % 2, comp=r.choice(["re", "im"]), plain=k % 3 == 0,
                  backend=("numpy", "torch", "jax")[k % 3 if k < 30 else 0])
        while True:
            realize(r, it, [("pattern", 1)])
            if isinstance(it["lattice"]["basis"], list):
                break
        it["layers"][0]["im"] = 1
        items.append(it)
    out = chk.driver("pictures.py", dict(items=items), timeout=600)
    if out is None:
        return
    rows, owner = [], []
    for it, o in zip(items, out):
        rr = o if isinstance(o, list) else [dict(ev="layer", err=o["error"], offsets=[], shown=[], placed=1, cell=[], nper=[1, 1], show=0, grid=[])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(rows[0])
    P = 4
    cut = [j * len(rows) // P for j in range(P + 1)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "PlotTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
