"""C23: scattering matrices of ranges of layers compose."""
import vp
from scenes import safe_lattice, rand_scene, is_lossless


def run(chk):
    r = vp.rng("C23")
    if vp.THOROUGH:
        runs = [lambda: vp.tlc("MCSMatrix", workers=8), lambda: vp.tlc("MCSMatrix", consts=dict(MaxLen=7), args=["-simulate", "num=3000", "-depth", "8", "-seed", str(vp.SEED)])]
    else:
        runs = [lambda: vp.tlc("MCSMatrix", consts=dict(MaxLen=3), workers=4),
                lambda: vp.tlc("MCSMatrix", consts=dict(MaxLen=6), args=["-simulate", "num=150", "-depth", "7", "-seed", str(vp.SEED)])]
    cases = []
    for res in vp.parallel(*runs):
        chk.add_tlc(res)
        cases += sorted(res.tagged("CASE"), key=str)
    # the incidence medium carries the wave
    cases = [c for c in cases if c["stack"][0]["q"][1] == 0]
    r.shuffle(cases)
    cases = [c for c in cases if len(c["stack"]) <= 3][:350] + [c for c in cases if len(c["stack"]) > 3][:250 if not vp.THOROUGH else 6000]
    items = []
    for c in cases:
        n = len(c["stack"])
        rg = [(a, b) for a in range(1, n + 1) for b in range(a, n + 1)]
        r.shuffle(rg)
        kx = c["kap"][0] / c["kap"][1]
        wl, phi = r.choice([1.0, 0.6328, 1.55]), r.choice([0, 90, 180, 30, 137.5, -60])
        eps = [kx**2 + (complex(L["q"][0], L["q"][1]) / L["q"][2]) ** 2 for L in c["stack"]]
        items.append(dict(kap=c["kap"], stack=c["stack"], wl=wl, phi=phi, ranges=rg, lattice=safe_lattice(r, wl, kx, phi, eps, one_d=r.random() < 0.3)))
    scenes = []
    for k in range(110 if not vp.THOROUGH else 1500):
        sc = rand_scene(r, layers=(1, 4), loss=k % 3 == 0, aniso=True, lossy_sub=k % 4 == 0, forms=("original",) * 4 + ("tangent", "pol", "jones"))
        sc["lossless"] = int(is_lossless(sc) and sc["form"] == "original")
        sc["seed"] = k
        scenes.append(sc)
    out = chk.driver("smatrix.py", dict(cases=items + scenes), timeout=800)
    if out is None:
        return
    rows, owner = [], []
    for it, o in zip(items, out):
        rr = [dict(ev="begin", kap=it["kap"])] + [dict(ev="layer", q=L["q"], m=L["m"]) for L in it["stack"]]
        for k, (a, b) in enumerate(it["ranges"]):
            rr.append(dict(ev="range", a=a, b=b, **(o[k] if isinstance(o, list) else dict(err=o["error"], S={}))))
        rows += rr
        owner += [it] * len(rr)
    for sc, o in zip(scenes, out[len(items):]):
        rr = o if isinstance(o, list) else [dict(ev="cut", err=o["error"], off=0, size=0)]
        rows += rr
        owner += [sc] * len(rr)
    chk.traces(len(items) + len(scenes))
    chk.sample(items[0])
    chk.sample(dict(scenes[0], layers=[L["name"] for L in scenes[0]["layers"]]))
    vp.validate(chk, "SMatrixTrace", rows, describe=lambda row, b: dict(event=row, scene=owner[b["line"] - 1]))
