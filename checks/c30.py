"""C30: answers follow the incident wave, not the angles that describe it."""
import vp
from scenes import grazing_margin, rand_scene
import math

ALPHA = math.degrees(math.atan2(3, 4))


def pick(r, res):
    """One of the siblings the simulator shows at the end of each behaviour."""
    out = {}
    for h in res.tagged("HIST"):
        out.setdefault(str([h["base"], h["log"][:-1]]), []).append(h)
    return [r.choice(v) for _, v in sorted(out.items())]


def run(chk):
    r = vp.rng("C30")
    big = vp.THOROUGH
    a, b, c = vp.parallel(
        lambda: vp.tlc("MCIncidence", workers=4, consts=dict(MaxSteps=2 if not big else 3)),
        lambda: vp.tlc("MCIncidence", "IncidenceGen.cfg", args=["-simulate", f"num={220 if not big else 4000}", "-depth", "8", "-seed", str(vp.SEED)]),
        lambda: vp.tlc("MCIncidence", "IncidenceGen.cfg", consts=dict(MaxN=1, MaxSteps=4), args=["-simulate", f"num={60 if not big else 800}", "-depth", "6", "-seed", str(vp.SEED + 1)]))
    for x in (a, b, c):
        chk.add_tlc(x)
    items = []
    for k, h in enumerate(pick(r, b) + pick(r, c)):
        th = ALPHA * h["base"]["th"][1]
        ph = 90 * h["base"]["ph"][0] + ALPHA * h["base"]["ph"][1]
        for _ in range(200):
            sc = rand_scene(r, aniso=True, loss=k % 3 == 0, forms=("original", "original", "tangent", "pol", "jones"), disc=(12, 11), layers=(1, 3),
                            lossy_sub=k % 4 == 0, nh2=(5, 9), nh1=(3, 5, 7))
            e0 = sc["layers"][0]["eps"]
            med = [e if not isinstance(e, list) else complex(*e) for e in (L["eps"] for L in sc["layers"]) if not isinstance(e, dict)]
            kx, bs = math.sqrt(e0) * math.sin(math.radians(th)), sc["lattice"]["basis"]
            od = not isinstance(bs, list)
            if grazing_margin(bs if not od else [[bs, 0.0], [0.0, 1.0]], sc["exc"]["wl"], kx, ph, med, one_d=od) > 0.02 and min(abs(e - kx * kx) for e in med) > 0.02:
                break
        items.append(dict(scene=sc, hist=h, seed=k))
    out = chk.driver("incidence.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], lp=[0], ls=[0], lm=[0], qp=[0], qs=[0], qm=[0])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(dict(hist=items[0]["hist"]))
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "IncidenceTrace", rows[a:b], describe=lambda row, x: dict(at=row.get("at"), err=row["err"], case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
