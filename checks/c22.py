"""C22: gradients are the derivatives of the results."""
import vp
import scenes
import c08


def cases(r, kinds, n):
    items = []
    for k in range(n):  # five harmonics always have modes of equal wavenumber
        c = kinds[k % len(kinds)]
        sc = scenes.rand_scene(r, one_d=c["dim"] == 1, layers=(1, 3), forms=(c["form"],), loss=c["loss"], aniso=c["aniso"], kinds=("noise",),
                               disc=(r.choice([12, 17]), 1) if c["dim"] == 1 else r.choice([8, 9, (10, 7)]), nh1=(3, 5, 9), nh2=(9, 13), margin=0.06, generic=True)
        sc.update(through=c["through"], radius=r.choice([1.2, 2.3, 3]), beta=r.choice([0.5, 2, 6]), p=r.choice([1, 3]), which=r.randrange(9))
        lossless = scenes.is_lossless(sc) and sc["form"] == "original"
        items.append(dict(scene=sc, kind=c["objective"], id=k, seed=vp.SEED * 1000 + k, lossless=lossless,
                          scaling=c["through"] == "eps" and c["objective"] in ("R", "T", "order", "index", "mix")))
    return items


def run(chk):
    r = vp.rng("C22")
    big = vp.THOROUGH
    a, b, p = vp.parallel(lambda: vp.tlc("MCGradient", workers=2, consts=dict(MaxOps=5 if not big else 6)), lambda: vp.tlc("GradientGen"),
                          lambda: vp.tlc("MCPlanar", "MCPlanarGrad.cfg", workers=2))
    chk.add_tlc(a), chk.add_tlc(b), chk.add_tlc(p)
    kinds = sorted(b.tagged("KIND"), key=str)
    r.shuffle(kinds)
    items = cases(r, kinds, len(kinds) if not big else 12 * len(kinds))
    extra = [dict(it, id=10**6 + it["id"], kind=k, scaling=False) for it, k in zip(items[::3], ("coefficients", "field", "grid", "stress") * len(items))]
    exact = [c for c in p.tagged("CASE") if c["stack"]]
    exact.sort(key=str)
    r.shuffle(exact)
    plan = []
    for c in exact[:250 if not big else 3000]:
        plan.append(dict(c08.scenario(c, r.choice(c["inc"]), r, grid=False), sel=c["sel"] - 1))
    runs = [("autograd", items), ("torch", items + extra)]
    rows, owner, slopes, of = [], [], [], []
    for name, its in runs:
        out = chk.driver("gradient.py", dict(backend=name, items=its, planar=plan), timeout=850) or [[], []]
        for it, o in zip(its, out[0]):
            rows.append(dict(dict(err=o.get("error", ""), scene=it["id"], kind=it["kind"], steps=[], sample=[], null=0, alone=0, scale=0, sum=0, real=True, finite=True), **{k: v for k, v in o.items() if k not in ("error", "tb")}))
            owner.append(dict(backend=name, case=it))
        for sc, o in zip(plan, out[1]):
            slopes += [dict(ev="medium", kap=sc["kap"], sub=sc["sub"])] + [dict(ev="layer", q=L["q"], m=L["m"], sel=int(j == sc["sel"])) for j, L in enumerate(sc["stack"])]
            slopes.append(dict(ev="slope", q0=sc["q0"], w=sc["w"], err=o.get("error", ""), grad=o.get("grad", 0), gradT=o.get("gradT", 0), backend=name))
            of += [sc] * (len(sc["stack"]) + 2)
    chk.traces(len(rows) + 2 * len(plan))
    chk.sample(rows[0])
    vp.validate(chk, "PlanarTrace", slopes, cfg="SlopeTrace.cfg", describe=lambda row, x: dict(event=row, case=of[x["line"] - 1]))
    vp.validate(chk, "GradientTrace", rows, describe=lambda row, x: dict(event=row, **owner[x["line"] - 1]))
