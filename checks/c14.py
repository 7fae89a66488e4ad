"""C14: rasterized shapes are exact."""
import vp


def run(chk):
    r = vp.rng("C14")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("Quadtree", workers=4, consts={} if not big else dict(MaxN=4)),
                       lambda: vp.tlc("RasterGen", args=["-simulate", f"num={420 if not big else 9000}", "-depth", "8", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    f = vp.tlc("Quadtree", consts=dict(Corners="TRUE"), check=False)
    if "RightOK" not in f.violated:
        raise vp.CheckError("the specification of the subdivision does not tell right from wrong")
    groups = {}
    for x in b.tagged("SHAPE"):
        groups.setdefault(str((x["u"], x["N"], x["s"]["kind"], x["s"]["rings"], x["s"]["c"])), []).append(x)
    items = []
    for k, (_, g) in enumerate(sorted(groups.items())):
        x = r.choice(g)
        if x["s"]["kind"] in ("polygon", "region") and r.random() < 0.1:
            x["s"]["rings"] = [list(reversed(q)) for q in x["s"]["rings"]]
        items.append(dict(x, unit=r.choice([1, 0.1, 0.137, 1e-3, 25.0])))
    for k in range(12 if not big else 100):  # stripes of mono-periodic lattices
        s = dict(kind="stripe", rings=[], c=[r.randint(-1, 11), 0], w=[r.randint(1, 9), 1], rot=[1, 0, 1])
        items.append(dict(u=[[10, 0], [0, 0]], N=[r.choice([7, 16, 12, 33]), 1], s=s, unit=r.choice([1, 0.1]), one=True))
    small = [x for x in items if x["N"][0] * x["N"][1] < 90]
    jx = r.sample(small, min(len(small), 8 if not big else 60))
    tc = r.sample(items, min(len(items), 60 if not big else 800))
    outs = vp.parallel(lambda: chk.driver("raster.py", dict(items=items)),
                       lambda: chk.driver("raster.py", dict(items=tc, procs=1), env=dict(RASTER_BACKEND="torch"), timeout=800),
                       lambda: chk.driver("raster.py", dict(items=jx, procs=1), env=dict(RASTER_BACKEND="jax"), timeout=800))
    rows, owner = [], []
    for its, o, bk in zip((items, tc, jx), outs, ("numpy", "torch", "jax")):
        if o is None:
            continue
        for it, x in zip(its, o):
            rows.append(x if "ev" in x else dict(ev="mask", err=x["error"], mask=[], grid=[], s=it["s"], u=it["u"], N=it["N"]))
            owner.append(dict(backend=bk, unit=it["unit"]))
    chk.traces(len(rows))
    chk.sample(dict(shape=items[0]))
    P = 6
    cut = [j * len(rows) // P for j in range(P + 1)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "RasterTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1]))
                  for a, b in zip(cut, cut[1:])], n=P)
