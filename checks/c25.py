"""C25: projections, interpolations and filters of densities."""
import vp


def run(chk):
    r = vp.rng("C25")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCDensity", workers=4, consts={} if not big else dict(Levels="{3, 8}")),
                       lambda: vp.tlc("MCDensity", "DensityGen.cfg", args=["-simulate", f"num={60 if not big else 1000}", "-depth", "13", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    dens = b.tagged("DENSITY")
    r.shuffle(dens)
    seen, items = {}, []
    lim = 8 if not big else 150
    for d in dens:  # as many of each size and width
        k = str((d["N"], d["q"]))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > max(1, lim // 8):
            continue
        q = [r.choice([-1, v, v, v]) if v else 0 for v in d["q"]]
        v = None if r.random() < 0.5 else [[round(r.uniform(0.3, 3), 3), 0], [0, round(r.uniform(0.3, 3), 3)]]
        if v and r.random() < 0.3:
            v[1][1] = v[0][0]
        items.append(dict(ev="filter", N=d["N"], q=q, x=d["x"], vectors=v, scalar=r.random() < 0.7))
    shape = lambda: r.choice(["vector", "vector", "scalars", "column"])
    ks = lambda: r.sample(range(9), r.randint(3, 9))
    for m in (1, 2):
        for t in range(1, 8):
            items.append(dict(ev="project", k=ks(), den=8, m=m, t=t, shape=shape()))
        for n in (2, 4, 8):
            items.append(dict(ev="multi", k=ks(), den=8, m=m, t=n, shape=shape()))
    mat = lambda: [r.randint(-9, 12), r.choice([0, 0, 0, r.randint(-3, 5)])]
    for _ in range(12 if not big else 200):
        items.append(dict(ev="simp", k=ks(), den=8, m=r.choice([1, 2, 3]), es=[mat(), mat()], shape=shape()))
    for _ in range(24 if not big else 400):
        n, p, den = r.choice([(2, 1, 8), (2, 3, 8), (3, 1, 8), (3, 2, 4), (3, 3, 4), (4, 1, 6), (4, 2, 3), (4, 3, 3), (5, 1, 8), (5, 2, 4)])
        items.append(dict(ev="msimp", k=r.sample(range(den + 1), den), den=den, m=p, es=[mat() for _ in range(n)], shape=shape()))
    for _ in range(60 if not big else 1500):
        fn = r.choice(["project", "project", "multi", "simp", "msimp"])
        xs = sorted([0, 1] + [round(r.uniform(0, 1), 4) for _ in range(r.randint(2, 12))])
        lo, hi = 0, 10**6
        beta = r.choice([1, 2, 4, 8, 64, 128, round(10 ** r.uniform(-2, 2.5), 3)])
        if fn == "project":
            par = [beta, r.choice([0.5, 0, 1, round(r.uniform(0.02, 0.98), 3)])]
        elif fn == "multi":
            par = [beta, r.randint(2, 7)]
        else:
            par = [r.choice([1, 2, 3, 2.5, 0.5, 5])]
            lo, hi = r.randint(1, 9) * 10**6, r.randint(1, 9) * 10**6 + 500000
        items.append(dict(ev="sweep", fn=fn, xs=xs, par=par, lo=lo, hi=hi))
    for _ in range(40 if not big else 800):
        N = [r.choice([1, 2, 3, 8, 11, 16, 17]), r.choice([1, 2, 5, 8, 11, 16])]
        if r.random() < 0.3:
            N[1] = N[0]
        v = None if r.random() < 0.5 else [[round(r.uniform(0.3, 3), 3), 0], [0, round(r.uniform(0.3, 3), 3)]]
        if v and r.random() < 0.4:
            v[1][1] = v[0][0]
        size = [max(N)] * 2 if v is None else [v[0][0], v[1][1]]
        rad = [r.choice([0, round(s * 10 ** r.uniform(-0.8, 0.8), 4)]) if r.random() < 0.3 else round(s * 10 ** r.uniform(-0.8, 0.8), 4) for s in size]
        items.append(dict(ev="law", N=N, vectors=v, r=rad[0] if r.random() < 0.5 else rad, seed=r.randint(0, 10**6)))
    tc, jx, ag = (r.sample(items, min(len(items), n if not big else 8 * n)) for n in (90, 60, 90))
    for its in (tc, jx):
        its[:] = [dict(it) for it in its]
    todo = [(items, "numpy"), (tc, "torch"), (jx, "jax"), (ag, "autograd")]
    outs = vp.parallel(*[lambda its=its, bk=bk: chk.driver("density.py", dict(items=its, procs=4 if bk == "numpy" else 1), env=dict(DENSITY_BACKEND=bk), timeout=800) for its, bk in todo])
    rows, owner = [], []
    for (its, bk), o in zip(todo, outs):
        for it, x in zip(its, o or []):
            for row in x if isinstance(x, list) else [dict(ev=it["ev"], err=x["error"])]:
                rows.append(row)
                owner.append(dict(it, backend=bk))
    chk.traces(len(rows))
    chk.sample(items[0])
    P = 4
    cut = [j * len(rows) // P for j in range(P + 1)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "DensityTrace", rows[a:b], describe=lambda row, x: dict(event=str(row)[:500], case=owner[a + x["line"] - 1]))
                  for a, b in zip(cut, cut[1:])], n=P)
