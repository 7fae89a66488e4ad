"""C18: the topology optimizer follows its schedule."""
import vp


def run(chk):
    r = vp.rng("C18")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCOptimizer", workers=4, consts={} if not big else dict(MaxEvals=3)),
                       lambda: vp.tlc("OptimizerRuns", args=["-simulate", f"num={300 if not big else 6000}", "-depth", "10", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    groups = {}
    for x in b.tagged("RUN"):
        groups.setdefault(str({k: v for k, v in x.items() if k != "fun"}), []).append(x)
    items = []
    for k, (_, g) in enumerate(sorted(groups.items())):
        x = r.choice(g)
        n = x["nvar"]
        opts = {}
        if r.random() < 0.25:
            opts = dict(ftol_rel=1e-8) if x["method"] == "nlopt" else dict(maxcor=5)
        items.append(dict(x, x0=[round(r.uniform(0, 1), 3) if r.random() < 0.8 else r.choice([0.0, 1.0]) for _ in range(n)],
                          target=[round(r.uniform(-0.3, 1.3), 3) for _ in range(n)], weights=[round(r.uniform(0.5, 2.5), 3) for _ in range(n)],
                          extra=[round(r.uniform(0, 3), 2) for _ in range(x["args"])], first=r.choice([1, 5, 0]), listed=r.random() < 0.5, options=opts,
                          runs=2 if r.random() < 0.15 else 1))
    few = [x for x in items if x["maxiter"] <= 5 and x["levels"] <= 3]
    tc = r.sample(few, min(len(few), 24 if not big else 240))
    todo = [(items, "autograd"), (tc, "torch")]
    outs = vp.parallel(*[lambda its=its, bk=bk: chk.driver("optimizer.py", dict(items=its, procs=5 if bk == "autograd" else 1), env=dict(OPT_BACKEND=bk), timeout=850) for its, bk in todo])
    parts = []
    for (its, bk), o in zip(todo, outs):
        for it, x in zip(its, o or []):
            if isinstance(x, dict):
                x = [dict(ev="start", lo=0, hi=1, stop=-1, cb=False, x0=0, budget=0), dict(ev="end", err=x["error"], x=0, y=0, count=0, kept=True)]
            parts.append((dict(it, backend=bk), x))
    chk.traces(len(parts))
    chk.sample(dict(run=parts[0][0], calls=len(parts[0][1])))
    P = 3

    def judge(part):
        rows = [row for _, x in part for row in x]
        own = [it for it, x in part for _ in x]
        vp.validate(chk, "OptimizerTrace", rows, describe=lambda row, x: dict(event=row, line=x["line"], case=own[x["line"] - 1]))
    vp.parallel(*[lambda k=k: judge(parts[k::P]) for k in range(P)], n=P)
