"""C17: adaptive sampling refines exactly where needed."""
import vp


def run(chk):
    r = vp.rng("C17")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCSampler", workers=4),
                       lambda: vp.tlc("MCSampler", "SamplerGen.cfg", args=["-simulate", f"num={420 if not big else 12000}", "-depth", "400", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    seq, par = [], []
    for k, x in enumerate(b.tagged("RUN")):
        it = dict(x, id=k, unit=r.choice([1.0, 2.0**-7, 2.0**-9, 8.0]), vunit=r.choice([1.0, 0.25, 1024.0, 2.0**-40, 2.0**40]), off=r.choice([0, 0, 512, -300]), multi=r.choice([0, 0, 1, 2]), jobs=r.choice([0, 1]), backend=["", "0d", "numpy", "autograd", "torch", "jax"][k % 6])
        order = list(x["first"])
        if r.random() < 0.2:
            r.shuffle(order)
        if r.random() < 0.08:
            order.append(r.choice(order))
        it["order"] = order
        it["first"] = sorted(x["first"])
        seq.append(it)
    seq.sort(key=lambda it: it["backend"])
    par = [dict(it, jobs=2, backend=["", "0d"][it["id"] % 2]) for it in r.sample(seq, min(len(seq), 8 if not big else 80))]
    outs = vp.parallel(lambda: chk.driver("sampler.py", dict(items=seq, procs=6), timeout=800),
                       lambda: chk.driver("sampler.py", dict(items=par, procs=1), timeout=800))
    parts = []
    for its, o in zip((seq, par), outs):
        for it, x in zip(its, o or []):
            if isinstance(x, dict):
                x = [dict(ev="start", par=it["par"], first=it["first"]), dict(ev="end", err=x["error"], xs=[], ys=[], calls=[])]
            parts.append((it, x))
    chk.traces(len(parts))
    chk.sample(dict(run=parts[0][0]))
    P = 4

    def judge(part):
        rows = [row for _, x in part for row in x]
        own = [it for it, x in part for _ in x]
        vp.validate(chk, "SamplerTrace", rows, describe=lambda row, x: dict(event=row, case=own[x["line"] - 1]))
    vp.parallel(*[lambda k=k: judge(parts[k::P]) for k in range(P)], n=P)
