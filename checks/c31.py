"""C31: computations in parallel threads do not interfere."""
import vp
from scenes import rand_scene


def task(r, k, kind=None):
    kind = kind or r.choice(["scene"] * 5 + ["sampler", "shapes", "density"])
    if kind == "scene":
        ask = r.sample(["orders", "complex", "fields", "grid", "stress", "S"], r.randint(1, 3))
        return dict(kind=kind, ask=ask, scene=rand_scene(r, aniso=True, layers=(1, 2), forms=("original", "original", "tangent", "pol", "jones"), disc=(7, 8), nh2=(3, 5), nh1=(3, 5), one_d=False))
    if kind == "sampler":
        return dict(kind=kind, a=r.uniform(2, 20))
    if kind == "shapes":
        return dict(kind=kind, basis=r.choice([[[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.5, 0.9]]]), r=round(r.uniform(0.1, 0.35), 3))
    return dict(kind=kind, x=[round(r.random(), 4) for _ in range(64)], r=r.choice([0.1, 0.3]), b=r.choice([1, 8, 30]))


def run(chk):
    r = vp.rng("C31")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCThreads", workers=4, consts=dict(Length=7, MaxSlices=5) if big else {}),
                       lambda: vp.tlc("MCThreads", workers=4, consts=dict(Tasks="{1, 2, 3}", Length=3, MaxSlices=6 if big else 5)))
    for x in (a, b):
        chk.add_tlc(x)
    # something left in a common place is seen
    c = vp.tlc("MCThreads", consts=dict(Shared="TRUE"), check=False)
    if "AloneOK" not in c.violated:
        raise vp.CheckError("the faulty variant of Threads is not caught:\n" + c.out[-2000:])
    two, three = a.tagged("SCHED"), b.tagged("SCHED")
    L2, L3 = max(s[-1][1] for s in two), max(s[-1][1] for s in three)
    items = []
    for k in range(64 if not big else 900):
        n = 3 if k % 4 == 3 else 2
        first = task(r, k, "scene" if k % 4 != 2 else None)
        tasks = [first] + [task(r, k, "scene" if k % 4 < 2 else None) for _ in range(n - 1)]
        share = False
        if k % 4 == 0:  # a sweep: the same structure at other wavelengths or angles
            sc = first["scene"]
            for t in tasks[1:]:
                v = dict(sc["exc"])
                if r.random() < 0.5:
                    v["wl"] = round(v["wl"] * r.uniform(0.9, 1.1), 4)
                else:
                    v["ang"] = [v["ang"][0] + r.uniform(1, 5), v["ang"][1], v["ang"][2] + r.uniform(0, 30)]
                t["scene"] = dict(sc, exc=v, nh=r.choice([3, 5, 9]), form=r.choice([sc["form"], "original"]))
            share = k % 8 == 0
        L, pool = (L3, three) if n == 3 else (L2, two)
        scheds = [dict(mode="turns", every=e) for e in (1, r.choice([2, 3, 5, 11]))]
        for s in r.sample(pool, 10):
            at, out = [0.0] * n, []
            for t, x in s:  # anywhere in the twelfth the schedule says
                out.append([t, 1.5 if x == L else (x - r.random()) / L])
            scheds.append(dict(mode="slices", slices=out))
        items.append(dict(tasks=tasks, share=share, scheds=scheds, backend=["numpy", "numpy", "scipy", "torch", "autograd"][(k // 4) % 5]))
    items.sort(key=lambda x: x["backend"])
    out = chk.driver("threads.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], n=1)]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(sum(len(it["scheds"]) for it in items))
    chk.sample(dict(scheds=items[0]["scheds"][:3]))
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "ThreadsTrace", rows[a:b], describe=lambda row, x: dict(event={k: v for k, v in row.items() if k not in ("got", "alone")}, tasks=[{k: v for k, v in t.items() if k != "scene"} for t in owner[a + x["line"] - 1]["tasks"]], item=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
