"""C34: duplicated and pickled simulations answer like the originals."""
import vp
import simlife as sl

HOW = ["deepcopy", "deepcopy", "pickle2", "pickle5", "pickle4", "cloudpickle", "process", "process", "layers", "copies", "pieces", "pieces"]
Q = ["eff", "eff", "ord", "cpl", "S", "range", "four", "four", "comp", "stress", "eps", "dict"]


def useful(h):
    """a duplicate is made, and something is asked afterwards"""
    d = [k for k, o in enumerate(h) if o[0] == "dup"]
    return d and any(o[0] == "ask" for o in h[d[0]:])


def run(chk):
    r = vp.rng("C34")
    big = vp.THOROUGH
    chk.add_tlc(vp.tlc("MCTravel", workers=8, consts={} if big else dict(Layers="{1}"), timeout=800))
    for v in ("Alias", "Unkept", "ByPlace"):
        f = vp.tlc("MCTravel", consts={v: "TRUE", "Layers": "{1}"}, check=False, workers=4)
        if not f.violated:
            raise vp.CheckError(f"the faulty variant {v} of Travel is not caught:\n" + f.out[-2000:])
    short = vp.tlc("MCTravel", workers=8, consts=dict(Slots="{1, 2}", Sims='{"A"}', Layers="{1}", Hist="TRUE", MaxLen=5 if not big else 6), timeout=800)
    chk.add_tlc(short)
    hs = [h for h in short.tagged("HIST") if useful(h) and h[-1][0] == "ask" and not any(x[0] == y[0] == "ask" and x == y for x, y in zip(h, h[1:]))]
    hs.sort(key=str)
    r.shuffle(hs)
    chk.cov["short_histories"] = len(hs)
    hs = hs[:260 if not big else 4000]
    n, depth = (700, 11) if not big else (8000, 16)
    w = vp.tlc("MCTravel", consts=dict(Layers="{1, 2, 3}", Vers="{0, 1, 2}", Hist="TRUE", MaxLen=depth), args=["-simulate", f"num={n}", "-depth", str(depth + 2), "-seed", str(vp.SEED)])
    chk.add_tlc(w)
    last = {}
    for h in sorted(w.tagged("HIST"), key=str):
        last.setdefault(str(h[:-1]), []).append(h)
    walks = [r.choice(v) for v in last.values()]
    walks = [h for h in walks if useful(h)]
    walks.sort(key=lambda h: (-len({o[0] for o in h}), -sum(o[0] in ("ask", "dup") for o in h), str(h)))
    walks = walks[:240 if not big else 4000]
    chk.cov["walks"] = len(walks)
    ns = 10 if not big else 60
    scenes = [sl.scene(r) for _ in range(ns)]
    for k, sc in enumerate(scenes):  # more of what objects remember
        od = not isinstance(sc["lattice"]["basis"], list)
        if not od and k % 3 == 0:
            sc["lattice"]["trunc"] = "parallelogrammic"
            for p in sc["sims"].values():
                p["nh"] = 9
        elif not od and k % 3 == 1:
            sc["lattice"]["harm"] = [[0, 1, -1, 0, 0, 1], [0, 0, 0, 1, -1, 1]]
            for p in sc["sims"].values():
                p["nh"] = 6
        if k % 2 and all(p["form"] == "original" for p in sc["sims"].values()):
            n, m = sc["lattice"]["disc"]
            f = lambda lo, hi: [[[round(r.uniform(lo, hi), 3) for _ in range(m)] for _ in range(n)], 0]
            xy, z = f(-0.3, 0.3), [[[0] * m] * n, 0]
            sc["film"] = dict(tgrid=[[f(2, 4), xy, z], [xy, f(2, 4), z], [z, z, f(2, 4)]])
        for p in sc["sims"].values():  # the same lateral wavevector or the opposite one, any polarization
            th, ph, ps = p["ang"]
            p["ang"] = [th, ph + r.choice([0, 180, -180, 360]), r.choice([ps, ps - 90, ps + 180, 215])]
        sc["twin"] = k % 4 > 1  # a copied layer in the stack
        sc["tangent"] = r.choice(["opt", "fft"])
    items = []
    for k, h in enumerate(hs + walks):
        ops, alive = [], {}
        for o in h:
            o = list(o)
            if o[0] == "dup":
                o[4] = r.choice(HOW)
            if o[0] == "ask":
                q, a = r.choice(Q), r.randint(1, 4)
                a, b = (a, a) if q != "range" else sorted(r.sample(range(1, 5), 2))
                o += [q, a, b, r.choice([0, 1, 2]), r.random() < 0.15]
            ops.append(o)
        # at the end everything is asked
        for o in ops:
            if o[0] == "build":
                alive[o[1]] = o[2]
            elif o[0] == "dup":
                alive[o[2]] = o[3]
            elif o[0] == "drop":
                del alive[o[1]]
        for g in alive:
            for s in alive[g]:
                ops.append(["ask", g, s, r.choice(["eff", "four", "S"]), 2, 2, 0, False])
        items.append(dict(scene=r.randrange(ns), ops=ops, backend=["numpy", "numpy", "scipy", "torch", "autograd", "jax"][k % 6] if not big or k % 3 == 0 else "numpy"))
    items.sort(key=lambda x: (x["backend"], x["scene"]))
    out = chk.driver("travel.py", dict(scenes=scenes, items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        if isinstance(o, dict):
            chk.violate("history could not be replayed", dict(item=it, error=o))
            continue
        starts.append(len(rows))
        rows += o
        owner += [it] * len(o)
    chk.traces(len(items))
    chk.sample(dict(history=items[0]["ops"]))
    chk.assumptions += ["a duplicate is taken of all the simulations that share the layers, or of some of them with those layers", "the backend is not changed during a history"]
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "TravelTrace", rows[a:b], consts=dict(Layers="{1, 2, 3}", Vers="{0, 1, 2}"), describe=lambda row, x: dict(event=row, item=owner[a + x["line"] - 1], scene=scenes[owner[a + x["line"] - 1]["scene"]])) for a, b in zip(cut, cut[1:])], n=P)
