"""C12: field accessors agree with one another."""
import vp
from scenes import rand_scene


def run(chk):
    r = vp.rng("C12")
    a, b = vp.parallel(lambda: vp.tlc("MCFields", workers=6, consts={} if vp.THOROUGH else dict(Ids="{\"index\", \"name\"}"), cfg="MCFields.cfg"), lambda: vp.tlc("FieldsGen"))
    chk.add_tlc(a), chk.add_tlc(b)
    reqs = sorted(b.tagged("REQ"), key=str)
    r.shuffle(reqs)
    four = [q for q in reqs if q["grid"] == [0, 0]]
    two_d = [q for q in reqs if q["grid"][1] in (2, 4)]
    one_d = [q for q in reqs if q["grid"][1] == 1 and q["grid"][0] > 0]
    items = []
    n = 0
    for k in range(150 if not vp.THOROUGH else 2000):
        od = k % 4 == 3
        shape = (12, 12) if k % 2 else (12, 9)
        sc = rand_scene(r, one_d=od, disc=12 if od else shape, layers=(1, 3), loss=k % 3 == 0, aniso=k % 5 == 0, lossy_sub=k % 6 == 0, forms=("original",) * 3 + ("tangent", "pol"),
                        nh1=(3, 5), nh2=(5, 9))
        if not od and k % 3:
            # only the orders the 2 and 4 point grids resolve; sometimes a lopsided set
            box = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)]
            hs = r.sample(box, r.randint(2, 7)) + [(0, 0)]
            r.shuffle(hs)
            sc["lattice"]["harm"] = [[h[0] for h in hs], [h[1] for h in hs]]
            sc["nh"] = 20
        if k % 2:  # outer media with a thickness, so that depths inside them are inside
            sc["layers"][0]["d"], sc["layers"][-1]["d"] = 0.3, 0.2
        j = r.randrange(len(sc["layers"]))
        d = sc["layers"][j]["d"]
        zs = r.sample([0, round(0.3 * d, 4), d, round(0.7 * d, 4)] if d else [0, 0.0, 0], 3)
        pool = one_d if od else two_d
        asks = []
        for _ in range(18):
            q = dict(pool[n % len(pool)])
            n += 1
            if od and sc["nh"] > 3 and q["grid"][0] < 4:
                q["grid"] = [4, 1]
            q["exact"] = 1
            asks.append(q)
        for _ in range(3):
            asks.append(dict(r.choice(four)))
        for _ in range(6):
            q = dict(r.choice(pool))
            q["grid"] = [12, 1] if od else list(shape)
            if r.random() < 0.6:
                q["grid"] = [r.choice([5, 7, 9, 16]), 1] if od else [r.choice([5, 6, 11]), r.choice([5, 7, 8])]
            else:
                q["default"] = 1
            asks.append(q)
        if not od and sc["nh"] == 9 or od and sc["nh"] > 3 or not od and "harm" not in sc["lattice"]:
            # |h| may reach 2: grids of 4 points only
            for q in asks:
                if q.get("exact") and 2 in q["grid"]:
                    q["grid"] = [4, 1] if od else [4, 4]
        r.shuffle(asks)
        items.append(dict(scene=sc, layer=j, zs=zs, asks=asks))
    out = chk.driver("fields.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows, owner = [], []
    for it, o in zip(items, out):
        if isinstance(o, dict):
            o = [dict(ev="table", err=o["error"], u=[], hs=[])]
        rows += o
        owner += [it] * len(o)
    chk.traces(len(items))
    chk.sample(dict(layer=items[0]["layer"], zs=items[0]["zs"], asks=items[0]["asks"][:5]))
    starts = [k for k, e in enumerate(rows) if e["ev"] == "table"]
    P = 8
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]

    def desc(row, owner):
        row = {k: v for k, v in row.items() if k not in ("val", "u")}
        return dict(event=row, scene=owner["scene"], layer=owner["layer"], zs=owner["zs"])
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "FieldsTrace", rows[a:b], describe=lambda row, x: desc(row, owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
