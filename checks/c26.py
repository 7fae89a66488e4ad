"""C26: formulations apply the factorization they name."""
import math

import vp
from scenes import grazing_margin, pattern, tensor_pattern, safe_lattice

MONO = dict(dim=1, swap=0, skew=0, g=[1, 0], form="original", src="fft", sign=0, length=0)


def films(r, meds, iso, num):
    items = []
    r.shuffle(meds)
    for k, m in enumerate(meds[:num]):
        if not iso and len({str(p["e"]) for p in m["pts"]}) == 1:
            continue
        one_d = r.random() < 0.3
        pts = [dict(p, dir=2) for p in m["pts"]] if one_d else m["pts"]
        form = r.choice(["original", "tangent", "tangent"] if one_d else ["original", "tangent", "pol", "jones"])
        axis = r.choice([1, 2])
        eff = (m["direct"] if form == "original" else m["grooved"] if one_d else m["inverse"])[axis - 1]
        reps = r.choice([1, 2, 3])
        disc = [len(pts) * reps, 1] if one_d else r.choice([[len(pts), reps + 1], [2 * reps, len(pts)]])
        order = [j % len(pts) for j in range(disc[0] * disc[1])]
        r.shuffle(order)
        turn = 0 if one_d else (r.choice([0, 90, 180]) if not iso else round(r.uniform(-180, 180), 2))
        if not iso and turn == 90:
            turn = 0
        al = turn + (90 if axis == 2 else 0)
        top, bottom = round(r.uniform(1, 3), 3), round(r.uniform(1, 5), 3)
        if r.random() < 0.6:
            ang = [round(r.uniform(-70, 80), 1), al - 90, 90]
        else:
            ph = round(r.uniform(-90, 90), 1)
            ang = [0, ph, al - ph]
        wl = round(r.uniform(0.5, 1.6), 3)
        per = round(r.uniform(0.1, 2), 3)
        items.append(dict(what="film", pts=pts, form=form, axis=axis, eff=eff, disc=disc, order=order, sign=[r.choice([0, 1]) for _ in order], turn=math.radians(turn), iso=iso, ez=round(r.uniform(1, 5), 2),
                          period=per if one_d else [[per, 0.1], [-0.2, 1.1 * per]], ends=[top, bottom], exc=dict(wl=wl, ang=ang), d=round(r.uniform(0.02, 0.6) * wl, 4)))
    return items


def scene(r):
    for _ in range(500):
        wl = round(r.uniform(0.5, 1.5), 3)
        top, bottom = round(r.uniform(1, 3), 3), [round(r.uniform(1, 5), 3), r.choice([0, 0, 0.3])]
        th = r.choice([0, round(r.uniform(-60, 70), 1)])
        ph, ps = r.choice([(0, 90), (180, 90), (0, 0), (round(r.uniform(-180, 180), 1), round(r.uniform(-90, 90), 1))])
        per = round(wl * r.uniform(0.3, 1.7), 4)
        kx = math.sqrt(top) * math.sin(math.radians(th))
        if grazing_margin([[per, 0.0], [0.0, 1.0]], wl, kx, ph, [top, complex(*bottom)], orders=5, one_d=True) < 0.02 or min(abs(top - kx * kx), abs(complex(*bottom) - kx * kx)) < 0.02:
            continue
        n = r.choice([20, 24, 30])
        aniso = r.random() < 0.2
        loss = 0.5 if r.random() < 0.3 else 0
        layers = [dict(d=0, eps=top)]
        for _ in range(r.choice([1, 1, 2])):
            e = tensor_pattern(r, n, 1) if aniso else pattern(r, n, 1, loss=loss, kinds=("block", "steps"))
            layers.append(dict(d=round(r.uniform(0.05, 0.6) * wl, 4), eps=e))
        if r.random() < 0.4:
            layers.insert(r.choice([1, 2]), dict(d=round(r.uniform(0.05, 0.4), 3), eps=round(r.uniform(1, 4), 2)))
        layers.append(dict(d=0, eps=bottom))
        return dict(n=n, m=r.choice([20, 22, 25]), period=per, across=round(r.uniform(0.3, 1.5), 3), nh=r.choice([3, 5, 7]), layers=layers, exc=dict(wl=wl, ang=[th, ph, ps]),
                    tangential=ph in (0, 180) and ps == 90 and not aniso)
    raise RuntimeError("no scene")


def smooth(r, one_d):
    wl = 1.0
    top, bottom = round(r.uniform(1, 2), 3), round(r.uniform(1, 3), 3)
    th, ph = r.choice([0, 20, 40]), r.choice([0, 25, 90])
    kx = math.sqrt(top) * math.sin(math.radians(th))
    n = 64 if one_d else 40
    lat = safe_lattice(r, wl, kx, ph, [top, bottom], one_d=one_d, disc=(n, n), margin=0.05, scale=(0.4, 1.2))
    amp = 0.6 if one_d else 0.4
    waves = [[p, 0 if one_d else q, round(r.uniform(0.3, 1) * amp, 3), round(r.random(), 3)] for p, q in r.sample([(1, 0), (0, 1), (1, 1), (1, -1)] if not one_d else [(1, 0), (2, 0)], 2)]
    forms = [["original", None, None], ["tangent", None, None]] if one_d else [["original", None, None], ["tangent", "turning", None], ["pol", r.choice(["fft", "turning"]), None],
                                                                                 ["jones", r.choice(["fft", "turning"]), None], [r.choice(["original", "pol", "tangent"]), "turning", "parallelogrammic"]]
    return dict(what="smooth", lattice=lat, mean=round(r.uniform(2, 3), 2), waves=waves, loss=r.choice([0, 0, 0.1]), forms=forms, ends=[top, bottom], nh=25 if one_d else 61,
                exc=dict(wl=wl, ang=[th, ph, r.choice([0, 30, 90])]), d=round(r.uniform(0.1, 0.5), 3), orders=[[0, 0], [1, 0], [-1, 0]], tol=100 if one_d else 3000)


def turned(r):
    src = r.choice(["fft", "opt"])
    wl = 1.0
    top, bottom = round(r.uniform(1, 2), 3), round(r.uniform(1, 3), 3)
    th, ph = r.choice([0, 25, 50]), round(r.uniform(-180, 180), 1)
    disc = r.choice([(16, 16), (20, 14), (18, 25)])
    lat = safe_lattice(r, wl, math.sqrt(top) * math.sin(math.radians(th)), ph, [top, bottom], disc=disc, margin=0.03, scale=(0.4, 1.5))
    # fields of computed directions that vanish nowhere
    eps = pattern(r, *disc, kinds=("noise", "steps", "block") if src == "fft" else ("noise", "steps"))
    return dict(what="turned", basis=lat["basis"], disc=lat["disc"], eps=eps, src=src, form=r.choice(["tangent", "pol", "jones"]), nh=r.choice([7, 9, 13]), ends=[top, bottom], d=round(r.uniform(0.1, 0.6), 3),
                exc=dict(wl=wl, ang=[th, ph, r.choice([0, 90, 33])]), turns=[[0, 1], [r.choice([90, 45, 30, 180]), 1], [round(r.uniform(-180, 180), 1), round(r.uniform(0.3, 4), 2)]])


def run(chk):
    r = vp.rng("C26")
    big = vp.THOROUGH
    K = 12 if big else 1
    sim = lambda n, d: ["-simulate", f"num={n}", "-depth", str(d), "-seed", str(vp.SEED)]
    a, b, c, d, e = vp.parallel(
        lambda: vp.tlc("MCEffMedium", workers=2, consts={} if not big else dict(MaxPoints=4)),
        lambda: vp.tlc("MCGrooves", workers=2),
        lambda: vp.tlc("MCEffMedium", "EffMediumGen.cfg", args=sim(130 * K, 6)),
        lambda: vp.tlc("MCEffMedium", "EffMediumGen.cfg", consts=dict(Iso="FALSE"), args=sim(60 * K, 6)),
        lambda: vp.tlc("MCGrooves", "GroovesGen.cfg", args=sim(80 * K, 10)))
    for x in (a, b, c, d, e):
        chk.add_tlc(x)
    items = films(r, c.tagged("MEDIUM"), True, 260 * K) + films(r, d.tagged("MEDIUM"), False, 100 * K)
    sib = {}
    for h in e.tagged("HIST"):
        sib.setdefault(str(h[:-1]), []).append(h)
    for _, hs in sorted(sib.items()):
        h = r.choice(hs)
        hist = [MONO, dict(MONO, form="tangent")] + h[1:]
        items.append(dict(what="grooves", scene=scene(r), hist=hist, seed=r.randrange(10**6)))
    items += [smooth(r, k % 2 == 0) for k in range(24 * K)]
    items += [turned(r) for k in range(40 * K)]
    out = chk.driver("formulations.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner = [], []
    for it, o in zip(items, out):
        if isinstance(o, dict):
            chk.violate("the real code could not be driven", dict(item=it, error=o))
            continue
        rows += o
        owner += [it] * len(o)
    chk.traces(len(items))
    chk.sample(dict(items=[{k: v for k, v in it.items() if k != "scene"} for it in (items[0], items[-30])]))
    P = 4
    begin = [k for k, x in enumerate(rows) if x["ev"] != "describe"]
    cut = [begin[j * len(begin) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "FormTrace", rows[a:b], describe=lambda row, x: dict(event=row, item={k: v for k, v in owner[a + x["line"] - 1].items() if k != "hist"})) for a, b in zip(cut, cut[1:])], n=P)
