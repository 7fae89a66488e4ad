"""C29: light paths are reversible (reciprocity)."""
import vp
from scenes import is_lossless, rand_scene, tensor_pattern


def crystal(r, n, m):
    """A pattern that absorbs along axes that are not those of the cell, with or without a Hermitian part."""
    t = tensor_pattern(r, n, m)["tgrid"] if r.random() < 0.5 else None
    z = [[0.0] * m for _ in range(n)]
    f = lambda lo, hi: [[round(r.uniform(lo, hi), 3) for _ in range(m)] for _ in range(n)]
    if t is None:
        xy = f(-0.5, 0.5)
        t = [[[f(2, 4), z], [xy, z], [z, z]], [[xy, z], [f(2, 4), z], [z, z]], [[z, z], [z, z], [f(1.5, 4), z]]]
    # symmetric positive imaginary part
    a, b, c = f(0, 1), f(-0.4, 0.4), f(0.2, 1)
    add = lambda u, v: [[round(x + y, 4) for x, y in zip(p, q)] for p, q in zip(u, v)]
    prod = lambda u, v: [[round(x * y, 4) for x, y in zip(p, q)] for p, q in zip(u, v)]
    xx, xy, yy = add(prod(a, a), prod(b, b)), add(prod(a, b), prod(b, c)), add(prod(b, b), prod(c, c))
    for (i, j), v in {(0, 0): xx, (0, 1): xy, (1, 0): xy, (1, 1): yy, (2, 2): prod(a, a)}.items():
        t[i][j] = [t[i][j][0], add(t[i][j][1], v)]
    return dict(tgrid=t)


def run(chk):
    r = vp.rng("C29")
    big = vp.THOROUGH
    mc = [{}, dict(Layers=3, Weights="{0, 1}"), dict(Orders="{0, 1}", Choices=14 if not big else 60), dict(Orders="{0, 1}", Permuting="TRUE", MaxSteps=14)]
    if big:
        mc.append(dict(Layers=3, Orders="{0, 1}", Choices=12, MaxSteps=9))
    for x in vp.parallel(*[lambda c=c: vp.tlc("MCRecip", consts=c, workers=2, args=["-seed", str(vp.SEED)]) for c in mc]):
        chk.add_tlc(x)
    items = []
    for k in range(150 if not big else 3000):
        od = k % 3 == 0
        sc = rand_scene(r, aniso=True, loss=k % 4 == 0, generic=True, one_d=od, forms=("original", "tangent") if od else ("original",), disc=(16, 1) if od else (11, 12),
                        scale=(0.5, 2), lossy_sub=k % 5 == 1, nh2=(5, 9, 13), layers=(1, 3), margin=0.01)
        if sc["form"] == "original" and k % 4 == 1:
            for L in sc["layers"][1:-1]:
                if isinstance(L["eps"], dict) and r.random() < 0.6:
                    L["eps"] = tensor_pattern(r, 16, 1) if od else tensor_pattern(r, 11, 12)
        lossless = is_lossless(sc)
        if sc["form"] == "original" and k % 4 == 2:
            L = r.choice([L for L in sc["layers"] if isinstance(L["eps"], dict)])
            L["eps"], lossless = crystal(r, 16, 1) if od else crystal(r, 11, 12), False
        pat = [L for L in sc["layers"][1:-1] if isinstance(L["eps"], dict) and "grid" in L["eps"]]
        if pat and k % 3 == 1:  # the pattern of another layer, shifted
            e, (u, v) = r.choice(pat)["eps"], (r.randint(1, 5), r.randint(0, 4))
            roll = lambda g: [row[v % len(row):] + row[:v % len(row)] for row in g[u:] + g[:u]]
            sc["layers"].insert(r.randint(1, len(sc["layers"]) - 1), dict(name="shifted", d=round(r.uniform(0.05, 0.4) * sc["exc"]["wl"], 4), eps={q: roll(g) for q, g in e.items()}))
        box = [[i, j] for i in (-2, -1, 0, 1, 2) for j in ((-2, -1, 0, 1, 2) if not od else (0,))]
        harm = r.sample(box, r.randint(2, 5 if od else 10))
        harm = None if k % 6 == 5 else [[0, 0]] + [h for h in harm if h != [0, 0]]
        items.append(dict(scene=sc, harm=harm, seed=k, ask=r.choice([3, 4, 5, 8]), shuffle=k % 2 == 0, lossless=lossless))
    out = chk.driver("reciprocity.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], n=0, lossless=0, whole=0)]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(rows[:5])
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "RecipTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
