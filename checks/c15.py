"""C15: the permittivity seen by the solver is the pattern's."""
import vp

BASES = [[[1, 0], [0, 1]], [[1, 0], [0.5, 0.8660254]], [[0.9, 0.1], [-0.3, 1.2]], [[0, 1], [1, 0]]]


def run(chk):
    r = vp.rng("C15")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCSpectrum", workers=4, consts=dict(Edits=2 if not big else 4)),
                       lambda: vp.tlc("MCSpectrum", "SpectrumGen.cfg", args=["-simulate", f"num={130 if not big else 2500}", "-depth", "11", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    pats = b.tagged("PATTERN")
    r.shuffle(pats)
    pats = pats[:160 if not big else 4000]
    forms = ("original",) * 4 + ("tangent", "pol", "jones")

    def item(ev, N, harm, **kw):
        one = kw.pop("one", False)
        d = dict(ev=ev, N=N, harm=harm, g=[], coef=[], value=[0, 0], aniso=0, copy=r.random() < 0.2, solved=False, by=r.randint(0, 2), nh=r.choice([1, 3, 5, 9, 13]),
                 form=r.choice(forms), basis=None if one else r.choice(BASES))
        d.update(kw)
        if one:
            d["form"] = "original"
        return d
    items = []
    for p in pats:
        harm = [list(h) for h in p["H"]]
        r.shuffle(harm)
        one = p["N"][1] == 1
        items.append(item("exact", p["N"], harm, g=p["g"], one=one))
    for k in range(130 if not big else 2500):
        one = k % 4 == 0
        n = r.choice([9, 10, 15, 16, 21, 27])
        m = 1 if one else r.choice([9, 10, 15, 16, 21, 24])
        lim = [(n - 1) // 2, (m - 1) // 2]
        # a harmonic array must resolve the grid: the largest index counts for both directions
        q = lim[0] if one else min(lim)
        harm = None
        kind = r.random()
        if kind < 0.45:
            harm = [[0, 0]] + [[r.randint(-q, q), 0 if one else r.randint(-q, q)] for _ in range(r.randint(1, 14))]
            harm = [list(h) for h in dict.fromkeys(map(tuple, harm))]
        elif kind < 0.55 and n * m < 120 and (one or n == m) and n % 2:  # every harmonic of the grid
            harm = [[i, j] for i in range(-q, q + 1) for j in (range(-q, q + 1) if not one else (0,))]
        coef = []
        for _ in range(r.randint(2, 9)):
            h = r.choice(harm) if harm and r.random() < 0.6 else [r.randint(-2, 2) if r.random() < 0.6 else r.randint(0, n - 1),
                                                                   0 if one else r.randint(-2, 2) if r.random() < 0.6 else r.randint(0, m - 1)]
            coef.append(dict(h=h, v=[r.randint(-4, 4), r.randint(-4, 4)]))
        if r.random() < 0.5:  # a real pattern
            coef += [dict(h=[-c["h"][0], -c["h"][1]], v=[c["v"][0], -c["v"][1]]) for c in coef]
        coef.append(dict(h=[0, 0], v=[20, 0]))
        items.append(item("coef", [n, m], harm, coef=coef, one=one, aniso=r.randint(1, 99) if r.random() < 0.2 else 0,
                          solved=r.random() < 0.15 and not one, nh=r.choice([1, 3, 5, 7] if one or q < 5 else [1, 5, 9, 13, 21])))
    for k in range(10):
        items.append(item("uniform", [12, 12], None, value=[r.randint(1, 9), r.randint(0, 3)]))
    for it in items:
        if it["aniso"]:
            it.update(form="original", solved=False)
    tc, jx, ag = (r.sample(items, min(len(items), n if not big else 10 * n)) for n in (40, 12, 40))
    todo = [(items, "numpy"), (tc, "torch"), (jx, "jax"), (ag, "autograd")]
    outs = vp.parallel(*[lambda its=its, bk=bk: chk.driver("spectrum.py", dict(items=its, procs=None if bk == "numpy" else 1),
                                                           env=dict(SPECTRUM_BACKEND=bk), timeout=800) for its, bk in todo])
    rows, owner = [], []
    for (its, bk), o in zip(todo, outs):
        for it, x in zip(its, o or []):
            rows.append(x if "ev" in x else dict(err=x["error"], ans=[], H=[], **{k: it[k] for k in ("ev", "N", "g", "coef", "value")}))
            owner.append(dict(it, backend=bk))
    chk.traces(len(rows))
    chk.sample(items[0])
    P = 4
    cut = [j * len(rows) // P for j in range(P + 1)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "SpectrumTrace", rows[a:b], describe=lambda row, x: dict(err=row["err"], case=owner[a + x["line"] - 1], ans=str(row["ans"])[:400], H=row["H"]))
                  for a, b in zip(cut, cut[1:])], n=P)
