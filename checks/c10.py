"""C10: harmonics are chosen as documented."""
import vp


def run(chk):
    r = vp.rng("C10")
    res = chk.add_tlc(vp.tlc("MCHarmonics", workers=8, consts={} if vp.THOROUGH else dict(MaxN=9, Box=3)))
    bases = [[1, 0, 0, 1], [2, 0, 0, 1], [1, 0, 0, 3], [2, 0, 1, 2], [1, 0, 1, 1], [3, 1, -1, 2], [4, 3, -3, 4], [2, -1, 1, 3], [5, 0, 2, 1], [0, 1, 1, 0], [-1, 2, 2, 1], [3, 0, 2, 4], [7, 0, 3, 6],
             [1, 0, 3, 1], [6, 1, 5, 2], [2, 0, -1, 2], [1, 2, 3, -1]]
    seen = sorted({(tuple(c["basis"]), c["kind"], c["nh"]) for c in res.tagged("CASE")})
    extra = [(tuple(r.choice(bases)), r.choice(["circular", "circular", "circular", "parallelogrammic", "1D"]), r.randint(1, 120)) for _ in range(420 if not vp.THOROUGH else 3000)]
    cases = []
    for b, kind, nh in seen + extra:
        cases.append(dict(basis=list(b), kind=kind, nh=nh, scale=r.choice([1.0, 0.37, 2.31, 1e-3, 650.0]), rot=r.choice([0, 0, 90, 30, 17.3, 121.7]), sorts=r.choice([[True], [False], [False, True]]),
                          discs=[] if nh < 2 or nh > 40 else r.sample([(0, 0), (1, 1), (0, 1), (1, 0), (-1, 1), (3, 1), (1, 4), (2, 2), (0, 5)], 2)))
    for _ in range(80 if not vp.THOROUGH else 800):
        box = [[i, j] for i in range(-3, 4) for j in range(-3, 4) if (i, j) != (0, 0)]
        given = r.sample(box, r.randint(1, 7))
        if r.random() < 0.4:  # one-sided lists
            s = r.choice([-1, 1])
            given = [[s * abs(a), s * abs(b)] for a, b in given]
            given = [h for n, h in enumerate(given) if h not in given[:n] and h != [0, 0]]
        given.insert(r.randrange(len(given) + 1), [0, 0])
        cases.append(dict(basis=r.choice(bases), kind="explicit", given=given, nh=r.choice([2, 9, 50]), scale=1.0, rot=0, sorts=[False, True], discs=r.sample([(0, 0), (1, 1), (0, 1), (1, 0), (2, 2)], 3)))
    out = chk.driver("harmonics.py", dict(cases=cases), timeout=800)
    if out is None:
        return
    rows, owner = [], []
    for c, o in zip(cases, out):
        if isinstance(o, dict):
            o = [dict(ev="harm", basis=c["basis"], kind=c["kind"], nh=c["nh"], err=o["error"], list=[], n=0, given=[])]
        rows += o
        owner += [c] * len(o)
    chk.traces(len(cases))
    chk.sample(cases[0])
    chk.sample(cases[-1])
    cut = [j * len(rows) // 6 for j in range(7)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "HarmonicsTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=6)
