"""C32: lattices measure their cell."""
import vp


def run(chk):
    r = vp.rng("C32")
    big = vp.THOROUGH
    res = chk.add_tlc(vp.tlc("MCCell", workers=6, consts=dict(MaxSteps=5) if big else {}))
    cells = sorted({(tuple(map(tuple, c["b"])), c["den"]) for c in res.tagged("CELL")})
    items = []
    for k in range(500 if not big else 8000):
        b, den = r.choice(cells)
        one = k % 5 == 0
        items.append(dict(k=k, b=[list(u) for u in b] if not one else [[r.randint(1, 9), 0], [0, 1]], den=den, one=one, n=[r.randint(2, 7), r.randint(2, 7)],
                          backend=["numpy", "scipy", "autograd", "torch", "jax"][k // 5 % 5], bits=32 if k % 4 == 3 else 64, pts=[[r.randint(-9, 9), r.randint(-9, 9)] for _ in range(4)],
                          c=r.randint(-20, 40), w=r.randint(1, 40), q=r.choice([7, 11, 16])))
    items.sort(key=lambda x: (x["backend"], x["bits"]))
    out = chk.driver("cell.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows = [o if "error" not in o else dict(ev="lattice", err=o["error"]) for o in out]
    chk.traces(len(rows))
    chk.sample(rows[0])
    P = 4
    cut = [j * len(rows) // P for j in range(P + 1)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "CellTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=items[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
