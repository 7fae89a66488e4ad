"""C24: power goes only to propagating orders."""
import math
from fractions import Fraction
import vp
from scenes import pattern


def gam(b, s, q, kin, h, e):
    det = b[0] * b[3] - b[1] * b[2]
    g = (h[0] * b[3] - h[1] * b[1], h[1] * b[0] - h[0] * b[2])
    return Fraction(*e) - sum((Fraction(k, q) + Fraction(s * x, det)) ** 2 for k, x in zip(kin, g))


def run(chk):
    r = vp.rng("C24")
    chk.add_tlc(vp.tlc("MCHarmonics", workers=8, consts=dict(MaxN=6, Box=3)))
    bases = [[1, 0, 0, 1], [2, 0, 0, 1], [1, 0, 0, 3], [2, 0, 1, 2], [1, 0, 1, 1], [3, 1, -1, 2], [4, 3, -3, 4], [2, -1, 1, 3], [-1, 2, 2, 1], [3, 0, 2, 4], [2, 0, -1, 2]]
    kins = [[0, 0], [5, 0], [0, 8], [3, 4], [-4, 3], [6, -8], [-8, 6], [12, 0], [9, 12], [-7, 0], [0, -9]]
    media = [[1, 1], [9, 4], [2, 1], [4, 1], [25, 4], [6, 1]]
    cases = []
    while len(cases) < (260 if not vp.THOROUGH else 4000):
        b, s, kin = r.choice(bases), r.choice([1, 2, 3, 4, 5]), r.choice(kins)
        e0, e1 = r.choice(media[:4]), r.choice(media)
        if kin[0] ** 2 + kin[1] ** 2 >= 100 * e0[0] / e0[1] * 0.98:
            continue
        m = min(abs(gam(b, s, 10, kin, (i, j), e)) for i in range(-5, 6) for j in range(-5, 6) for e in (e0, e1))
        if m < 0.02:
            continue
        n = r.choice([11, 12, 13, 14])
        disc = [n, r.choice([11, 12, 13])]
        cases.append(dict(basis=b, s=s, q=10, kin=kin, eps=[e0, e1], wl=r.choice([1.0, 0.65, 1.55]), rot=r.choice([0, 0, 90, 33.3, -71]), psi=r.choice([0, 90, 37]), dt=r.choice([0, 0.23]), disc=disc,
                          nh=r.choice([5, 7, 9, 13, 19, 25]), grid=pattern(r, *disc)["grid"]))
    # orders just below and just beyond their cutoff in one of the outer media
    near = 0
    while near < (70 if not vp.THOROUGH else 1200):
        b, s, kin = r.choice([[1, 0, 0, 1], [1, 0, 1, 1], [0, 1, -1, 0], [1, 0, 0, -1]]), r.choice([1, 2]), r.choice([[0, 0], [3, 0], [0, -4], [2, 1], [-3, 4], [1, -3]])
        h, side = r.choice([(1, 0), (0, 1), (-1, 0), (1, 1), (-1, 1), (0, -1), (2, 0)]), r.randrange(2)
        k2 = -gam(b, s, 5, kin, h, (0, 1))
        e = k2 + r.choice([-1, -1, 1]) * Fraction(1, r.choice([400, 4000, 20000]))
        media_ = [r.choice(media[:4]), r.choice(media)]
        media_[side] = [e.numerator, e.denominator]
        e0, e1 = media_
        if not 0.9 < e < 7 or kin[0] ** 2 + kin[1] ** 2 >= 25 * e0[0] / e0[1] * 0.98 or kin[0] ** 2 + kin[1] ** 2 >= 25 * e1[0] / e1[1] * 0.98:
            continue
        if min(abs(gam(b, s, 5, kin, (i, j), x)) for i in range(-5, 6) for j in range(-5, 6) for x in (e0, e1)) < Fraction(1, 20001):
            continue
        near += 1
        n = r.choice([11, 12, 13, 14])
        disc = [n, r.choice([11, 12, 13])]
        cases.append(dict(basis=b, s=s, q=5, kin=kin, eps=media_, wl=r.choice([1.0, 0.65, 1.55]), rot=r.choice([0, 0, 90, 33.3]), psi=r.choice([0, 90, 37]), dt=r.choice([0, 0.23]), disc=disc,
                          nh=r.choice([9, 13, 19, 25]), grid=pattern(r, *disc)["grid"]))
    out = chk.driver("harmonics.py", dict(cases=cases), timeout=800)
    if out is None:
        return
    rows, owner = [], []
    for c, o in zip(cases, out):
        if isinstance(o, dict):
            o = [dict(ev="orders", err=o["error"], basis=c["basis"], s=c["s"], q=10, kin=c["kin"], eps=c["eps"], list=[], R=[], T=[], gam=[], grow=[], total=0)]
        rows += o
        owner += [c] * len(o)
    chk.traces(len(cases))
    chk.sample({k: v for k, v in cases[0].items() if k != "grid"})
    cut = [j * len(rows) // 4 for j in range(5)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "HarmonicsTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=4)
