"""C20: equivalent periodic cells give equal answers."""
import vp
from symm import formulate, gen, grazing, hists, inside, judge, structure


def run(chk):
    r = vp.rng("C20")
    big = vp.THOROUGH
    K = 12 if big else 1
    a, b, c = vp.parallel(
        lambda: vp.tlc("MCSymmetry", workers=3, consts={} if not big else dict(MaxSteps=3)),
        lambda: gen("cellSizes", "CellKinds", 2, 150 * K, entry=3),
        lambda: gen("cellSizes", "LiftKinds", 3, 90 * K, entry=3, seed=1))
    for x in (a, b, c):
        chk.add_tlc(x)
    items = []
    for res, lift in ((b, False), (c, True)):
        for k, sib in enumerate(hists(res)):
            h = r.choice(sib)
            box = [[i, j] for i in ((-1, 0, 1) if not lift else (-2, -1, 0, 1, 2)) for j in ((-1, 0, 1) if not lift else (0,))]
            harm = box if r.random() < 0.5 else [[0, 0]] + [x for x in r.sample(box, r.randint(2, 5)) if x != [0, 0]]
            # enough points for the harmonics of every description
            if any(2 * abs(x["O"][a][0] * i + x["O"][a][1] * j) >= min(x["m"]) for x in h for i, j in harm for a in (0, 1)):
                continue
            for _ in range(200):
                st = structure(r, [h[0]["n"][0], 1] if lift else h[0]["n"], lift=lift, harm=harm)
                ok = True
                for x in h:
                    # other orders of the lattice described, which must stay dark
                    M = (min(x["m"]) - 1) // 2
                    R = min(4, M)
                    ex = [[r.randint(-R, R), r.randint(-R, R)] for _ in range(r.choice([0, 2, 6]))]
                    ex = [q for q in ex if not inside(x["O"], q, lift)]
                    x["extra"] = ex
                    ok &= grazing(st, x, ex) > 0.02
                if ok:
                    break
            else:
                continue
            if k % 2:
                formulate(r, st, [h[0]["n"][0], 1] if lift else h[0]["n"], turned_only=True)
            items.append(dict(scene=st, hist=h))
    judge(chk, items)
