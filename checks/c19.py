"""C19: symmetries of the structure are respected."""
import vp
from symm import formulate, gen, hists, judge, structure


def run(chk):
    r = vp.rng("C19")
    big = vp.THOROUGH
    K = 12 if big else 1
    a, b, c, d = vp.parallel(
        lambda: vp.tlc("MCSymmetry", workers=3, consts={} if not big else dict(MaxSteps=3)),
        lambda: gen("genSizes", "SymKinds", 4, 110 * K),
        lambda: gen("gen1Sizes", "MonoKinds", 4, 50 * K, seed=1),
        lambda: gen("genSizes", "SymKinds", 2, 60 * K, seed=2))
    for x in (a, b, c, d):
        chk.add_tlc(x)
    items = []
    for res, one in ((b, False), (d, False), (c, True)):
        for k, sib in enumerate(hists(res)):
            h = r.choice(sib)
            explicit = k % 3 == 0
            harm = None
            if explicit:
                box = [[i, j] for i in (-2, -1, 0, 1, 2) for j in ((-2, -1, 0, 1, 2) if not one else (0,))]
                harm = r.sample(box, r.randint(3, 5 if one else 12))
                harm = [[0, 0]] + [x for x in harm if x != [0, 0]]
            for x in h:
                x["extra"] = []
            st = structure(r, h[0]["n"], one=one, nh=(3, 5, 7, 9) if one else (5, 9, 13), harm=harm)
            if k % 2 and not (one and any(x["turn"] for x in h)):
                formulate(r, st, h[0]["n"], turned_only=not any(x["flip"] for x in h))
            items.append(dict(scene=st, hist=h))
    judge(chk, items)
