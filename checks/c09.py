"""C09: equivalent stacks give equal answers."""
import vp
from scenes import rand_scene, pattern, tensor_pattern


def hists(res):
    out = {}
    for h in res.tagged("HIST"):
        out.setdefault(str(h[:-1]), []).append(h)
    return [v for _, v in sorted(out.items())]


def run(chk):
    r = vp.rng("C09")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCRewrite", workers=4, consts={} if not big else dict(MaxSteps=3)),
                       lambda: vp.tlc("MCRewrite", "RewriteGen.cfg", args=["-simulate", f"num={230 if not big else 4000}", "-depth", "8", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    items = []
    for k, sib in enumerate(hists(b)):
        h = r.choice(sib)
        aniso = k % 4 == 0
        loss = k % 3 == 0
        sc = rand_scene(r, layers=(1, 1), lossy_sub=k % 5 == 0, forms=("original",) * 3 + ("tangent", "pol", "jones"), nh2=(5, 9, 13), scale=(0.4, 1.8))
        n, m = sc["lattice"]["disc"]
        uni = [round(r.uniform(1, 6), 3), [round(r.uniform(1, 6), 3), round(r.uniform(0.05, 1), 3)] if loss else round(r.uniform(1, 3), 3)]
        if loss and r.random() < 0.5:
            # media that differ by their absorption only, inside the stack or from the outer ones
            uni[0] = r.choice([uni[0], sc["layers"][0]["eps"]])
            uni[1][0] = uni[0]
        # the materials must not put an order of the lattice at grazing incidence in a layer
        pat = [pattern(r, n, m, loss=0.7 if loss else 0), tensor_pattern(r, n, m) if aniso and m > 1 and sc["form"] == "original" else pattern(r, n, m)]
        scene = dict(lattice=sc["lattice"], exc=sc["exc"], nh=sc["nh"], form=sc["form"], ends=[sc["layers"][0]["eps"], sc["layers"][-1]["eps"]], mats=uni + pat,
                     unit=round((r.uniform(0.03, 0.25) if k % 3 else r.uniform(0.0005, 0.008)) * sc["exc"]["wl"], 5))
        items.append(dict(scene=scene, hist=h))
    out = chk.driver("rewrite.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="structure", err=o["error"], obs=[], stack=[], outer=[0, 0])]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(dict(hist=items[0]["hist"]))
    P = 5
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "RewriteTrace", rows[a:b], describe=lambda row, x: dict(event={k: v for k, v in row.items() if k != "obs"}, scene=owner[a + x["line"] - 1]["scene"], first=owner[a + x["line"] - 1]["hist"][0])) for a, b in zip(cut, cut[1:])], n=P)
