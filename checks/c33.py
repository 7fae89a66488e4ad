"""C33: layers of any thickness."""
import math

import vp
from scenes import pattern, rand_scene


def run(chk):
    r = vp.rng("C33")
    big = vp.THOROUGH
    a = vp.tlc("MCDepth", workers=4, consts=dict(MaxLayers=5, Atts="{0, 5, 6, 9, 30, 100, 180, 400}") if big else {})
    chk.add_tlc(a)
    f = vp.tlc("MCDepth", consts=dict(Transfer="TRUE"), check=False)
    if "BoundOK" not in f.violated:
        raise vp.CheckError("the faulty variant of Depth is not caught:\n" + f.out[-2000:])
    stacks = a.tagged("STACK")
    items = []
    for k in range(260 if not big else 5000):
        st = [0] + r.choice(stacks)
        while st.count(0) == len(st) and r.random() < 0.8:
            st = [0] + r.choice(stacks)
        sc = rand_scene(r, aniso=k % 3 == 0, loss=k % 5 == 0, layers=(1, 1), uniform_p=0, disc=(11, 12), nh2=(3, 5, 9), nh1=(3, 5), margin=0.03, forms=("original", "original", "tangent", "pol", "jones"))
        one = not isinstance(sc["lattice"]["basis"], list)
        N, M = (11, 1) if one else (11, 12)
        wl = sc["exc"]["wl"]
        top, pat, sub = sc["layers"]
        gap_ok = k % 4 == 3
        if gap_ok:  # total reflection: the gaps are slits of a rarer medium
            top["eps"] = round(r.uniform(4, 6), 3)
            sc["exc"]["ang"][0] = round(r.uniform(38, 70), 1)
            sc["lattice"]["basis"] = round(wl * r.uniform(0.1, 0.14), 4) if one else [[v * wl * 0.13 / math.hypot(*u) for v in u] for u in sc["lattice"]["basis"]]
            pat["eps"] = pattern(r, N, M, lo=top["eps"], hi=9)
        sub["eps"] = round(top["eps"] * r.uniform(1, 1.5), 3)
        L, lossless = [top, pat], not isinstance(pat["eps"], dict) or "im" not in pat["eps"] or not any(v for row in pat["eps"]["im"] for v in row)
        for j, x in enumerate(st[1:]):
            if x == 0:
                if r.random() < 0.5:
                    e = round(top["eps"] * r.uniform(1.05, 2), 3)
                else:  # some wave passes through it
                    e = pattern(r, N, M, lo=top["eps"], hi=top["eps"] + 3)
                d = round(wl * r.choice([0.1, 0.4, 1.3] + [40, 3000] * (k % 2)) * r.uniform(0.8, 1.2), 4)
            elif gap_ok:
                e, d = round(r.uniform(1, 1.2), 3), 0
            elif x == 30 and k % 3 == 1:  # a pattern that absorbs: at least that much
                e = pattern(r, N, M)
                e["im"] = [[round(r.uniform(0.5, 2), 3) for _ in range(M)] for _ in range(N)]
                d, lossless = 200 * wl, False
            else:
                e = r.choice([-round(r.uniform(2, 12), 3), [-round(r.uniform(2, 12), 3), round(r.uniform(0.1, 1), 3)], [round(r.uniform(1, 4), 3), round(r.uniform(0.3, 3), 3)]])
                d = 0
                lossless = lossless and not isinstance(e, list)
            L.append(dict(name=f"m{j}", d=d, eps=e))
        sc["layers"] = L + [sub]
        sc.pop("tangent_field", None)
        items.append(dict(scene=sc, stack=st, seed=k, lossless=int(lossless and sc["form"] == "original"), other=round(r.uniform(1, 9), 3), bound=int(sc["form"] == "original"), film=[round(r.uniform(-9, 9), 3), round(r.uniform(0.1, 2), 3)],
                          backend=["numpy", "numpy", "scipy", "torch", "autograd", "jax"][k % 6]))
    items.sort(key=lambda x: x["backend"])
    out = chk.driver("depth.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts, n = [], [], [], 0
    for it, o in zip(items, out):
        if o == []:
            continue
        n += 1
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], stack=it["stack"], R=[], T=[], logT=0, lossless=0, bound=0)]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(n)
    chk.sample(dict(stack=items[0]["stack"], row=rows[0]))
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "DepthTrace", rows[a:b], describe=lambda row, x: dict(event=row, item=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
