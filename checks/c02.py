"""C02: a reset simulation reflects its current layers."""
import vp
import simlife as sl

Q = ["eff", "cpl", "ord", "S", "range", "four", "stress", "eps", "solve"]


def useful(h):
    """ends with a query, after a change and a reset"""
    return h[-1][0] == "query" and any(o[0] in ("setd", "sete") for o in h) and any(o[0] == "reset" for o in h)


def run(chk):
    r = vp.rng("C02")
    kw = dict(sims=["A"], copies="{}", dvals="{0, 1}", evals="{0, 1}", base="{1, 2, 3}", stacks="S3")
    sl.explore(chk, dict(kw, queries=["eff", "S", "range", "four"]))
    if vp.THOROUGH:
        k = dict(kw, queries=["eff", "S", "range", "four"])
        sl.faults_seen(chk, [(k, "parts survive"), (k, "key without start")])
    ns = 10 if not vp.THOROUGH else 60
    scenes = [sl.scene(r) for _ in range(ns)]
    short = [h for h in sl.histories(chk, dict(kw, queries=["eff", "four"]), 5) if useful(h) and h[0][0] == "build"]
    chk.cov["short_histories"] = len(short)
    short.sort(key=str)
    r.shuffle(short)
    if not vp.THOROUGH:
        short = short[:500]
    # every kind of question before and after a change and its reset
    pairs = [h for h in sl.histories(chk, dict(kw, queries=sl.ALLQ, resets=("S", "all"), script="ChangeReset"), 5) if h[2][0] == "setd" or h[3][2] == "all"]
    pairs = sl.spread(r, pairs, lambda h: (h[1][2], h[4][2], h[3][2]), 2 if not vp.THOROUGH else 12)
    chk.cov["change_and_reset"] = len(pairs)
    short += pairs
    items = [dict(scene=r.randrange(ns), ops=h) for h in short]
    wide = dict(sims=["A"], copies="{}", dvals="{0, 1, 2}", evals="{0, 1, 2}", stacks="S5", queries=Q, careful=True)
    walks = sl.histories(chk, wide, 14, num=160 if not vp.THOROUGH else 4000)
    items += [dict(scene=r.randrange(ns), ops=h) for h in walks]
    chk.assumptions += ["the permittivity of the incidence medium is not changed (it sets the incidence when the simulation is built)",
                        "outer layers and at least one pattern stay what they are: they decide the number of harmonics when the simulation is built"]
    sl.replay(chk, items, scenes)
