"""C03: simulations sharing layers do not interfere."""
import vp
import simlife as sl

Q = ["eff", "cpl", "dict", "S", "range", "four", "grid", "stress", "eps", "solve"]


def both(h):
    return h[-1][0] == "query" and len({o[1] for o in h if o[0] == "query"}) == 2


def run(chk):
    r = vp.rng("C03")
    kw = dict(sims=["A", "B"], copies="{}", dvals="{0}", evals="{0}", base="{1, 2, 3}", stacks="S3")
    sl.explore(chk, dict(kw, queries=["eff", "S", "four"], spoils="{3}"))
    if vp.THOROUGH:
        sl.faults_seen(chk, [(dict(kw, queries=["eff", "four"]), "flag only"), (dict(kw, queries=["eff", "four"], spoils="{3}"), "attempts go unnoticed")])
    ns = 12 if not vp.THOROUGH else 60
    scenes = [sl.scene(r) for _ in range(ns)]
    short = [h for h in sl.histories(chk, dict(kw, queries=["eff", "four", "S"], resets=()), 6) if both(h) and h[0][0] == "build"]
    chk.cov["short_histories"] = len(short)
    short.sort(key=str)
    r.shuffle(short)
    if not vp.THOROUGH:
        short = short[:600]
    trios = sl.histories(chk, dict(kw, queries=["eff", "cpl", "ord", "range", "four", "grid", "stress", "S"], resets=(), script="TwoSims"), 5)
    trios = sl.spread(r, trios, lambda h: (h[2][2], h[3][2], h[4][2]), 2 if not vp.THOROUGH else 10)
    chk.cov["in_turn"] = len(trios)
    short += trios
    # another simulation over the same layers fails on its way
    tries = sl.histories(chk, dict(kw, sims=["A"], base="{1, 2, 3, 5}", stacks="S4", queries=["eff", "cpl", "range", "four", "grid", "stress", "S"], resets=(), script="Attempts", spoils="{2, 3, 5}"), 5)
    tries = sl.spread(r, tries, lambda h: (h[1][2], h[3][2], h[2][1]), 1 if not vp.THOROUGH else 10)
    chk.cov["failed_attempts"] = len(tries)
    short += tries
    items = [dict(scene=r.randrange(ns), ops=h) for h in short]
    wide = dict(sims=["A", "B"], copies="{}", dvals="{0, 1}", evals="{0, 2}", stacks="S2", queries=Q, careful=True, spoils="{3, 5}")
    walks = sl.histories(chk, wide, 14, num=110 if not vp.THOROUGH else 4000)
    items += [dict(scene=r.randrange(ns), ops=h) for h in walks]
    sl.replay(chk, items, scenes)
