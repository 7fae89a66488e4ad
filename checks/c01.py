"""C01: answers do not depend on what was asked before."""
import vp
import simlife as sl


def run(chk):
    r = vp.rng("C01")
    kw = dict(sims=["A"], copies="{}", dvals="{0}", evals="{0}", stacks="S1", queries=sl.ALLQ)
    _, pairs, long = vp.parallel(lambda: sl.explore(chk, kw, workers=2), lambda: sl.histories(chk, kw, 3, workers=2),
                                 lambda: sl.histories(chk, kw, 10, num=220 if not vp.THOROUGH else 6000))
    if vp.THOROUGH:
        sl.faults_seen(chk, [(kw, "key without start")])
    ns = 12 if not vp.THOROUGH else 60
    scenes = [sl.scene(r) for _ in range(ns)]
    pairs.sort(key=str)
    r.shuffle(pairs)
    items = [dict(scene=r.randrange(ns), ops=h) for h in pairs]
    if vp.THOROUGH:
        items += [dict(scene=r.randrange(ns), ops=h) for h in pairs * 2]
    items += [dict(scene=r.randrange(ns), ops=h) for h in long]
    chk.cov["exhaustive_pairs"] = len(pairs)
    chk.assumptions += ["answers compared with those of independently built simulations up to 1e-8"]
    sl.replay(chk, items, scenes)
