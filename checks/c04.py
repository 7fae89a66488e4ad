"""C04: copies of layers behave as independent layers."""
import vp
import simlife as sl

Q = ["eff", "cpl", "S", "range", "four", "grid", "stress", "eps"]


def copied(h):
    made = {o[2] for o in h if o[0] == "copy"}
    used = {x for o in h if o[0] == "build" for x in o[2]}
    return bool(made & used) and any(o[0] == "query" for o in h)


def run(chk):
    r = vp.rng("C04")
    kw = dict(sims=["A"], copies="{11, 12}", dvals="{0, 1}", evals="{0, 1}", base="{1, 2, 3, 4}", stacks="SCopy", copyeps="{1}", queries=["eff", "four"])
    plan = (("SCopy", 4, 700, 150), ("SUni", 4, 250, 80))
    jobs = [lambda: sl.explore(chk, dict(kw, queries=["eff"], dvals="{0}", base="{1, 2, 3}"), workers=2)]
    for stacks, depth, nq, nw in plan:
        base = "{1, 2, 3, 5}" if stacks == "SUni" else "{1, 2, 3, 4}"
        jobs.append(lambda stacks=stacks, base=base, depth=depth: sl.histories(chk, dict(kw, stacks=stacks, base=base, queries=["eff", "four"]), depth, workers=2))
        jobs.append(lambda stacks=stacks, base=base, nw=nw: sl.histories(chk, dict(kw, sims=["A", "B"], stacks=stacks, base=base, queries=Q, dvals="{0, 1, 2}", careful=True), 13,
                                                                         num=nw if not vp.THOROUGH else 20 * nw))
    done = vp.parallel(*jobs, n=5)
    if vp.THOROUGH:
        k = dict(kw, queries=["eff"], dvals="{0}", base="{1, 2, 3}")
        sl.faults_seen(chk, [(k, "share anywhere"), (k, "share blindly")])
    ns = 12 if not vp.THOROUGH else 60
    scenes = [sl.scene(r) for _ in range(ns)]
    items = []
    for (stacks, depth, nq, nw), short, walks in zip(plan, done[1::2], done[2::2]):
        short = [h for h in short if copied(h) and h[-1][0] == "query"]
        chk.cov["short_" + stacks] = len(short)
        short.sort(key=str)
        r.shuffle(short)
        if not vp.THOROUGH:
            short = short[:nq]
        walks = [h for h in walks if copied(h)]
        chk.cov["walks_" + stacks] = len(walks)
        items += [dict(scene=r.randrange(ns), ops=h, noname=r.random() < 0.3) for h in short + walks]
    sl.replay(chk, items, scenes)
