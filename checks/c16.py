"""C16: parallel loops keep order and lose nothing."""
import vp


def run(chk):
    r = vp.rng("C16")
    big = vp.THOROUGH
    a = chk.add_tlc(vp.tlc("MCPar", workers=2, consts={} if not big else dict(MaxTasks=6, MaxWorkers=4), timeout=900))
    runs = a.tagged("RUN")
    # the same loop with other failures among tasks that never started
    uniq = {}
    for x in runs:
        uniq[str(x)] = x
    runs = [uniq[k] for k in sorted(uniq)]
    r.shuffle(runs)
    runs = runs[:900 if not big else 20000]

    def item(x, mode, k):
        vals = r.sample(range(1, 30), x["n"]) if r.random() < 0.8 else list(range(3, 3 + x["n"]))
        cont = r.choice(["list", "list", "tuple", "array", "gen", "range"])
        if cont == "range":
            vals = list(range(3, 3 + x["n"]))
        if cont in ("range", "array") and not vals:
            cont = "list"
        if r.random() < 0.08 and x["n"] > 1 and not x["fails"] and cont != "range":  # equal arguments
            vals[1] = vals[0]
        return dict(id=k, args=vals, fails=[vals[p - 1] for p in x["fails"]], order=x["order"], jobs=x["workers"], mode=mode,
                    prefer="threads" if mode == "threads" else r.choice([None, "processes"]), a=r.choice([0, 3]), b=r.choice([0, 7]), container=cont,
                    ret=r.choice(["int", "int", "tuple", "array", "dict"]))
    th = [item(x, "threads", k) for k, x in enumerate(runs)]
    pr = [item(x, "processes", k) for k, x in enumerate(sorted(runs, key=lambda x: -x["n"])[:24 if not big else 300])]
    for it in pr + th[:20]:
        if r.random() < 0.15:
            it["jobs"] = r.choice([-1, 8])
    for it in th:
        # more tasks than the model had: several rounds of the workers
        if not it["fails"] and r.random() < 0.1:
            n = r.randint(8, 40)
            it["args"], it["order"] = r.sample(range(1, 90), n), []
            it["container"] = "list"
    outs = vp.parallel(lambda: chk.driver("par.py", dict(items=th, procs=6), timeout=800),
                       lambda: chk.driver("par.py", dict(items=pr, procs=1), timeout=800))
    rows, owner = [], []
    for its, o in zip((th, pr), outs):
        for it, x in zip(its, o or []):
            if "outcome" not in x:
                x = dict(outcome="stuck" if "CaseTimeout" in x["error"] else x["error"], res=[], exc=-1, starts=[], extras=[], late=0, **{k: it[k] for k in ("args", "fails", "a", "b", "order", "jobs")})
            rows.append(x)
            owner.append(it)
    chk.traces(len(rows))
    chk.sample(dict(loop=owner[0], late=sum(x["late"] for x in rows)))
    vp.validate(chk, "ParTrace", rows, describe=lambda row, x: dict(event=row, case=owner[x["line"] - 1]))
