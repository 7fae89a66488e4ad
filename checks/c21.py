"""C21: invalid input is rejected, valid input accepted."""
import vp


def run(chk):
    r = vp.rng("C21")
    big = vp.THOROUGH
    a, b = vp.parallel(lambda: vp.tlc("MCValidation", workers=4),
                       lambda: vp.tlc("MCValidation", "ValidationGen.cfg", args=["-simulate", f"num={170 if not big else 3000}", "-depth", "14", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    items = [dict(x, again=[r.random() < 0.3 for _ in x["calls"]]) for x in b.tagged("SESSION")]
    tc, ag, jx = [[dict(it, calls=[c for c in it["calls"] if c[0] not in ("gradient", "backend")]) for it in r.sample(items, min(len(items), n if not big else 10 * n))] for n in (8, 12, 4)]
    todo = [(items, "numpy"), (tc, "torch"), (ag, "autograd"), (jx, "jax")]
    outs = vp.parallel(*[lambda its=its, bk=bk: chk.driver("validation.py", dict(items=its, procs=5 if bk == "numpy" else 1), env=dict(VALIDATION_BACKEND=bk), timeout=800) for its, bk in todo])
    rows, owner = [], []
    for (its, bk), o in zip(todo, outs):
        for it, x in zip(its, o or []):
            if isinstance(x, dict):
                chk.violate("a valid session could not be opened", dict(session=it["s"], backend=bk, error=x["error"]))
                continue
            rows += x
            owner += [dict(session=it["s"], backend=bk)] * len(x)
    chk.traces(len(rows))
    chk.sample(items[0])
    vp.validate(chk, "ValidationTrace", rows, describe=lambda row, x: dict(call=row["c"], raised=row["msg"], **owner[x["line"] - 1]))
