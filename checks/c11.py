"""C11: diffraction orders are accounted for consistently."""
import vp
from scenes import rand_scene


def run(chk):
    r = vp.rng("C11")
    res = chk.add_tlc(vp.tlc("MCOrders", consts={} if not vp.THOROUGH else dict(MaxAsk=4)))
    asks = sorted(res.tagged("ASK"), key=str)
    # one sequence of questions per state of the enumeration
    asks = [list(x) for x in {str(a): a for a in asks}.values()]
    r.shuffle(asks)
    n = 330 if not vp.THOROUGH else 6000
    items = []
    for k in range(n):
        sc = rand_scene(r, layers=(1, 3), loss=k % 3 == 0, aniso=k % 5 == 0, lossy_sub=k % 6 == 0, forms=("original",) * 3 + ("tangent", "pol", "jones"),
                        scale=(0.3, 2.5), nh1=(3, 5, 7, 9, 11))
        items.append(dict(scene=sc, asks=asks[k % len(asks)], seed=k))
    out = chk.driver("orders.py", dict(items=items), timeout=800)
    if out is None:
        return
    rows, owner = [], []
    for it, o in zip(items, out):
        if isinstance(o, dict):
            o = [dict(ev="table", err=o["error"])]
        rows += o
        owner += [it] * len(o)
    chk.traces(len(items))
    chk.sample(dict(items[0]["scene"], layers=[l["name"] for l in items[0]["scene"]["layers"]], asks=items[0]["asks"]))
    # parts start with a table
    starts = [k for k, e in enumerate(rows) if e["ev"] == "table"]
    cut = [starts[j * len(starts) // 6] for j in range(6)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "OrdersTrace", rows[a:b], describe=lambda row, x: dict(event=row, case=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=6)
