"""C05: backend, precision, device and log-level selection."""
import json
from collections import deque
import concurrent.futures as cf
import vp

AV = '{"numpy", "scipy", "autograd", "torch", "jax"}'
LV = '{"INFO", "WARNING", "ERROR"}'
ENVS = [("", False), ("torch", False), ("jax", False), ("scipy", False), ("autograd", True), ("cupy", False), ("numpy", True), ("torch", True)]


def consts(env, gpu, fault="none"):
    return f"""CONSTANTS
  Available = {AV}
  Levels = {LV}
  EnvBackend = "{env}"
  EnvGpu = {"TRUE" if gpu else "FALSE"}
  Fault = "{fault}"
"""


def graph(env, gpu):
    r = vp.tlc("MCConfig", cfg_text="SPECIFICATION MSpec\n" + consts(env, gpu) + "INVARIANT ReportsSelection PrecisionOK DeviceOK\n")
    edges = {}
    for e in r.tagged("EDGE"):
        f, t = (json.dumps(dict(e[k], flags=sorted(e[k]["flags"])), sort_keys=True) for k in ("from", "to"))
        edges.setdefault(f, {})[json.dumps(e["op"])] = t
    s = r.tagged("START")[0]
    return r, edges, json.dumps(dict(s, flags=sorted(s["flags"])), sort_keys=True)


def tour(edges, start, wanted, r, limit):
    """A walk from start through the wanted edges (nearest first), as long as it has room."""
    left, here, ops = set(wanted), start, []
    while left and len(ops) < limit:
        prev, q, goal = {here: None}, deque([here]), None
        while q:
            u = q.popleft()
            c = [o for o in edges[u] if (u, o) in left]
            if c:
                goal = (u, r.choice(sorted(c)))
                break
            nxt = sorted(edges[u].items())
            r.shuffle(nxt)
            for o, v in nxt:
                if v not in prev:
                    prev[v] = (u, o)
                    q.append(v)
        if goal is None:
            break
        path, u = [], goal[0]
        while prev[u]:
            path.append(prev[u])
            u = prev[u][0]
        for u, o in path[::-1] + [goal]:
            ops.append(json.loads(o))
            left.discard((u, o))
            here = edges[u][o]
    return ops, left


def run(chk):
    r = vp.rng("C05")
    if vp.THOROUGH:
        for fault, env in (("keep jax", ""), ("env wins", "torch")):
            res = vp.tlc("MCConfig", cfg_text="SPECIFICATION MSpec\n" + consts(env, False, fault) + "INVARIANT ReportsSelection\n", check=False)
            if "ReportsSelection" not in res.violated:
                raise vp.CheckError(f"design fault {fault} not seen")
    plans = []
    # the same graph of selections for every environment; its edges are shared out
    (r0, edges, _), *others = vp.parallel(*[lambda e=e: graph(*e) for e in ENVS], n=8)
    chk.add_tlc(r0)
    allE = sorted((u, o) for u in edges for o in edges[u])
    r.shuffle(allE)
    k = len(ENVS)
    covered = 0
    for j, (env, gpu) in enumerate(ENVS):
        rr, ed, start = ([(r0, edges, _)] + others)[j]
        if j:
            chk.add_tlc(rr)
        mine = allE if vp.THOROUGH else allE[j::k]
        mine = [(u, o) for u, o in mine if u in ed]
        ops, left = tour(ed, start, mine, r, 150 if not vp.THOROUGH else 5000)
        covered += len(mine) - len(left)
        plans.append((env, gpu, ops))
    chk.cov["edges"] = len(allE)
    chk.cov["edges_covered"] = covered
    known = ("jax", False, [["gpu", True]])

    def one(plan):
        env, gpu, ops = plan
        e = {}
        if env:
            e["NANNOS_BACKEND"] = env
        if gpu:
            e["NANNOS_GPU"] = "1"
        return vp.run_driver("session.py", dict(ops=ops), env=e, timeout=800)
    with cf.ThreadPoolExecutor(9) as ex:
        outs = list(ex.map(one, plans + [known]))
    for (env, gpu, ops), out in zip(plans + [known], outs):
        if isinstance(out, dict):
            chk.violate("session cannot be run", dict(env=env, out=out))
            continue
        isknown = ops == known[2]

        def key(row, b):
            return "jax use_gpu(True) without a GPU" if isknown and row["op"] == ["gpu", True] else None
        cfg = "SPECIFICATION TSpec\n" + consts(env, gpu) + "INVARIANT ReportsSelection PrecisionOK\n"
        res = vp.tlc("ConfigTrace", cfg_text=cfg, files={"trace.ndjson": vp.ndjson(out)}, check=False)
        chk.add_tlc(res)
        if res.violated:
            raise vp.CheckError("ConfigTrace\n" + res.out[-3000:])
        stuck = vp.beyond(res, "ConfigTrace", len(out))
        if stuck:
            chk.violate("clause what was recorded is a behaviour of the specification", dict(env=env, gpu=gpu, event=out[stuck - 1]))
        for b in res.tagged("BAD"):
            row = out[b["line"] - 1]
            chk.violate("clause " + b["clause"], dict(env=env, gpu=gpu, before=[x["op"] for x in out[:b["line"] - 1]][-8:], event=row), key=key(row, b))
        chk.traces(1)
        chk.sample(dict(env=env, gpu=gpu, ops=ops[:12]))
    chk.assumptions += ["no GPU is present: requests for one cannot be honoured"]
