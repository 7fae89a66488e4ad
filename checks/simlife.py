"""Common part of C01 - C04: histories of Sim replayed on the real package."""
import math
import vp
from scenes import grazing_margin

ALLQ = ["eff", "ord", "dict", "cpl", "cplsum", "S", "range", "four", "grid", "comp", "stress", "eps", "solve", "look", "oidx"]


def qset(q):
    return "{" + ", ".join('"%s"' % x for x in q) + "}"


def config(sims, copies, dvals, evals, stacks, queries, noset="{1}", copyeps="{}", fault="none", depth=0, hist=False, base="{1, 2, 3, 4, 5}", careful=False, resets=("S", "solve", "all"), script="Free", spoils="{}"):
    return f"""SPECIFICATION MSpec
CONSTANTS
  Sims = {qset(sims)}
  Base = {base}
  Copies = {copies}
  Kind <- cKind
  DVals = {dvals}
  EVals = {evals}
  Stacks <- {stacks}
  Queries = {qset(queries)}
  NoSetE = {noset}
  CopyEps = {copyeps}
  Spoils = {spoils}
  Fault = "{fault}"
  Depth = {depth}
  Resets = {qset(resets)}
  Careful = {"TRUE" if careful else "FALSE"}
  Script <- {script}
  EmitHist = {"TRUE" if hist else "FALSE"}
INVARIANT TypeOK Out
CONSTRAINT FewChanges
VIEW View
PROPERTY FreshStep
"""


TRACE = """SPECIFICATION TSpec
CONSTANTS
  Sims = {"A", "B"}
  Base = {1, 2, 3, 4, 5}
  Copies = {11, 12}
  Kind <- cKind
  DVals = {0, 1, 2}
  EVals = {0, 1, 2}
  Stacks = {}
  Queries = %s
  NoSetE = {1}
  CopyEps = {}
  Spoils = {}
  Fault = "none"
INVARIANT Fresh
""" % qset(ALLQ)


def grid(r, n, m, complex_=False):
    hi, lo = r.uniform(2, 6), r.uniform(1, 2)
    kind = r.choice(["noise", "block", "block"])
    if kind == "noise":
        g = [[round(r.uniform(1, 5), 3) for _ in range(m)] for _ in range(n)]
    else:
        a, b = sorted(r.sample(range(n + 1), 2))
        c, d = sorted(r.sample(range(m + 1), 2)) if m > 1 else (0, 1)
        g = [[hi if a <= i < b and c <= j < d else lo for j in range(m)] for i in range(n)]
        if len({v for row in g for v in row}) == 1:
            g[0][0] += 1
    out = dict(grid=g)
    if complex_:
        out["im"] = [[round(r.uniform(0, 0.3), 3) for _ in range(m)] for _ in range(n)]
    return out


def scene(r, forms=("original", "original", "original", "tangent", "pol", "jones"), one_d=None):
    for _ in range(100):
        if one_d is None:
            od = r.random() < 0.35
        else:
            od = one_d
        n, m = (12, 1) if od else (12, 12)
        top, bot, mid = [round(r.uniform(1, 2.5), 3)], [[round(r.uniform(1, 6), 3), r.choice([0, 0, 0.2])], round(r.uniform(2, 5), 3), round(r.uniform(1, 5), 3)], \
            [round(r.uniform(1, 5), 3), [round(r.uniform(2, 6), 3), 0.1], round(r.uniform(1, 5), 3)]
        cx = r.random() < 0.3
        eps = {"1": top + [round(r.uniform(2.6, 4), 3), round(r.uniform(4.2, 6), 3)], "2": bot, "5": mid[:2] + [grid(r, n, m)], "3": [grid(r, n, m, cx) for _ in range(3)], "4": [grid(r, n, m) for _ in range(3)]}
        d = {o: [v / 1000 for v in r.sample(range(50, 600), 3)] for o in ("3", "4", "5")}
        d["1"], d["2"] = [0, 0.1, 0.25], [0, 0.2, 0.3]
        a = r.uniform(0.4, 1.2)
        basis = [[a, 0.0], [0.0, 1.0]] if od else [[a * v for v in u] for u in r.choice([[[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.5, math.sqrt(3) / 2]], [[1.0, 0.1], [-0.2, 0.8]]])]
        sims = {}
        ok = True
        # how the second excitation differs from the first
        twin = r.choice(["free", "free", "free", "wavelength", "wavevector", "angles", "nh", "form"])
        for s in ("A", "B"):
            wl, th, ph = round(r.uniform(0.5, 1.5), 3), r.choice([0, 10, 35, 50]), r.choice([0, 20, 90, 140])
            ps, nh = r.choice([0, 30, 90]), r.choice([1, 3, 5, 7]) if od else r.choice([5, 7, 9])
            form = r.choice([f for f in forms if not od or f in ("original", "tangent")])
            if s == "B" and twin != "free":
                a_ = sims["A"]
                (ta, pa, qa), wa = a_["ang"], a_["wl"]
                if twin == "wavelength":
                    th, ph, ps, nh, form = ta, pa, qa, a_["nh"], a_["form"]
                elif twin == "wavevector":
                    # the same harmonics at another wavelength
                    wl = round(wa * r.uniform(0.6, 1.1 if ta else 1.5), 3)
                    sn = math.sin(math.radians(ta)) * wl / wa
                    th, ph, ps, nh, form = math.degrees(math.asin(sn)), pa, qa, a_["nh"], a_["form"]
                else:
                    wl = wa
                    th, ph, ps = (th, ph, ps) if twin == "angles" else (ta, pa, qa)
                    nh = nh if twin == "nh" else a_["nh"]
                    form = form if twin == "form" else a_["form"]
            kx = math.sqrt(top[0]) * math.sin(math.radians(th))
            media = [top[0]] + [complex(*e) if isinstance(e, list) else e for e in bot + mid]
            ok &= grazing_margin(basis, wl, kx, ph, media, one_d=od) > 0.02 and min(abs(e - kx * kx) for e in media) > 0.05
            sims[s] = dict(wl=wl, ang=[th, ph, ps], nh=nh, form=form)
        if ok:
            return dict(lattice=dict(basis=a if od else basis, disc=[n, m]), eps=eps, d=d, sims=sims)
    raise RuntimeError("no scene")


def uniform_scene(r):
    return scene(r)


def faults_seen(chk, configs):
    """Each design fault must violate the invariant in the specification (the invariant is not vacuous)."""
    for kw, fault in configs:
        res = vp.tlc("MCSim", cfg_text=config(**kw, fault=fault, depth=2), check=False, workers=4)
        if not res.violated:
            raise vp.CheckError(f"design fault {fault} is not seen by the invariant:\n" + res.out[-1500:])
        chk.add_tlc(res)


def explore(chk, kw, changes=2, workers=8):
    chk.add_tlc(vp.tlc("MCSim", cfg_text=config(**kw, depth=changes), workers=workers))


def histories(chk, kw, depth, num=None, workers=4):
    if num is None:
        res = vp.tlc("MCSim", cfg_text=config(**kw, depth=depth, hist=True), workers=workers, heap="6g")
    else:
        res = vp.tlc("MCSim", cfg_text=config(**kw, depth=depth, hist=True), args=["-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(vp.SEED)])
    chk.add_tlc(res)
    out = res.tagged("HIST")
    if num is not None:
        # a random walk prints all successors of its last state: keep one of them
        last = {}
        rr = vp.rng("walks", len(out))
        for h in sorted(out, key=str):
            last.setdefault(str(h[:-1]), []).append(h)
        out = [rr.choice(v) for v in last.values()]
    return out


def spread(r, hs, key, per):
    """At most per histories of every kind."""
    cells = {}
    for h in sorted(hs, key=str):
        cells.setdefault(key(h), []).append(h)
    return [h for c in sorted(cells, key=str) for h in r.sample(cells[c], min(per, len(cells[c])))]


def has_query(h):
    return any(op[0] == "query" for op in h)


def replay(chk, items, scenes, timeout=840):
    items = [it for it in items if has_query(it["ops"])]
    out = chk.driver("simlife.py", dict(scenes=scenes, items=items), timeout=timeout)
    if out is None:
        return
    rows, owner = [], []
    for it, evs in zip(items, out):
        if isinstance(evs, dict):
            chk.violate("history could not be replayed", dict(history=it, error=evs))
            continue
        rows += evs
        owner += [(it, k) for k in range(len(evs))]
    chk.traces(len(items))
    chk.sample(dict(history=items[-1]["ops"], scene=scenes[items[-1]["scene"]]["sims"]))

    def describe(row, b):
        it, k = owner[b["line"] - 1]
        return dict(history=it["ops"][:k], event=row, scene=scenes[it["scene"]])
    # one TLC per slice of the trace, in parallel
    import concurrent.futures as cf
    n = max(1, min(8, len(rows) // 2000))
    cuts, k = [0], 1
    starts = [j for j, e in enumerate(rows) if e["ev"] == "begin"]
    for p in range(1, n):
        c = min((s for s in starts if s >= p * len(rows) // n), default=None)
        if c and c > cuts[-1]:
            cuts.append(c)
    cuts.append(len(rows))
    with cf.ThreadPoolExecutor(8) as ex:
        def one(ab):
            return ab, vp.tlc("SimTrace", cfg_text=TRACE, files={"trace.ndjson": vp.ndjson(rows[ab[0]:ab[1]])}, timeout=600, check=False)
        for (a, b), r in ex.map(one, list(zip(cuts, cuts[1:]))):
            chk.add_tlc(r)
            stuck = vp.beyond(r, "SimTrace", b - a)
            if stuck:
                chk.violate("clause what was recorded is a behaviour of the specification", describe(rows[a + stuck - 1], dict(line=a + stuck)))
            for bad in r.tagged("BAD"):
                bad["line"] += a
                chk.violate("clause " + bad["clause"], describe(rows[bad["line"] - 1], bad))
