"""C06: all backends compute the same physics."""
import vp
import scenes

ALL = ("numpy", "scipy", "autograd", "torch", "jax")


def run(chk):
    r = vp.rng("C06")
    big = vp.THOROUGH
    K = 24 if not big else 120
    sc = []
    for k in range(K):
        one = k % 4 == 0
        form = ("original", "tangent") if one else ("original", "tangent", "jones", "pol")
        f = form[k // 4 % len(form)]
        # the direction of a tangent field that vanishes somewhere, as on the axes of a symmetric pattern, is decided
        # by rounding: such scenes are left out in two dimensions
        tan = not one and f != "original"
        sc.append(scenes.rand_scene(r, one_d=one, layers=(1, 3), forms=(f,), loss=k % 3 == 0, aniso=k % 5 == 0 and not tan, disc=r.choice([12, 13, 16]),
                                    kinds=("noise",) if tan else ("block", "steps", "noise")))
    single = [k for k, s in enumerate(sc) if s["form"] == "original" or isinstance(s["lattice"]["basis"], float)]
    a, b = vp.parallel(lambda: vp.tlc("MCBackends", workers=2), lambda: vp.tlc("MCBackends", "BackendsGen.cfg", args=["-simulate", f"num={6 if not big else 60}", "-depth", "61", "-seed", str(vp.SEED)]))
    chk.add_tlc(a), chk.add_tlc(b)
    plans = []
    for n in ALL:  # every scene with every backend, in processes of their own
        plans.append([["backend", n]] + [["solve", k] for k in range(K)])
        plans.append([["backend", n], ["bits", 32]] + [["solve", k] for k in single[::2]])
    off = 0
    for log in b.tagged("SESSION"):  # and mixed in one process
        off += 5
        plan, bits = [], 64
        for op, v in log:
            bits = v if op == "bits" else bits
            plan.append([op, v if op != "solve" else (v + off) % K if bits == 64 else single[(v + off) % len(single)]])
        plans.append(plan)
    outs = vp.parallel(*[lambda p=p: chk.driver("backends.py", dict(ops=p, scenes=sc), timeout=800) for p in plans], n=8)
    rows, owner = [], []
    for p, o in zip(plans, outs):
        for row in o or []:
            rows.append(row)
            owner.append((p, o))
    chk.traces(sum(x["ev"] == "solve" for x in rows))
    chk.sample(dict(scene=sc[0], session=plans[-1][:12]))

    def describe(row, x):
        return dict(backend=row["backend"] or row["selected"], bits=row["bits"], err=row["err"], scene=sc[row["scene"]] if "scene" in row else None)
    ref = [row for row in outs[0] or [] if row["ev"] == "solve"]
    rest = [(row, own) for row, own in zip(rows, owner)][len(outs[0] or []):]
    P = 4

    def judge(part):
        own = ref + [row for row, _ in part]
        vp.validate(chk, "BackendsTrace", own, describe=describe)
    vp.parallel(*[lambda k=k: judge(rest[k * len(rest) // P:(k + 1) * len(rest) // P]) for k in range(P)], n=P)
