"""C08: planar multilayers agree with exact optics."""
import math
import vp
from scenes import safe_lattice


def scenario(case, inc, r, grid=None):
    """A concrete simulation of an abstract case and incidence."""
    w, psi = r.choice([((4, 0), 0), ((0, 4), 90), ((2, 2), 45), ((3, 1), 30), ((1, 3), 60), ((4, 0), 180), ((0, 4), -90)])
    phi = r.choice([0, 90, 180, 270, 30, 45, 137.5, -60, 211])
    wl = r.choice([1.0, 0.6328, 1.55, 2.0, 0.8])
    kx = case["kap"][0] / case["kap"][1]
    q0 = inc["q0"]
    stack = [dict(L) for L in case["stack"]]
    nh = 1
    if grid is None:
        grid = r.random() < 0.35
    if grid and stack:
        for L in stack:
            L["grid"] = r.random() < 0.7
    if any(L.get("grid") for L in stack):
        nh = r.choice([1, 5, 9])
    eps = [kx**2 + (q0[0] / q0[1]) ** 2, kx**2 + complex(case["sub"][0], case["sub"][1]) ** 2 / case["sub"][2] ** 2]
    eps += [kx**2 + (L["q"][0] / L["q"][1]) ** 2 for L in stack]
    lattice = safe_lattice(r, wl, kx, phi, eps, one_d=r.random() < 0.3)
    return dict(kap=case["kap"], sub=case["sub"], stack=stack, q0=q0, w=list(w), psi=psi, phi=phi, wl=wl, nh=nh,
                lattice=lattice, rep=r.choice([0, 0, 1, 2]), dtop=r.choice([0, 0, 0, 0.37]) if False else 0)


def rows_of(sc, out):
    rows = [dict(ev="medium", kap=sc["kap"], sub=sc["sub"])]
    rows += [dict(ev="layer", q=L["q"], m=L["m"], sel=L.get("sel", 0)) for L in sc["stack"]]
    m = dict(ev="measure", q0=sc["q0"], w=sc["w"], sel=0, grad=0, err="", R=0, T=0, r=[0, 0], gain=[0] * len(sc["stack"]))
    if "error" in out:
        m["err"] = out["error"]
    else:
        m.update(out)
    return rows + [m]


def run(chk):
    r = vp.rng("C08")
    res = chk.add_tlc(vp.tlc("MCPlanar", workers=4))
    cases = sorted(res.tagged("CASE"), key=str)
    short = [c for c in cases if len(c["stack"]) <= 1]
    rest = [c for c in cases if len(c["stack"]) > 1]
    r.shuffle(rest)
    n = 1300 if not vp.THOROUGH else 20000
    scs = []
    for c in short + rest[:n]:
        incs = c["inc"] if len(c["stack"]) <= 1 and vp.THOROUGH else [r.choice(c["inc"])]
        for inc in incs:
            scs.append(scenario(c, inc, r))
    if vp.THOROUGH:
        deep = chk.add_tlc(vp.tlc("MCPlanar", consts=dict(MaxLayers=7), args=["-simulate", "num=4000", "-depth", "9", "-seed", str(vp.SEED)]))
        dc = [c for c in deep.tagged("CASE") if len(c["stack"]) > 3]
        scs += [scenario(c, r.choice(c["inc"]), r) for c in dc]
    chk.assumptions += ["optical thicknesses multiple of a quarter of pi, rational normal wavenumbers",
                        "diffracted orders of constant patterned layers kept away from grazing"]
    outs = chk.driver("planar.py", dict(cases=scs), timeout=800)
    if outs is None:
        return
    rows, owner = [], []
    for sc, o in zip(scs, outs):
        rr = rows_of(sc, o)
        rows += rr
        owner += [(sc, o)] * len(rr)
    chk.sample(scs[-1])
    chk.traces(len(scs))
    vp.validate(chk, "PlanarTrace", rows, describe=lambda row, b: dict(scenario=owner[b["line"] - 1][0], observed=owner[b["line"] - 1][1]))
