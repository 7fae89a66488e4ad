"""Choice of numerical parameters for abstract scenes: lattices away from grazing diffraction orders."""
import cmath
import math

BASES = [[[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.5, math.sqrt(3) / 2]], [[1.0, 0.0], [0.3, 1.1]], [[0.8, 0.6], [-0.6, 0.8]],
         [[1.3, 0.2], [-0.1, 0.9]]]


def reciprocal(basis):
    (a, b), (c, d) = basis
    det = a * d - b * c
    f = 2 * math.pi / det
    # rows: K1, K2 with u_i . K_j = 2 pi delta_ij
    return [[d * f, -c * f], [-b * f, a * f]]


def grazing_margin(basis, wl, kx, phi, eps, orders=4, one_d=False):
    """min over orders and media of |eps - |k_par|^2| (in units of k0^2)."""
    K = reciprocal(basis)
    k0 = 2 * math.pi / wl
    cx, cy = kx * math.cos(math.radians(phi)), kx * math.sin(math.radians(phi))
    m = 1e9
    for i in range(-orders, orders + 1):
        for j in range(-orders, orders + 1) if not one_d else (0,):
            if i == 0 and j == 0:
                continue
            px = cx + (i * K[0][0] + j * K[1][0]) / k0
            py = cy + (i * K[0][1] + j * K[1][1]) / k0
            for e in eps:
                m = min(m, abs(e - px * px - py * py))
    return m


def safe_lattice(r, wl, kx, phi, eps, one_d=False, disc=(12, 12), margin=0.02, scale=(0.3, 1.6)):
    for _ in range(200):
        s = wl * r.uniform(*scale)
        if one_d:
            basis = [[s, 0.0], [0.0, 1.0]]
            if grazing_margin(basis, wl, kx, phi, eps, one_d=True) > margin:
                return dict(basis=s, disc=[disc[0], 1])
        else:
            basis = [[s * v for v in u] for u in r.choice(BASES)]
            if grazing_margin(basis, wl, kx, phi, eps) > margin:
                return dict(basis=basis, disc=list(disc))
    raise RuntimeError("no lattice")


def pattern(r, n, m, lo=1.0, hi=6.0, loss=0.0, kinds=("block", "steps", "noise")):
    """A permittivity grid (n x m): a block, random steps, or noise; never uniform."""
    kind = r.choice(kinds)
    a, b = round(r.uniform(lo, (lo + hi) / 2), 3), round(r.uniform((lo + hi) / 2, hi), 3)
    if kind == "block":
        p, q = sorted(r.sample(range(n + 1), 2))
        u, v = sorted(r.sample(range(m + 1), 2)) if m > 1 else (0, 1)
        g = [[b if p <= i < q and u <= j < v else a for j in range(m)] for i in range(n)]
    elif kind == "steps":
        g = [[r.choice([a, b]) for j in range(m)] for i in range(n)]
    else:
        g = [[round(r.uniform(lo, hi), 3) for j in range(m)] for i in range(n)]
    if len({v for row in g for v in row}) == 1:
        g[0][0] = round(b - a + 1.3, 3) if g[0][0] == a else a
    out = dict(grid=g)
    if loss:
        out["im"] = [[round(r.uniform(0, loss), 3) for _ in range(m)] for _ in range(n)]
    return out


def tensor_pattern(r, n, m, full=False):
    """Hermitian positive permittivity tensor on a grid, block diagonal (x, y) + z."""
    z = [[0.0] * m for _ in range(n)]
    def re(lo, hi):
        return [[round(r.uniform(lo, hi), 3) for _ in range(m)] for _ in range(n)]
    xx, yy, zz = re(2, 4), re(2, 4), re(1.5, 4)
    xy, g = re(-0.6, 0.6), re(-0.6, 0.6)
    ng = [[-v for v in row] for row in g]
    return dict(tgrid=[[[xx, z], [xy, g], [z, z]], [[xy, ng], [yy, z], [z, z]], [[z, z], [z, z], [zz, z]]])


def rand_scene(r, *, one_d=None, layers=(1, 4), disc=12, forms=("original",), nh2=(5, 7, 9, 13), nh1=(3, 5, 7, 9), loss=False, aniso=False,
               pure=None, zero_outer=False, margin=0.02, lossy_sub=False, scale=(0.3, 1.6), uniform_p=0.35, normal_p=0.25, bases=None,
               kinds=("block", "steps", "noise"), generic=False):
    """A random stack between uniform media, away from grazing orders (JSON for rt.sim_of).

    generic: incidence that no symmetry of the lattice leaves alone (no two orders of the same wavenumber)."""
    for _ in range(500):
        od = r.random() < 0.3 if one_d is None else one_d
        n, m = (disc, disc) if isinstance(disc, int) else disc
        m = 1 if od else m
        wl = round(r.uniform(0.4, 1.6), 3)
        e0, e1 = round(r.uniform(1, 3), 3), round(r.uniform(1, 6), 3)
        if lossy_sub and r.random() < 0.5:
            e1 = [e1 * r.choice([1, -1]), round(r.uniform(0.1, 2), 3)]
        th = 0 if r.random() < normal_p else round(r.uniform(-70, 80), 1)
        ph = r.choice([0, 0, 90, 180, 30, 45, round(r.uniform(-180, 360), 1)])
        ps = r.choice([0, 90, 45, round(r.uniform(-90, 180), 1)]) if pure is None else r.choice(pure)
        if generic:
            th, ph = r.choice([-1, 1]) * round(r.uniform(8, 70), 1), r.choice([0, 90, 180, 270]) + round(r.uniform(4, 28), 1)
        kx = math.sqrt(e0) * math.sin(math.radians(th))
        L, media = [], [e0, complex(*e1) if isinstance(e1, list) else e1]
        for j in range(r.randint(*layers)):
            d = round(r.uniform(0.02, 0.7) * wl, 4)
            ls = loss and r.random() < 0.6
            if r.random() < uniform_p:
                e = round(r.uniform(1, 6), 3)
                e = [e, round(r.uniform(0.05, 1), 3)] if ls else e
                media.append(complex(*e) if isinstance(e, list) else e)
            elif aniso and not ls and r.random() < 0.35:
                e = tensor_pattern(r, n, m)
            else:
                e = pattern(r, n, m, loss=0.8 if ls else 0, kinds=kinds)
            L.append(dict(name=f"l{j}", d=d, eps=e))
        if not any(isinstance(x["eps"], dict) for x in L):
            L[r.randrange(len(L))]["eps"] = pattern(r, n, m, kinds=kinds)
        s = round(wl * r.uniform(*scale), 4)
        if od:
            basis = [[s, 0.0], [0.0, 1.0]]
        else:
            basis = [[s * v for v in u] for u in r.choice(bases or BASES)]  # not rounded: shells of harmonics stay tied
        if grazing_margin(basis, wl, kx, ph, media, one_d=od) < margin or min(abs(e - kx * kx) for e in media) < margin:
            continue
        form = r.choice([f for f in forms if not od or f in ("original", "tangent")])
        if od and any(isinstance(x["eps"], dict) and "tgrid" in x["eps"] for x in L):
            form = "original"
        douter = [0, 0] if zero_outer else [r.choice([0, 0, round(r.uniform(0.05, 0.5), 3)]) for _ in range(2)]
        return dict(lattice=dict(basis=s if od else basis, disc=[n, m]), exc=dict(wl=wl, ang=[th, ph, ps]), nh=r.choice(nh1 if od else nh2), form=form,
                    layers=[dict(name="top", d=douter[0], eps=e0)] + L + [dict(name="bottom", d=douter[1], eps=e1)])
    raise RuntimeError("no scene")


def is_lossless(sc):
    for L in sc["layers"]:
        e = L["eps"]
        if isinstance(e, list) and e[1] or isinstance(e, dict) and "im" in e:
            return False
    return True
