"""Fields across stacks: exact planar ones at every face, and walks down patterned ones."""
import math
import numpy as np
import scipy.linalg as sl
from rt import *
import nannos as nn
from scene_math import cplx, gammas, kpar

S6 = 10**6


def planar(case):
    kx = case["kap"][0] / case["kap"][1]
    q0 = case["q0"]
    sub = complex(case["sub"][0], case["sub"][1]) / case["sub"][2]
    wl, phi = case["wl"], case["phi"]
    th = math.degrees(math.asin(kx / math.sqrt(kx**2 + q0**2)))
    lat = lattice_of(nn, case["lattice"])

    def eps(q, grid=False):
        e = complex(kx * kx + q * q)
        e = e if e.imag else e.real
        return np.ones(lat.discretization) * e if grid else e
    L = [lat.Layer("top", case["dtop"] * wl, eps(q0))]
    for j, l in reversed(list(enumerate(case["stack"]))):
        q = l["q"][0] / l["q"][1]
        L.append(lat.Layer(f"L{j}", l["m"] * wl / (4 * q), eps(q, case["grids"][j])))
    L.append(lat.Layer("bottom", case["dbot"] * wl, eps(sub)))
    sim = nn.Simulation(L, nn.PlaneWave(wl, (th, phi, 90 if case["pol"] == "s" else 0)), nh=case["nh"])
    i0 = sim.get_order_index((0, 0))
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    # tangential E and H of the polarization (a downward wave has H = eta E)
    ue, uh = ((-s, c), (-c, -s)) if case["pol"] == "s" else ((c, s), (-s, c))

    def at(name, z):
        F = to_np(sim.get_field_fourier(name, z))[0, :, :, i0]
        return np.array([F[0, 0] * ue[0] + F[0, 1] * ue[1], F[1, 0] * uh[0] + F[1, 1] * uh[1]])
    ref = at("bottom", 0)[0]

    def f(name, z):
        e, h = at(name, z) / ref
        return dict(E=[fx(e.real, S6), fx(e.imag, S6)], H=[fx(h.real, S6), fx(h.imag, S6)])
    out = dict(ev="measure", err="", bottom=f("bottom", 0), top=f("top", case["dtop"] * wl), faces=[])
    for j in range(len(case["stack"])):
        d = float(sim.get_layer(f"L{j}")[0].thickness)
        out["faces"].append(dict(down=f(f"L{j}", d), up=f(f"L{j}", 0)))
    return [out]


def toeplitz(g, h):
    """Fourier coefficients of the grid at differences of harmonics, from scratch."""
    n, m = g.shape
    dx = h[:, None, :] - h[None, :, :]
    x, y = np.arange(n) / n, np.arange(m) / m
    out = {}
    M = np.zeros(dx.shape[:2], dtype=complex)
    for a in range(len(h)):
        for b in range(len(h)):
            k = tuple(dx[a, b])
            if k not in out:
                out[k] = np.sum(g * np.exp(-2j * np.pi * (k[0] * x[:, None] + k[1] * y[None, :]))) / (n * m)
            M[a, b] = out[k]
    return M


def eps_matrices(sc, L, h):
    """3x3 blocks of the permittivity over harmonics."""
    n = len(h)
    e = eps_value(L["eps"])
    I = np.eye(n)
    Z = np.zeros((n, n))
    if np.ndim(e) == 0:
        B = [[e * I if a == b else Z for b in range(3)] for a in range(3)]
    elif np.ndim(e) == 2:
        T = toeplitz(np.asarray(e), h)
        B = [[T if a == b else Z for b in range(3)] for a in range(3)]
    else:
        B = [[toeplitz(e[a, b], h) for b in range(3)] for a in range(3)]
    return B


def generator(sc, L, k, h, w):
    """d/dz (ex, ey, hx, hy) = M (ex, ey, hx, hy)   for exp(-i w t) fields, tensors without xz, yz terms."""
    n = len(h)
    e = eps_matrices(sc, L, h)
    Kx, Ky = np.diag(k[0]), np.diag(k[1])
    iz = np.linalg.inv(e[2][2])
    I, Z = np.eye(n), np.zeros((n, n))
    ez = [iz @ (Ky) / w, -iz @ (Kx) / w]      # ez = ez[0] hx + ez[1] hy
    hz = [-Ky / w, Kx / w]                    # hz = hz[0] ex + hz[1] ey
    M = np.block([
        [Z, Z, 1j * Kx @ ez[0], 1j * w * I + 1j * Kx @ ez[1]],
        [Z, Z, -1j * w * I + 1j * Ky @ ez[0], 1j * Ky @ ez[1]],
        [1j * Kx @ hz[0] - 1j * w * e[1][0], 1j * Kx @ hz[1] - 1j * w * e[1][1], Z, Z],
        [1j * Ky @ hz[0] + 1j * w * e[0][0], 1j * Ky @ hz[1] + 1j * w * e[0][1], Z, Z]])
    return M, ez, hz


def walk(item):
    sc = item["scene"]
    sim = sim_of(nn, sc)
    h = np.array(to_np(sim.harmonics)).T.astype(int)
    n = len(h)
    k = kpar(sc, h)
    w = 2 * math.pi / sc["exc"]["wl"]
    rnd = np.random.default_rng(item["seed"])
    Ls = sc["layers"]
    rows = [dict(ev="begin", err="")]
    F = []
    for j, L in enumerate(Ls):
        zs = [0.0, float(L["d"])] + sorted(rnd.uniform(0, L["d"], 2))
        F.append((zs, to_np(sim.get_field_fourier(j, zs))))
    size = max(float(np.max(np.abs(f))) for _, f in F)
    if not math.isfinite(size):
        return [dict(ev="begin", err="fields are not finite")]

    def flat(v):
        v = np.asarray(v).ravel() / size
        return [x for c in v for x in (fx(c.real, S6), fx(c.imag, S6))]
    g = gammas(sc, h)
    for j, L in enumerate(Ls):
        zs, f = F[j]
        tang = [f[q][:, :2].reshape(4, n).ravel() for q in range(4)]
        rows.append(dict(ev="enter", layer=j, f=flat(tang[0])))
        M, ez, hz = generator(sc, L, k, h, w)
        # normal components at the inner depths
        got, want = [], []
        for q in (2, 3):
            ex, ey, hx, hy = f[q][:, :2].reshape(4, n)
            got += list(f[q][0, 2]) + list(f[q][1, 2])
            want += list(ez[0] @ hx + ez[1] @ hy) + list(hz[0] @ ex + hz[1] @ ey)
        rows.append(dict(ev="normal", layer=j, f=flat(got), want=flat(want)))
        grid = isinstance(L["eps"], dict)
        if sc["form"] == "original" or not grid:
            # a step short enough for the growing waves
            z = zs[2]
            top = max(abs(np.linalg.eigvals(M).real))
            dz = min(L["d"] - z, 2.0 / max(top, 1e-9), rnd.uniform(0.3, 1) * sc["exc"]["wl"])
            v = to_np(sim.get_field_fourier(j, z + dz))[0, :, :2].reshape(4, n).ravel()
            rows.append(dict(ev="inside", layer=j, f=flat(v), want=flat(sl.expm(M * dz) @ tang[2])))
        rows.append(dict(ev="leave", layer=j, f=flat(tang[1])))
        if j in (0, len(Ls) - 1):
            up = j == 0
            gm = g[0] if up else g[1]
            inc = np.zeros((2, 3, n), dtype=complex)
            K = np.array([k[0], k[1], -gm if up else gm])
            i0 = [m for m in range(n) if not h[m].any()][0]
            for q in range(4):
                rest = np.array(f[q])
                if up:
                    th, ph, ps = (math.radians(a) for a in sc["exc"]["ang"])
                    E0 = np.array([math.cos(ps) * math.cos(th) * math.cos(ph) - math.sin(ps) * math.sin(ph),
                                   math.cos(ps) * math.cos(th) * math.sin(ph) + math.sin(ps) * math.cos(ph), -math.cos(ps) * math.sin(th)])
                    nr = math.sqrt(cplx(L["eps"]).real)
                    ki = np.array([k[0][i0], k[1][i0], gm[i0].real])
                    E0 = E0 / nr * np.exp(1j * ki[2] * zs[q])
                    rest[0, :, i0] -= E0
                    rest[1, :, i0] -= np.cross(ki, E0) / w
                # H = k x E / w, and E transverse, for every order
                want = np.cross(K.T, rest[0].T).T / w
                rows.append(dict(ev="outer", layer=j, f=flat(rest[1]), want=flat(want)))
                rows.append(dict(ev="outer", layer=j, f=flat(np.sum(K * rest[0], axis=0) / w), want=[0] * (2 * n)))
                # from the face of the stack outwards
                if q == 0:
                    first = rest
                    firstz = zs[0]
                elif not up:
                    rows.append(dict(ev="outer", layer=j, f=flat(rest), want=flat(first * np.exp(1j * gm * zs[q])[None, None])))
                else:
                    # the deepest sample of the top medium is its lower face
                    if q == 1:
                        face = rest
                        rows.append(dict(ev="outer", layer=j, f=flat(first), want=flat(face * np.exp(1j * gm * zs[1])[None, None])))
                    else:
                        rows.append(dict(ev="outer", layer=j, f=flat(rest), want=flat(face * np.exp(1j * gm * (zs[1] - zs[q]))[None, None])))
    return rows


def one(item):
    return planar(item) if "pol" in item else walk(item)


def run(payload):
    return pmap(one, payload["items"])


if __name__ == "__main__":
    main(run)
