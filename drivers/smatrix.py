"""Scattering matrices of ranges: exact uniform stacks, and composition for any stack."""
import math
import numpy as np
from rt import *
import nannos as nn


def exact(case):
    kx = case["kap"][0] / case["kap"][1]
    wl, phi = case["wl"], case["phi"]
    qs = [complex(L["q"][0], L["q"][1]) / L["q"][2] for L in case["stack"]]
    q0 = qs[0]
    theta = math.degrees(math.asin(min(1.0, kx / math.sqrt((kx * kx + q0 * q0).real))))
    lattice = lattice_of(nn, case["lattice"])
    layers = []
    for j, (q, L) in enumerate(zip(qs, case["stack"])):
        e = kx * kx + q * q
        d = 0 if L["m"] == 0 else L["m"] * wl / (4 * q.real)
        layers.append(lattice.Layer(f"L{j}", thickness=d, epsilon=e if e.imag else e.real))
    sim = nn.Simulation(layers, nn.PlaneWave(wavelength=wl, angles=(theta, phi, 20)), nh=1)
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    dirs = {"s": np.array([c, s]), "p": np.array([-s, c])}
    out = []
    for a, b in case["ranges"]:
        try:
            M = sim.get_S_matrix(indices=(a - 1, b - 1))
            S = {}
            for p, u in dirs.items():
                v = [u @ to_np(M[i][j]) @ u for i, j in ((0, 0), (0, 1), (1, 0), (1, 1))]
                S[p] = [[fx(x.real), fx(x.imag)] for x in v]
            out.append(dict(err="", S=S))
        except Exception as e:
            out.append(dict(err=f"{type(e).__name__}: {e}"[:200], S={}))
    return out


def star(A, B):
    (a11, a12), (a21, a22) = A
    (b11, b12), (b21, b22) = B
    D = np.eye(len(a11)) - a12 @ b21
    up, dn = np.linalg.solve(D, a11), np.linalg.solve(D, a12 @ b22)
    return np.block([[b11 @ up, b12 + b11 @ dn], [a21 + a22 @ b21 @ up, a22 @ (b22 + b21 @ dn)]])


def mats(M):
    return [[to_np(M[i][j]) for j in range(2)] for i in range(2)]


def power(sim, sc, layer):
    """Power form of the in-plane magnetic amplitudes (hx.., hy..) of the propagating orders of an outer medium, from scratch."""
    B = np.array(sim.lattice.basis_vectors, dtype=float)
    K = 2 * math.pi * np.linalg.inv(B)  # columns: reciprocal vectors
    wl, (th, ph, _) = sc["exc"]["wl"], sc["exc"]["ang"]
    k0 = 2 * math.pi / wl
    n0 = math.sqrt(sc["layers"][0]["eps"])
    kin = k0 * n0 * math.sin(math.radians(th)) * np.array([math.cos(math.radians(ph)), math.sin(math.radians(ph))])
    h = np.array(to_np(sim.harmonics), dtype=float)
    k = kin[:, None] + K @ h
    eps = cplx(layer["eps"])
    q = np.sqrt(eps * k0**2 - k[0] ** 2 - k[1] ** 2 + 0j)
    nh = len(q)
    prop = [i for i in range(nh) if abs(q[i].imag) < 1e-9 * k0]
    W = np.zeros((2 * nh, 2 * nh), dtype=complex)
    for i in prop:
        Z = (k0**2 * np.eye(2) - np.array([[k[1, i] ** 2, -k[0, i] * k[1, i]], [-k[0, i] * k[1, i], k[0, i] ** 2]]) / eps) / (k0 * q[i])
        W[np.ix_([i, i + nh], [i, i + nh])] = Z
    idx = prop + [i + nh for i in prop]
    return W[np.ix_(idx, idx)], idx


def compose(sc):
    sim = sim_of(nn, sc)
    n = len(sim.layers) - 1
    rng = np.random.default_rng(sc["seed"])
    asks = [(i, j) for i in range(n + 1) for j in range(i, n + 1)]
    rng.shuffle(asks)
    whole_first = bool(rng.integers(2))
    if whole_first:
        whole = mats(sim.get_S_matrix())
    S = {tuple(a): mats(sim.get_S_matrix(indices=tuple(int(v) for v in a))) for a in asks}
    if not whole_first:
        whole = mats(sim.get_S_matrix())
    cuts = []
    for i in range(n + 1):
        for j in range(i, n + 1):
            M = np.block(S[i, j])
            size = float(np.max(np.abs(M)))
            for k in range(i, j + 1):
                off = float(np.max(np.abs(star(S[i, k], S[k, j]) - M))) / max(1.0, size)
                cuts.append(dict(ev="cut", err="", a=i, k=k, b=j, off=abs(fx(off)), size=fx(size, 1000)))
    W = dict(ev="whole", err="", same=fx(np.max(np.abs(np.block(whole) - np.block(S[0, n])))),
             id=fx(max(np.max(np.abs(np.block(S[i, i]) - np.eye(4 * sim.nh))) for i in range(n + 1))))
    R, T = sim.diffraction_efficiencies()
    W["R"], W["T"] = fx(R), fx(T)
    P0, i0 = power(sim, sc, sc["layers"][0])
    lossless_sub = not isinstance(sc["layers"][-1]["eps"], list)
    a0 = to_np(sim.a0)
    z = len(a0)
    b = whole[1][0] @ a0
    a = whole[0][0] @ a0
    inc = (a0[i0].conj() @ P0 @ a0[i0]).real
    W["sR"] = fx((b[i0].conj() @ P0 @ b[i0]).real / inc)
    W["lossless"], W["unit"], W["sT"] = 0, 0, W["T"]
    if lossless_sub:
        P1, i1 = power(sim, sc, sc["layers"][-1])
        W["sT"] = fx((a[i1].conj() @ P1 @ a[i1]).real / inc) if i1 else 0
        if sc["lossless"]:
            W["lossless"] = 1
            M = np.block(whole)
            ins = i0 + [v + z for v in i1]
            outs = i1 + [v + z for v in i0]
            win = np.block([[P0, np.zeros((len(i0), len(i1)))], [np.zeros((len(i1), len(i0))), P1]])
            wout = np.block([[P1, np.zeros((len(i1), len(i0)))], [np.zeros((len(i0), len(i1))), P0]])
            m = M[np.ix_(outs, ins)]
            W["unit"] = fx(np.max(np.abs(m.conj().T @ wout @ m - win)) / np.max(np.abs(win)))
    return cuts + [W]


def one(item):
    return exact(item) if "ranges" in item else compose(item)


def run(payload):
    return pmap(one, payload["cases"])


if __name__ == "__main__":
    main(run)
