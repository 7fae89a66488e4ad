"""One simulation, its numbers given in many forms; answers before and after the caller overwrites some."""
import numpy as np
from rt import *
import nannos as nn

NP = dict(u8="uint8", i8="int8", i32="int32", i64="int64", f16="float16", f32="float32", f64="float64", c64="complex64", c128="complex128")
PLAIN = dict(int=int, float=float, complex=complex)
REAL = {"complex": "float", "c64": "f32", "c128": "f64", "bool": "int"}
WHOLE = {"complex": "int", "float": "int", "c64": "i64", "c128": "i64", "bool": "int", "f16": "i32", "f32": "i32", "f64": "i64"}


def backend_array(x):
    bk = nn.backend
    if nn.get_backend() == "torch":
        return bk.tensor(np.array(x, order="C"))
    return bk.array(x)


def laid_out(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "reversed":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "frozen":
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == "backend":
        return backend_array(a)
    return np.ascontiguousarray(a)


def number(v, t, how):
    """A scalar in a form."""
    if t in PLAIN:
        return PLAIN[t](v)
    x = np.dtype(NP[t]).type(v)
    if how == "0d":
        return np.array(x)
    if how == "backend":
        return backend_array(x)
    return x


def array(v, t, how):
    """An array in a form; plain types: nested lists."""
    if t in PLAIN:
        return np.array(v).astype({"int": int, "float": float, "complex": complex}[t]).tolist() if how != "tuple" else tuples(np.array(v).astype({"int": int, "float": float, "complex": complex}[t]).tolist())
    return laid_out(np.array(v).astype(NP[t]), how)


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, list) else x


def flat(x):
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for v in x for z in flat(v)]
    x = np.ravel(to_np(x))
    return [fx(v) for v in x.real] + ([fx(v) for v in x.imag] if np.iscomplexobj(x) else [])


def arrays(x):
    if isinstance(x, dict):
        return [z for v in x.values() for z in arrays(v)]
    if isinstance(x, (list, tuple)):
        return [z for v in x for z in arrays(v)]
    return [x] if hasattr(x, "shape") and len(x.shape) else []


def scratch(x):
    n = 0
    for a in arrays(x):
        try:
            if isinstance(a, np.ndarray):
                if a.flags.writeable:
                    a[...] = 3
                    n += 1
            elif hasattr(a, "zero_"):
                a.zero_()
                n += 1
        except (TypeError, RuntimeError):  # jax arrays, traced values
            pass
    return n


def make(it, plain):
    """The simulation; and the arguments it was given."""
    F = it["form"]
    args = {}

    def num(name, kinds=None):
        v, t, how = it["val"][name], F[name][0], F[name][1]
        if plain:
            return float(v) if kinds is not WHOLE else int(v)
        args[name] = number(v, (kinds or {}).get(t, t), how)
        return args[name]

    def arr(name, kinds=None):
        v, t, how = it["val"][name], F[name][0], F[name][1]
        if plain:
            a = np.array(v, dtype=complex if it["lossy"] and name in ("grid", "tensor") else float)
            if it["lossy"] and name == "grid":
                a = a + 1j * (a > 1)
            return a if name in ("grid", "tensor") else a.tolist() if kinds is not WHOLE else [int(x) for x in a] if a.ndim == 1 else a.astype(int)
        if it["lossy"] and name == "grid":  # the same numbers, all complex
            v = np.array(v) + 1j * (np.array(v) > 1)
        args[name] = array(v, (kinds or {}).get(t, t), how)
        return args[name]

    if it["one"]:
        b = num("period", REAL)
        disc = num("disc1", WHOLE)
    else:
        b = arr("basis", REAL)
        disc = arr("disc", WHOLE)
    kw = {}
    if it.get("harm"):
        kw["harmonics_array"] = arr("harm", WHOLE)
        if isinstance(kw["harmonics_array"], (list, tuple)):
            kw["harmonics_array"] = np.array(kw["harmonics_array"])
    lat = nn.Lattice(b, discretization=disc, **kw)
    top = lat.Layer("top", thickness=num("d0", REAL), epsilon=num("top", REAL))
    pat = lat.Layer("pattern", thickness=num("d1", REAL), epsilon=arr("grid"))
    uni = lat.Layer("uniform", thickness=num("d2", REAL), epsilon=num("uniform"), mu=num("mu"))
    sub = lat.Layer("bottom", epsilon=num("sub"))
    layers = [top, pat, uni, sub]
    if it["tensor"]:
        layers.insert(2, lat.Layer("crystal", thickness=num("d3", REAL), epsilon=arr("tensor")))
    pw = nn.PlaneWave(wavelength=num("wl", REAL), angles=arr("angles", REAL))
    sim = nn.Simulation(layers if it["k"] % 2 else tuple(layers), pw, nh=num("nh", WHOLE), formulation=it["f"])
    return sim, args, num, arr


def ask(sim, q, it, num, arr):
    if q == "orders":
        return sim.diffraction_efficiencies(orders=True)
    if q == "complex":
        return sim.diffraction_efficiencies(orders=True, complex=True)
    if q == "dict":
        return sim.diffraction_efficiencies(orders=True, return_dict=True)
    if q == "totals":
        return sim.diffraction_efficiencies()
    if q == "order":
        R, T = sim.diffraction_efficiencies(orders=True)
        o = arr("order", WHOLE)
        o = tuple(int(x) for x in o) if not isinstance(o, (list, tuple)) and it["k"] % 3 else tuple(o)
        o = o if not it["one"] else int(o[0])
        return [sim.get_order(R, o), sim.get_order(T, o)]
    if q == "field":
        return sim.get_field_fourier(num("index", WHOLE), num("z", REAL))
    if q == "fields":
        return sim.get_field_fourier("pattern", arr("zs", REAL))
    if q == "grid":
        return sim.get_field_grid(num("index", WHOLE), num("z", REAL))
    if q == "stress":
        return sim.get_z_stress_tensor_integral("pattern", num("z", REAL))
    if q == "eps":
        return sim.get_epsilon(num("index", WHOLE))
    if q == "constant":
        return sim.lattice.constant(num("top", REAL))
    if q == "area":
        return sim.lattice.area
    if q == "outer":  # above the stack and below it
        return [sim.get_field_fourier(0, num("above", REAL)), sim.get_field_fourier(it["last"], num("below", REAL)), sim.get_field_fourier("uniform", num("below", REAL))]
    if q == "harmonics":
        return sim.lattice.get_harmonics(num("nh", WHOLE))[0]
    if q == "transform":
        g = arr("unit", REAL)
        g = [np.asarray(to_np(x)) for x in g]
        if it["form"]["unit"][1] == "backend" or it["backend"] in ("torch", "jax"):
            g = [backend_array(x) for x in g]
        return sim.lattice.transform(tuple(g) if it["k"] % 2 else g)
    raise ValueError(q)


def snapshot(args):
    return {k: (type(v).__name__, str(getattr(v, "dtype", "")), to_np(v).tolist()) for k, v in args.items()}


def one(it):
    if nn.get_backend() != it["backend"]:
        nn.set_backend(it["backend"])
    sim, _, num, arr = make(it, True)
    right = {q: flat(ask(sim, q, it, num, arr)) for q in it["ask"]}
    rows = []
    before = {}
    try:
        sim, args, num, arr = make(it, False)
        before = snapshot(args)
        err = ""
    except CaseTimeout:
        raise
    except Exception as e:
        err = f"{type(e).__name__}: {e}"[:200]
    rows.append(dict(ev="begin", err=err, form={k: v[0] for k, v in it["form"].items()}, right=right))
    if err:
        return rows
    over = set(it["over"])
    for n in range(2):
        for q in it["ask"]:
            try:
                x = ask(sim, q, it, num, arr)
                got, err = flat(x), ""
            except CaseTimeout:
                raise
            except Exception as e:
                x, got, err = None, [], f"{type(e).__name__}: {e}"[:200]
            rows.append(dict(ev="answer", what=q, got=got, err=err))
            if n == 0 and q in over and scratch(x):
                rows.append(dict(ev="scratch", what=q))
    after = snapshot({k: v for k, v in args.items() if k in before})
    rows.append(dict(ev="kept", same=int(after == before)))
    return rows


def run(payload):
    return pmap(one, payload["items"], chunksize=20)


if __name__ == "__main__":
    main(run)
