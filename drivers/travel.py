"""Histories of duplicated simulations; a second process takes part through pickles."""
import copy
import gc
import os
import pickle
import struct
import subprocess
import sys
import numpy as np
from rt import *
import nannos as nn
from simlife import ask as answer_of, same

SERVER = None


def serve():
    nn.set_backend(sys.argv[2])
    out, inp = os.fdopen(os.dup(1), "wb"), sys.stdin.buffer
    os.dup2(2, 1)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        try:
            sims, s, q, a, b, v, back = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
            x = answer_of(sims[s], q, a, b, v)
            r = pickle.dumps(("", x, sims if back else None))
        except Exception as e:
            r = pickle.dumps((f"{type(e).__name__}: {e}"[:200], None, None))
        out.write(struct.pack("<q", len(r)) + r)
        out.flush()


def remote(*job):
    """Ask a simulation in another process; maybe take it back."""
    global SERVER
    if SERVER is None or SERVER.poll() is not None:
        SERVER = subprocess.Popen([sys.executable, os.path.abspath(__file__), "serve", nn.get_backend()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    d = pickle.dumps(job)
    SERVER.stdin.write(struct.pack("<q", len(d)) + d)
    SERVER.stdin.flush()
    r = pickle.loads(SERVER.stdout.read(struct.unpack("<q", SERVER.stdout.read(8))[0]))
    if r[0]:
        raise RuntimeError("in the other process: " + r[0])
    return r[1:]


class Scene:
    def __init__(self, sc):
        self.sc = sc
        self.maps = [eps_value(e) for e in sc["eps"]["3"]]
        self.uni = [eps_value(e) for e in sc["eps"]["2"]]
        self.thick = sc["d"]["3"]

    def layers(self, vec):
        lat = lattice_of(nn, self.sc["lattice"])
        e, d, u = vec
        m = lat.Layer("map", thickness=self.thick[0], epsilon=np.array(self.maps[0]), tangent_field_type=self.sc.get("tangent", "opt"))
        out = [lat.Layer("over", epsilon=eps_value(self.sc["eps"]["1"][0])), m,
               lat.Layer("film", thickness=self.sc["d"]["5"][0], epsilon=eps_value(self.sc.get("film", self.sc["eps"]["5"][0])))]
        if self.sc.get("twin"):
            out.append(m.copy("twin"))
        if e:
            m.epsilon = nn.backend.array(self.maps[e], dtype=nn.get_types()[1])
        m.thickness = self.thick[d]
        return out + [lat.Layer("under", epsilon=self.uni[u])]

    def sims(self, layers, names):
        out = {}
        for s in names:
            p = self.sc["sims"][s]
            out[s] = nn.Simulation(list(layers), nn.PlaneWave(wavelength=p["wl"], angles=tuple(p["ang"])), nh=p["nh"], formulation=p["form"])
        return out

    def held(self, layers):
        """Which versions the layers hold."""
        is_ = lambda v, x: np.shape(v) == np.shape(to_np(x)) and np.array_equal(np.asarray(v, dtype=complex), to_np(x))
        f = lambda vals, x: next((k for k, v in enumerate(vals) if is_(v, x)), -1)
        return [f(self.maps, layers[1].epsilon), f(self.thick, layers[1].thickness), f(self.uni, layers[-1].epsilon)]


_SCENES = None
_FRESH = {}


def fresh(k, s, vec, q, a, b, v):
    key = (nn.get_backend(), k, s, tuple(vec), q, a, b, v)
    if key not in _FRESH:
        sc = Scene(_SCENES[k])
        _FRESH[key] = answer_of(sc.sims(sc.layers(vec), [s])[s], q, a, b, v)
    return _FRESH[key]


def duplicate(sc, sims, how):
    if how == "deepcopy":
        return copy.deepcopy(sims)
    if how.startswith("pickle"):
        return pickle.loads(pickle.dumps(sims, int(how[6:])))
    if how == "cloudpickle":
        import cloudpickle
        return cloudpickle.loads(cloudpickle.dumps(sims))
    if how == "process":
        s = sorted(sims)[-1]
        return remote(sims, s, "eff", 1, 2, 0, True)[1]
    ls = sims[sorted(sims)[0]].layers
    if how == "layers":
        ls = copy.deepcopy(ls)
    elif how == "copies":
        ls = [l.copy() for l in ls]
    elif how == "pieces":
        # lattice, layers and waves, packed in one parcel
        ls, waves = pickle.loads(pickle.dumps((ls, {s: x.excitation for s, x in sims.items()})))
        return {s: nn.Simulation(ls, waves[s], nh=sims[s].nh0, formulation=sims[s].formulation) for s in sims}
    else:
        raise ValueError(how)
    return sc.sims(ls, sims)


def history(item):
    global SERVER
    if nn.get_backend() != item["backend"]:
        nn.set_backend(item["backend"])
        if SERVER is not None:
            SERVER.kill()
            SERVER.wait()
            SERVER = None
    k = item["scene"]
    sc = Scene(_SCENES[k])
    groups, ev, seen = {}, [dict(ev="begin")], [[0, 0, 0]]
    asked = 0
    for op in item["ops"]:
        name = op[0]
        e = dict(ev=name, err="", g=op[1])
        ev.append(e)
        try:
            if name == "build":
                e["sims"] = op[2]
                groups[op[1]] = sc.sims(sc.layers([0, 0, 0]), op[2])
            elif name == "set":
                _, g, l, v = op
                e.update(l=l, v=v)
                layers = groups[g][sorted(groups[g])[0]].layers
                if l == 1:
                    layers[1].epsilon = nn.backend.array(sc.maps[v], dtype=nn.get_types()[1])
                elif l == 2:
                    layers[1].thickness = sc.thick[v]
                else:
                    layers[-1].epsilon = sc.uni[v]
                for s in groups[g].values():
                    s.reset("all")
                vec = sc.held(layers)
                if vec not in seen:
                    seen.append(vec)
            elif name == "dup":
                _, g, h, S, how = op
                e.update(h=h, sims=S, kind="deepcopy")
                groups[h] = duplicate(sc, {s: groups[g][s] for s in S}, how)
            elif name == "drop":
                del groups[op[1]]
                gc.collect()
            elif name == "ask":
                _, g, s, q, a, b, v, there = op
                e.update(s=s, match=[], held=sc.held(groups[g][s].layers))
                got = remote(groups[g], s, q, a, b, v, False)[0] if there else answer_of(groups[g][s], q, a, b, v)
                asked += 1
                for vec in [e["held"]] + [x for x in seen if x != e["held"]][:5]:
                    if -1 not in vec and same(got, fresh(k, s, vec, q, a, b, v)):
                        e["match"].append(vec)
                        break
        except CaseTimeout:
            if SERVER is not None:  # it may still be busy with that
                SERVER.kill()
                SERVER.wait()
                SERVER = None
            raise
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
            if name in ("build", "dup", "set"):
                break
            e.setdefault("match", [])
            e.setdefault("held", [])
    return ev


def run(payload):
    global _SCENES
    _SCENES = payload["scenes"]
    return pmap(history, payload["items"])


if __name__ == "__main__":
    if sys.argv[1:2] == ["serve"]:
        serve()
    else:
        main(run)
