"""Tasks in real threads, stopped and resumed at the lines of the package as a schedule says."""
import os
import sys
import threading
import numpy as np
from rt import *
import nannos as nn

S6 = 10**6
HERE = os.path.dirname(os.path.realpath(nn.__file__)) + os.sep


class Baton:
    """One thread runs at a time; slices: (task, line count up to which it runs)."""

    def __init__(self, n, slices):
        self.slices, self.k = slices, 0
        self.lines, self.gone = [0] * n, set()
        self.free = False  # a thread waits for something another one holds: no schedule any more
        self.cond = threading.Condition()
        self.log = []

    def turn(self):
        while self.k < len(self.slices) and self.slices[self.k][0] in self.gone:
            self.k += 1
        return self.slices[self.k][0] if self.k < len(self.slices) else None

    def note(self, t):
        if self.log and self.log[-1][0] == t:
            self.log[-1][1] = self.lines[t]
        else:
            self.log.append([t, self.lines[t]])

    def wait(self, t):
        with self.cond:
            while not self.free and self.turn() not in (t, None):
                k = self.k
                if not self.cond.wait(4) and k == self.k:
                    self.free = True
                    self.cond.notify_all()

    def tick(self, t):
        self.lines[t] += 1
        if not self.free and self.k < len(self.slices) and self.slices[self.k][0] == t and self.lines[t] >= self.slices[self.k][1]:
            with self.cond:
                self.note(t)
                self.k += 1
                self.cond.notify_all()
            self.wait(t)

    def leave(self, t):
        with self.cond:
            if not self.free:
                self.note(t)
            self.gone.add(t)
            if self.k < len(self.slices) and self.slices[self.k][0] == t:
                self.k += 1
            self.cond.notify_all()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.tick(t)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(HERE) else None
        return glob


def answer(task, shared):
    kind = task["kind"]
    if kind == "scene":
        sc = task["scene"]
        if shared is not None:
            layers = [layer_of(nn, shared, L) for L in sc["layers"]]
            sim = nn.Simulation(layers, nn.PlaneWave(sc["exc"]["wl"], tuple(sc["exc"]["ang"])), nh=sc["nh"], formulation=sc["form"])
        else:
            sim = sim_of(nn, sc)
        out = []
        for q in task["ask"]:
            if q == "orders":
                out += [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
            elif q == "complex":
                out += [to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True)]
            elif q == "fields":
                out.append(to_np(sim.get_field_fourier(1, [0, 0.1])))
            elif q == "grid":
                out += [to_np(v) for v in sim.get_field_grid(1, z=0.05, shape=(6, 5))]
            elif q == "stress":
                out.append(np.array([float(x) for x in sim.get_z_stress_tensor_integral(1)]))
            elif q == "S":
                out += [to_np(b) for r in sim.get_S_matrix([0, 1]) for b in r]
    elif kind == "sampler":
        from nannos.sample import adaptive_sampler
        a = task["a"]
        out = [np.array(v, dtype=float) for v in adaptive_sampler(lambda x: np.tanh(a * (x - 0.4)), np.linspace(0, 1, 5), max_x_rel=0.02)]
    elif kind == "shapes":
        lat = nn.Lattice(task["basis"], discretization=(13, 12))
        out = [to_np(lat.circle((0.4, 0.5), task["r"])), to_np(lat.ellipse((0.5, 0.5), (0.3, task["r"]), rotate=30)), to_np(lat.polygon([(0.1, 0.1), (0.8, 0.2), (0.5, task["r"] + 0.4)]))]
    else:
        from nannos import optimize as op
        from nannos.utils import apply_filter
        x = np.array(task["x"]).reshape(8, 8)
        f = apply_filter(nn.backend.array(x), task["r"] * 8)
        out = [to_np(f), to_np(op.project(f, task["b"])), to_np(op.simp(op.project(f, task["b"]), 1, 6, 3))]
    v = np.concatenate([np.ravel(o) for o in out])
    v = np.concatenate([v.real, v.imag]) if np.iscomplexobj(v) else v.astype(float)
    return [fx(x, S6) for x in v]


def perform(tasks, slices, shared):
    n = len(tasks)
    bat = Baton(n, slices)
    got, errs = [None] * n, [""] * n

    def body(t):
        bat.wait(t)
        sys.settrace(bat.tracer(t))
        try:
            got[t] = answer(tasks[t], shared)
        except Exception as e:
            errs[t] = f"{type(e).__name__}: {e}"[:200]
        finally:
            sys.settrace(None)
            bat.leave(t)
    th = [threading.Thread(target=body, args=(t,)) for t in range(n)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    return bat, got, errs


def one(it):
    if it["backend"] != nn.get_backend():
        nn.set_backend(it["backend"])
    tasks, n = it["tasks"], len(it["tasks"])
    shared = lattice_of(nn, tasks[0]["scene"]["lattice"]) if it["share"] else None
    alone, lines = [], []
    for t in tasks:  # twice: what is done only once in a process is done
        answer(t, shared)
        bat, got, errs = perform([t], [], shared)
        if errs[0]:
            raise RuntimeError(errs[0])
        alone.append(got[0])
        lines.append(bat.lines[0])
    rows = []
    for sched in it["scheds"]:
        if sched["mode"] == "slices":  # [task, twelfths], jittered
            slices = [[t - 1, max(1, round(lines[t - 1] * min(1.0, x)))] for t, x in sched["slices"]]
        else:  # in turn, every few lines
            slices, at = [], [0] * n
            while any(at[t] < lines[t] for t in range(n)):
                for t in range(n):
                    if at[t] < lines[t]:
                        at[t] += sched["every"]
                        slices.append([t, at[t]])
        bat, got, errs = perform(tasks, slices, shared)
        rows.append(dict(ev="begin", n=n, err=""))
        log = bat.log if sched["mode"] == "slices" else bat.log[:40]
        rows += [dict(ev="slice", t=t + 1, to=1000 * c // lines[t]) for t, c in log]
        rows += [dict(ev="answer", t=t + 1, err=errs[t], got=got[t] or [], alone=alone[t]) for t in range(n)]
    return rows


def run(payload):
    return pmap(one, payload["items"], limit=250, chunksize=1)


if __name__ == "__main__":
    main(run)
