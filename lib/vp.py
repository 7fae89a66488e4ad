"""Common machinery of the checks: running TLC, recording traces, verdicts, evidence.

Every check is   python3 check.py <ID>   and follows the same three steps
 1. TLC model-checks the specification (invariants of the design) and emits behaviours,
 2. a driver replays the behaviours on the real package and records what it observed,
 3. TLC validates the recorded trace against the specification, naming each failing clause.
"""
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

SCALE = 10**7  # fixed-point unit of logged reals
CLIP = 10**9  # sentinel of values out of range (NaN and infinities included)


def timing(msg):
    if os.environ.get("VERIF_TIMING"):
        print("..", msg, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The machinery failed (not the property)."""


def fx(v, scale=SCALE):
    """Fixed-point integer of a real number, for TLC."""
    try:
        v = float(v)
    except Exception:
        return CLIP
    if not math.isfinite(v) or abs(v) * scale >= CLIP:
        return CLIP
    return int(round(v * scale))


class Scratch:
    """A scratch directory removed on exit."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif_")

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions = int(m[-1][0]) if m else 0
        self.states = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.transitions = self.states = int(m[-1])
        self.lines = []
        for line in out.splitlines():
            # Emit(tag, x) prints the string  "TAG json"
            m = re.match(r'^"([A-Z]+) (.*)"$', line)
            if m:
                try:
                    self.lines.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
                except ValueError as e:
                    raise CheckError(f"unreadable TLC output line: {line[:300]} ({e})")
        self.violated = re.findall(r"Invariant (\w+) is violated", out) + re.findall(
            r"(?:Action|Temporal) propert(?:y|ies) (\w*) ?(?:is|were) violated", out
        )

    def tagged(self, tag):
        return [v for t, v in self.lines if t == tag]


def tlc(module, cfg=None, *, consts=None, files=None, args=(), env=None, workers=1, timeout=600,
        check=True, heap="3g", cfg_text=None):
    """Run TLC on spec/<module>.tla.  files: {name: text} laid beside a copy of the specs."""
    with Scratch() as d:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        cfgname = cfg or module + ".cfg"
        if cfg_text is not None:
            cfgname = "run.cfg"
            with open(os.path.join(d, cfgname), "w") as fh:
                fh.write(cfg_text)
        elif consts:
            with open(os.path.join(d, cfgname)) as fh:
                text = fh.read()
            for k, v in consts.items():
                text, n = re.subn(rf"(?m)^(\s*{k}\s*=).*$", rf"\1 {v}", text)
                if n != 1:
                    raise CheckError(f"constant {k} not in {cfgname}")
            with open(os.path.join(d, cfgname), "w") as fh:
                fh.write(text)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock",
               "-workers", str(workers), "-config", cfgname, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e["TRACE_DIR"] = d
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module} after {timeout}s")
        r = TLCResult(p.stdout, p.returncode, time.time() - t0)
        timing(f"tlc {module} {r.wall:.1f}s {r.states} states")
        if check and p.returncode != 0:
            raise CheckError(f"TLC failed on {module} ({cfgname}), rc={p.returncode}:\n" + p.stdout[-6000:] + p.stderr[-2000:])
        return r


def parallel(*thunks, n=4):
    """Run the thunks (TLC runs, drivers) side by side; their results in order."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]


def rng(*salt):
    h = hashlib.sha256(repr((SEED,) + salt).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ---------------------------------------------------------------- drivers
def run_driver(script, payload, *, env=None, timeout=600, args=()):
    """Run drivers/<script> under the project's interpreter on /repo; JSON in, JSON out."""
    with Scratch() as d:
        pin, pout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(pin, "w") as fh:
            json.dump(payload, fh)
        e = dict(os.environ)
        e.pop("NANNOS_BACKEND", None)
        e.pop("NANNOS_GPU", None)
        e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu",
                 MPLBACKEND="agg", PYVISTA_OFF_SCREEN="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, "drivers") + os.pathsep + os.path.join(VERIF, "lib"),
                 PYTHONWARNINGS="ignore", TMPDIR=d)
        e.update(env or {})
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "drivers", script), pin, pout, *args], cwd=d, env=e,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return {"driver_timeout": timeout}
        if not os.path.exists(pout):
            return {"driver_error": out[-4000:], "rc": p.returncode}
        with open(pout) as fh:
            return json.load(fh)


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known_hit = []

    def add_tlc(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        return r

    def design_ok(self, r, what):
        """The specification itself must satisfy its invariants (a machinery matter, not the code's)."""
        if r.rc != 0:
            raise CheckError(f"specification {what} violates its own invariants:\n" + r.out[-4000:])

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def violate(self, what, detail, key=None):
        """key: identifies the failing history, matched against the known findings."""
        kf = load_findings()
        for f in kf:
            if f["property"] == self.pid and f.get("status") == "known" and key is not None and f["key"] == key:
                if f["key"] not in [k["key"] for k in self.known_hit]:
                    self.known_hit.append(f)
                return
        self.violations.append(dict(what=what, detail=detail, key=key))

    def driver(self, script, payload, **kw):
        t0 = time.time()
        out = run_driver(script, payload, **kw)
        timing(f"driver {script} {time.time() - t0:.1f}s")
        if isinstance(out, dict) and ("driver_timeout" in out or "driver_error" in out):
            self.violate("the real code could not be driven (crash, or no end)", out)
            return None
        return out

    def finish(self):
        for f in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}-{SEED}-{TIER}.json")
            with open(path, "w") as fh:
                json.dump(self.violations[:50], fh, indent=1, default=str)
            for v in self.violations[:10]:
                print("#", self.pid, v["what"], json.dumps(v["detail"], default=str)[:600])
            print(f"VIOLATION property={self.pid} replay={os.path.relpath(path, VERIF)}")
            return 1
        print(f"OK {self.pid} ({TIER}, seed {SEED}): {self.cov['states']} states, {self.cov['transitions']} transitions, "
              f"{self.cov['traces_validated_against_impl']} traces validated, {ev['wall_s']}s")
        return 0


def load_findings():
    path = os.path.join(VERIF, "findings", "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def ndjson(rows):
    return "".join(json.dumps(r) + "\n" for r in rows)


def beyond(r, module, n):
    """The line of a trace at which the specification has no step, or no meaning, for what was recorded
    (0: the whole trace was consumed).  Anything else that keeps TLC from the end is an error of the check."""
    done = r.tagged("DONE")
    if r.rc == 0 and done and done[-1] == n:
        return 0
    lost = re.search(r"The error occurred when TLC was evaluating|Overflow when computing|Attempted to ", r.out)
    at = re.findall(r"(?m)^/\\ i = (\d+)\s*$", r.out)
    if r.rc != 0 and lost and at and "OutOfMemory" not in r.out and "StackOverflow" not in r.out:
        return min(n, max(1, int(at[-1])))
    depth = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
    if r.rc == 0 and depth and not done:
        return min(n, max(1, int(depth.group(1))))
    raise CheckError(f"trace validation with {module} consumed {done} of {n} events, rc={r.rc}:\n{r.out[-5000:]}")


def validate(chk, module, rows, *, cfg=None, consts=None, describe=None, timeout=600, key=None, extra=None, heap="3g"):
    """Validate recorded rows with TLC: the trace module prints <<"BAD", json>> for each failing clause and
    <<"DONE", n>> once the whole trace has been consumed."""
    if not rows:
        return []
    files = {"trace.ndjson": ndjson(rows)}
    files.update(extra or {})
    r = tlc(module, cfg, consts=consts, files=files, timeout=timeout, heap=heap, check=False)
    chk.add_tlc(r)
    stuck = beyond(r, module, len(rows))
    bad = r.tagged("BAD")
    for b in bad:
        row = rows[b["line"] - 1]
        chk.violate(f"clause {b['clause']}", describe(row, b) if describe else dict(event=row),
                    key=key(row, b) if key else None)
    if stuck:
        row = rows[stuck - 1]
        chk.violate("clause what was recorded is a behaviour of the specification",
                    describe(row, dict(line=stuck)) if describe else dict(event=row))
    return bad
