"""Confirms planted bugs: python3 tools/seed.py [--notest] [--check ID,..] ID...

For each /verif/seeded/<id>: applies the patch in a scratch copy of /repo, runs the demo
there and on /repo, the repository's tests on the copy, and the quick check of the
property against the copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R0 = os.environ.get("SEED_REPO", "/repo")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_only(diff):
    """The patch removes or changes at least a line of the original repository only."""
    ok = True
    name = None
    old = 0
    out = []
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            name = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            old = int(m.group(1))
            continue
        if line.startswith("---") or line.startswith("+++"):
            continue
        if line.startswith("-"):
            r = sh(f"git -C {R0} blame -s -L{old},{old} HEAD -- {name}").stdout
            out.append(r.startswith("^"))
            old += 1
        elif line.startswith(" "):
            old += 1
    return out


def main():
    args = sys.argv[1:]
    notest = "--notest" in args
    nocheck = "--nocheck" in args
    extra = []
    if "--check" in args:
        k = args.index("--check")
        extra = args[k + 1].split(",")
        del args[k : k + 2]
    ids = [a for a in args if not a.startswith("--")]
    for sid in ids:
        d = f"{V}/seeded/{sid}"
        meta = json.load(open(f"{d}/meta.json"))
        w = f"/tmp/seed_{sid}"
        shutil.rmtree(w, ignore_errors=True)
        sh(f"cp -a {R0} {w}")
        res = {"id": sid}
        try:
            r = sh(f"git -C {w} apply {d}/patch.diff")
            if r.returncode:
                print(sid, "PATCH DOES NOT APPLY", r.stderr)
                continue
            res["orig"] = original_only(open(f"{d}/patch.diff").read())
            r = sh(f"bash {d}/demo.sh", cwd=w)
            res["demo_patched"] = r.returncode
            res["msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
            r = sh(f"bash {d}/demo.sh", cwd=R0)
            res["demo_clean"] = r.returncode
            if r.returncode:
                res["clean_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
            if not notest:
                t = open("/opt/vp/test.sh").read().replace("cd /repo ", f"cd {w} ")
                open(f"{w}.sh", "w").write(t)
                sh(f"PYTHONPATH={w} bash {w}.sh {w}.json")
                got = json.load(open(f"{w}.json"))
                passed = set(got.get("passed", got.get("stable", [])))
                base = BASE.get("stable", BASE.get("passed", []))
                miss = [x for x in base if x not in passed]
                res["tests"] = f"{len(base) - len(miss)}/{len(base)}"
                res["broken"] = miss[:3]
                for f in (f"{w}.sh", f"{w}.json"):
                    os.path.exists(f) and os.remove(f)
            for pid in ([] if nocheck else [meta["property"]] + extra):
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
                r = sh(f"python3 {V}/check.py {pid} quick", cwd=V, env=env)
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                res[pid] = (r.returncode, v[:1])
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(json.dumps(res, default=str), flush=True)


main()
