#!/usr/bin/env python3
"""setup_cmd: verifies that the tools are there and that every specification parses."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vp  # noqa


def main():
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="verif_setup_")
    try:
        for f in glob.glob(os.path.join(HERE, "spec", "*.tla")):
            shutil.copy(f, d)
        mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
        p = subprocess.run(["java", "-cp", vp.JARS, "tla2sany.SANY", *mods], cwd=d, capture_output=True, text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
            print(p.stdout[-4000:], p.stderr[-2000:])
            return 1
        print(len(mods), "specifications parsed")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run([vp.PY, "-c", "import sys; print(sys.version)"], capture_output=True, text=True)
    print(p.stdout.strip())
    return p.returncode


if __name__ == "__main__":
    sys.exit(main())
