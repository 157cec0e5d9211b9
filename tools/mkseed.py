#!/usr/bin/env python3
"""Development helper: create and validate planted bugs (never used by a check).

usage: mkseed.py DEFS.py [ID ...]
DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Each bug is applied to a scratch copy of /repo; the demo must exit 0 without and
non-zero with it, and the existing tests must pass with it.
"""
import json, os, shutil, subprocess, sys, runpy

PRE = """import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.filterwarnings("ignore")
from loguru import logger
logger.remove()
import torch, numpy as np
import nidn

"""
SH = """#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is broken
export OMP_NUM_THREADS=2 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
ENV = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTHONHASHSEED="0", MPLBACKEND="Agg")


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    defs = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    todo = [b for b in defs["BUGS"] if not only or b["id"] in only]
    if len(todo) > 1:
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(4) as ex:
            for o in ex.map(lambda b: sh([sys.executable, __file__, sys.argv[1], b["id"]], "/verif", 3600).stdout, todo):
                print(o, end="", flush=True)
        return
    for b in todo:
        sc = "/tmp/sc_" + b["id"]
        shutil.rmtree(sc, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", sc])
        try:
            out = "/verif/seeded/" + b["id"]
            tmp = "/tmp/seed/" + b["id"]
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
            open(tmp + "/demo.sh", "w").write(SH)
            os.chmod(tmp + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(tmp + "/meta.json", "w"), indent=1)
            r0 = sh(["bash", tmp + "/demo.sh"], sc, 300)
            for f, old, new in b["edits"]:
                p = f"{sc}/{f}"
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", sc, "diff"], text=True)
            open(tmp + "/patch.diff", "w").write(diff)
            # removed lines must be original ones
            r1 = sh(["bash", tmp + "/demo.sh"], sc, 300)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b["id"], "BAD DEMO", r0.returncode, r1.returncode, "--- clean:", r0.stdout[-600:], "--- bug:", r1.stdout[-600:])
                continue
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --timeout=600 2>&1 | tail -4", sc)
            ok = r0.returncode == 0 and r1.returncode != 0 and "16 passed" in t.stdout
            print(b["id"], "OK" if ok else "BAD", r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1])
            if not ok:
                print("--- clean:", r0.stdout[-1500:], "--- bug:", r1.stdout[-800:], "--- tests", t.stdout[-1500:])
            else:
                print("    bug output:", r1.stdout.strip().splitlines()[-1:] )
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
            sys.stdout.flush()
        finally:
            shutil.rmtree(sc, ignore_errors=True)


main()
