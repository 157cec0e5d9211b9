#!/usr/bin/env python3
"""Development helper: run quick checks against small source mutations in scratch copies.

usage: mut.py MUTS.py [ID ...]     MUTS.py defines MUTS = [(id, check, [(file, old, new), ...])]
"""
import os, runpy, shutil, subprocess, sys, tempfile, time

muts = runpy.run_path(sys.argv[1])["MUTS"]
only = set(sys.argv[2:])
for mid, checks, edits in muts:
    if only and mid not in only:
        continue
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        ok = True
        for f, a, b in edits:
            s = open(os.path.join(d, f)).read()
            if a not in s:
                print(mid, "TEXT NOT FOUND", f, repr(a)[:60], flush=True)
                ok = False
                break
            open(os.path.join(d, f), "w").write(s.replace(a, b, 1))
        if not ok:
            continue
        for c in checks.split():
            t = time.time()
            p = subprocess.run(["./check", c, "--tier", "quick"], cwd="/verif", text=True, capture_output=True,
                               env=dict(os.environ, NIDN_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
            lines = [l for l in p.stdout.splitlines() if "VIOLATION" not in l and "KNOWN" not in l]
            print("%-28s %s %-7s %3ds %s" % (mid, c, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc=%d" % p.returncode), time.time() - t, " | ".join(x.strip() for x in lines[-2:])[:230]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
