#!/usr/bin/env python3
"""Confirms seeded changes and runs checks against them, in lanes: trybug.py [--lane N] [--checks own|all|C01,C02] [--no-confirm] ID...

Prints a line per change: whether it counts, and which checks report it. Run it through lane.sh.
"""
import json
import os
import subprocess
import sys
import time

a = sys.argv[1:]


def opt(name, default):
    if name in a:
        i = a.index(name)
        v = a[i + 1]
        del a[i:i + 2]
        return v
    return default


checks = opt("--checks", "own")
confirm = "--no-confirm" not in a
ids = [x for x in a if not x.startswith("--")]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])


def sh(cmd, timeout=900, cwd="/repo"):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "timed out"


env = "VERIF_SEED=1 VERIF_TIER=quick "
for id in ids:
    d = f"/verif/seeded/{id}"
    meta = json.load(open(f"{d}/meta.json"))
    notes = []
    if confirm:
        t0 = time.time()
        rc, out = sh(f"bash {d}/demo.sh", 300)
        if rc != 0:
            notes.append(f"DEMO FAILS UNPATCHED rc={rc} {out[-600:]}")
        dt = time.time() - t0
    rc, out = sh(f"git apply {d}/patch.diff")
    if rc != 0:
        print(f"{id}: DOES NOT APPLY {out}", flush=True)
        continue
    try:
        if confirm:
            rc, out = sh("bash /opt/vp/build.sh")
            if rc != 0:
                notes.append("DOES NOT BUILD " + out[-1500:])
            else:
                rc, out = sh("bash /opt/vp/test.sh /tmp/trybug-%d.json" % os.getpid())
                r = json.load(open("/tmp/trybug-%d.json" % os.getpid()))
                bad = sorted(stable - set(r["passed"]))
                if bad:
                    notes.append(f"TESTS FAIL {bad[:4]}")
                rc, out = sh(f"bash {d}/demo.sh", 300)
                if rc == 0:
                    notes.append("DEMO PASSES PATCHED")
                else:
                    notes.append(f"demo rc={rc}: {out.strip()[-160:]!r} ({dt:.0f} s)")
        which = [meta["property"]] if checks == "own" else checks.split(",")
        if checks == "all":
            which = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        if checks == "none":
            which = []
        res = []
        for c in which:
            t0 = time.time()
            rc, out = sh(env + f"python3 /verif/check.py {c} quick", cwd="/verif")
            hit = f"VIOLATION property={c} " in out
            res.append(f"{c}:{'CAUGHT' if rc == 1 and hit else 'missed' if rc == 0 else 'rc=%d ' % rc + out[-300:]}({time.time() - t0:.0f}s)")
        print(f"{id} [{meta['property']}] {' '.join(res)} {'; '.join(notes)}", flush=True)
    finally:
        sh("git checkout -- .")
