#!/usr/bin/env python3
"""check.py <property> | replay <file> | setup | list      (tier and seed: VERIF_TIER, VERIF_SEED)"""
import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("ZSIM_REEXEC") != "1":
    os.environ["ZSIM_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = os.environ.get("ZSIM_HASHSEED", "0")
    os.execv(sys.executable, [sys.executable] + sys.argv)

import sim  # noqa: E402
import build  # noqa: E402

#        quick: runs, wall cap (s)   thorough: runs, wall cap
PLAN = {
    "C01": ((1500, 150), (60000, 3000)),
    "C02": ((1500, 150), (60000, 3000)),
    "C03": ((1600, 150), (80000, 3000)),
    "C04": ((3000, 150), (80000, 3000)),
    "C05": ((1200, 150), (60000, 3000)),
    "C07": ((2400, 150), (80000, 3000)),
    "C08": ((3000, 150), (120000, 3000)),
    "C09": ((150, 200), (2000, 3000)),
    "C10": ((60, 200), (1500, 3000)),
    "C12": ((6000, 150), (300000, 3000)),
    "C06": ((1000, 150), (40000, 3000)),
    "C11": ((800, 150), (40000, 3000)),
    "C13": ((1000, 150), (40000, 3000)),
}


def scenario(prop):
    return getattr(importlib.import_module("scen." + prop.lower()), prop)


def claimed():
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        return [c["property"] for c in json.load(f)["checks"]]


def main(a):
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 0
    if a[0] == "list":
        print(" ".join(claimed()))
        return 0
    if a[0] == "setup":
        for p in claimed():
            scenario(p).prepare()
        return 0
    if a[0] == "replay":
        with open(a[1]) as f:
            r = json.load(f)
        cls = scenario(r["property"])
        try:
            cls.prepare()
        except build.SchemaRejected as e:
            print("VIOLATION property=%s replay=%s%s\n%s" % (
                r["property"], a[1], "" if r["class"] == "schema-rejected" else " (differs from the recorded one)", e))
            return 1
        if r["class"] == "schema-rejected":
            print("no violation")
            return 0
        v = sim.replay_session(cls, r["traces"])
        if v is None:
            print("no violation")
            return 0
        same = v.cls == r["class"] and v.sig == r["signature"]
        print("%s [%s] %s" % (v.cls, v.sig, v.msg))
        print("VIOLATION property=%s replay=%s%s" % (r["property"], a[1], "" if same else " (differs from the recorded one)"))
        return 1
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    base = os.environ.get("VERIF_SEED", "1")
    runs, wall = PLAN[a[0]][tier == "thorough"]
    runs = int(os.environ.get("ZSIM_RUNS", runs))
    wall = float(os.environ.get("ZSIM_WALL", wall))
    shards = int(os.environ["ZSIM_SHARDS"]) if "ZSIM_SHARDS" in os.environ else None
    try:
        return sim.check(scenario(a[0]), tier, base, runs, wall, shards)
    except build.SchemaRejected as e:       # before any simulated run: the schemas of the nodes do not depend on the seed
        p = os.path.join(sim.EVIDENCE, "replays", "%s-schema.json" % a[0])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            json.dump({"property": a[0], "scenario": a[0], "seed": None, "class": "schema-rejected", "signature": "schema",
                       "message": str(e), "traces": []}, f, indent=1)
        print("%s\nVIOLATION property=%s replay=%s" % (e, a[0], p))
        return 1


try:
    CODE = main(sys.argv[1:])
except Exception:       # no verdict
    traceback.print_exc()
    CODE = 2
sys.exit(CODE)
