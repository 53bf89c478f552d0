#!/usr/bin/env python3
"""determinism.py RUNS [ID...]: the same seeds twice, with different numbers of processes; the digests of everything sent
to and received from the nodes must agree."""
import importlib
import os
import sys
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import sim  # noqa

runs = int(sys.argv[1])
bad = 0
for prop in sys.argv[2:] or ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"]:
    cls = getattr(importlib.import_module("scen." + prop.lower()), prop)
    cls.prepare()
    seen = []
    for shards in (3, 7):
        d = {}
        for o in sim.search(cls, 77, "quick", runs, time.time() + 1500, shards, sim.load_known(prop))[0]:
            if o["error"] or o["violation"]:
                print(prop, "error", str(o["error"] or o["violation"][:4])[:300])
            d.update(o["digests"])
        seen.append(d)
    both = set(seen[0]) & set(seen[1])
    diff = sorted(i for i in both if seen[0][i] != seen[1][i])
    bad += len(diff)
    print("%s: %d runs twice, %d differ %s" % (prop, len(both), len(diff), diff[:8]), flush=True)
sys.exit(1 if bad else 0)
