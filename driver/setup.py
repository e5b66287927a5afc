#!/usr/bin/env python3
"""Builds the engine and, ahead of time, what the checks compile (they rebuild whatever has changed)."""
import check
B = check.Builder(); ef = B.engine(); B._gen = B.gen().result()
seen = []
for n, r in check.CH.RUNS.items():
    x = check.Run(B, n, r, "quick", 1); x.start_build(); seen.append(x)
ef.result()
for x in seen:
    for f in x.f_bc + (x.f_obj or []):
        try: f.result()
        except check.Fail as e: print(e)
print("ready")
