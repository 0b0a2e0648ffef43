#!/usr/bin/env python3-vt
"""prove.py PATTERN...: verify matching contracts verbosely (development helper)."""
import sys, time
sys.path.insert(0, "/verif")
import pydv
from pydv.engine import *
import contracts.all
V = "-v" in sys.argv
pats = [x for x in sys.argv[1:] if not x.startswith("-")]
for t, con in CONTRACTS.items():
    if pats and not any(p in t for p in pats): continue
    vc = VC(verbose=V, timeout_ms=8000)
    t0 = time.time()
    vc.verify(con)
    r = vc.report
    bad = [o for o in r.obligs if o.status != "proved"]
    print(f"{'OK  ' if not bad else 'FAIL'} {t}  {len(r.obligs)} obligations {len(bad)} failed  {time.time()-t0:.1f}s  inlined={sorted(x for x in r.inlined if x!=t)}")
    for o in bad:
        print("     -", o.fn, "::", o.name, "|", o.detail[:300])
