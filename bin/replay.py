#!/usr/bin/env python3
"""replay.py CONFIG FILE: runs a replay file against /repo's working tree."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild, driver
work = os.path.join(irbuild.VERIF, ".work", "replay-%d" % os.getpid())
os.makedirs(work)
try:
    lls, err = irbuild.build("std", work)
    sym, c = driver.cache_symbol(lls), sys.argv[1]
    b, err = driver.build_replay(c, work, sym, irbuild.build(c, work)[0] if c in irbuild.TARGETS else None)
    if b is None:
        print(err)
        sys.exit(2)
    v, out = driver.run_replay(b, sys.argv[2])
    print(v, out)
    sys.exit(1 if v == "yes" else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
