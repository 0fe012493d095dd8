#!/usr/bin/env python3
# Builds the framework from the committed files (every check builds what is missing by itself, too).
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, vx, tempfile, shutil
os.environ["VX_CACHE"] = check.TARGET
os.makedirs(check.TARGET, exist_ok=True)
vx.build_extractor()
d = tempfile.mkdtemp()
try:
    e = check.build_bins(d)
finally:
    shutil.rmtree(d)
if e:
    sys.exit(e)
print("ok")
