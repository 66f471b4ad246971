#!/usr/bin/env python3
"""setup_cmd: builds every library and program the quick checks need (they rebuild what changed since)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import check
from props import PROPS
build.ensure([], main=sorted({c["main"] for c in PROPS.values()}))
libs = set()
for prop in PROPS:
    out = subprocess.run(check.argv(prop, "needs", prop, "quick"), stdout=subprocess.PIPE, text=True, check=True, env=check.clean_env()).stdout.split()
    libs |= {tuple(x.split(".")) for x in out[1:]}
build.ensure(libs, main=())
print("built %d libraries" % len(libs))
