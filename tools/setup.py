#!/usr/bin/env python3
"""setup_cmd: builds the TLC overrides and the driver, and checks that the specification parses and that the rational
arithmetic overrides agree with their TLA+ definitions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.javac()
vp.build()
vp.build(capi=True)
for m in ("RatTest", "KnotsTest"):
    rc, out, st = vp.tlc(m, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    if rc != 0:
        print(out[-2000:])
        sys.exit(1)
print("setup ok")
