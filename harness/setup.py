#!/usr/bin/env python3
"""Offline setup: check that the toolchain works (the Num arithmetic laws)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

c = vlib.Ctx("SETUP", "quick", 1)
try:
    r = c.tlc("NumTest", open(os.path.join(vlib.SPEC, "NumTest.cfg")).read())
    print(r["out"][-1500:])
    sys.exit(0 if r["rc"] == 0 else 1)
finally:
    c.close()
