#!/usr/bin/env python3
"""Offline preparation: checks the toolchain and that the specifications parse.
Every check builds what it needs from /repo itself; nothing here is required by them."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import gen, vlib
for c in (["java", "-version"], ["cargo", "+nightly", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
d = gen.forms()
print("specification tables:", len(d["forms"]), "mnemonics")
