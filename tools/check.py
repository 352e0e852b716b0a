#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for a in sys.argv[1:]:
    if a.startswith("--tier="):
        os.environ["VERIF_TIER"] = a[7:]
import vlib


def main():
    prop = args[0]
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06"):
        import enc
        return enc.check(prop)
    if prop == "C07":
        import spell
        return spell.check()
    if prop == "C08":
        import reject
        return reject.check()
    if prop in ("C09", "C10", "C11", "C12", "C13", "C14", "C15"):
        import jit
        return jit.check(prop)
    if prop == "C16":
        import life
        return life.check()
    if prop == "C17":
        import execs
        return execs.check()
    if prop == "C18":
        import prog
        return prog.check()
    if prop == "C19":
        import block
        return block.check()
    if prop == "C20":
        import ptr
        return ptr.check()
    raise SystemExit("unknown property " + prop)


try:
    rc = main()
except SystemExit:
    raise
except Exception:
    traceback.print_exc()
    print("CHECK-ERROR", flush=True)
    rc = 2
sys.exit(rc)
