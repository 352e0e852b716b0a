#!/usr/bin/env python3
"""seeded.py [ids...] [--all] [--nocheck] [--checks C01,C02]: tries planted bugs in a scratch copy of /repo
(development aid; no registered check uses it)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwork"
REPO = S + "/repo"
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")


def sh(cmd, cwd=REPO, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(env, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def fresh():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(REPO):
        subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "checkout", "-q", "-f", h])
    sh(["git", "clean", "-fdq"])


def tests():
    r = sh(["cargo", "nextest", "run", "--workspace", "--offline", "--no-tests", "pass",
            "--tool-config-file", "vp:/opt/vp/nextest.toml", "--profile", "vp"])
    return r


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--all" in sys.argv:
        ids = sorted(os.listdir(V + "/seeded"))
    only = None
    for a in sys.argv:
        if a.startswith("--checks="):
            only = a[9:].split(",")
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        demo = S + "/demo-" + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        res = {}
        fresh()
        if "--checkonly" not in sys.argv:
            r = sh(["bash", demo + "/demo.sh"])
            res["demo_clean"] = r.returncode
            if r.returncode:
                print(r.stdout[-1500:])
        r = sh(["git", "apply", d + "/patch.diff"])
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            continue
        if "--checkonly" not in sys.argv:
            r = tests()
            res["tests"] = r.returncode
            if r.returncode:
                print(r.stdout[-1500:])
            r = sh(["bash", demo + "/demo.sh"])
            res["demo_patched"] = r.returncode
        if "--nocheck" not in sys.argv:
            for c in only or [meta["property"]]:
                r = sh(["python3", V + "/tools/check.py", c], cwd=V, VERIF_REPO=REPO, VERIF_BUILD=S + "/build")
                hit = "VIOLATION property=%s" % c in r.stdout
                res[c] = "caught" if r.returncode == 1 and hit else "missed" if r.returncode == 0 else "ERROR"
                if res[c] == "ERROR":
                    print(r.stdout[-2500:])
        ok = "--checkonly" in sys.argv or (res.get("demo_clean") == 0 and res.get("tests") == 0 and res.get("demo_patched") != 0)
        print(i, "valid" if ok else "INVALID", res, flush=True)
    fresh()


main()
