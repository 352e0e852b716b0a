#!/usr/bin/env python3
"""mkseed.py [ids]: (re)generates seeded/<id>/ from seeded/src/<id>.py (development aid; no registered check uses it).

A source file defines prop, needs, breaks, edits = [(file, old, new)], demo (Rust statements of main, with JitMemory and
monoasm! in scope).  Patches are made against /repo's HEAD."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(V, "tools", "seeds")
DEMO = '''#!/bin/bash
# Builds and runs main.rs (beside this file) against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
monoasm = { path = "$repo/monoasm" }
monoasm_macro = { path = "$repo/monoasm_macro" }
EOF
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$d" || exit 2
timeout 240 cargo run -q --offline
'''
HEAD = '''#![feature(proc_macro_hygiene)]
#![allow(unused, unused_features)]
use monoasm::*;
use monoasm_macro::monoasm;

'''


def git(*a, cwd="/repo"):
    return subprocess.check_output(["git", *a], cwd=cwd, text=True)


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(SRC) if f.endswith(".py"))
    w = "/tmp/mkseed-repo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for i in ids:
        ns = {}
        exec(open(os.path.join(SRC, i + ".py")).read(), ns)
        git("checkout", "-q", "-f", "HEAD", cwd=w)
        for f, old, new in ns["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %r occurs %d times in %s" % (i, old, s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        base = git("rev-list", "--max-parents=0", "HEAD", cwd=w).strip()
        for f in {e[0] for e in ns["edits"]}:
            blame = [l.split()[0].lstrip("^") for l in git("blame", "-l", "HEAD", "--", f, cwd=w).splitlines()]
            n = 0
            for l in git("diff", "-U0", "--", f, cwd=w).splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1].split(",")[0][1:])
                elif l.startswith("-") and not l.startswith("---"):
                    if not base.startswith(blame[n - 1]):
                        print("%s: %s:%d is not an original line" % (i, f, n))
                    n += 1
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(git("diff", cwd=w))
        open(d + "/demo.sh", "w").write(DEMO.replace("run -q --offline", "run -q --offline --release") if ns.get("release") else DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(HEAD + ns.get("items", "") + "fn main() {\n" + ns["demo"].strip("\n") + "\n}\n")
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)


main()
