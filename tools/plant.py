#!/usr/bin/env python3
"""plant.py DEFS.py [id ...]: makes /verif/seeded/<id>/ from definitions
(B(id, prop, file, old, new, needs, breaks, demo)), confirming in a scratch copy
that the change builds, passes the existing tests, and that the demo fails with
it and passes without it."""
import json, os, shutil, subprocess, sys, re
V = "/verif/seeded"
S = "/tmp/plant-scratch"
DEFS = []
def B(id, prop, edits, needs, breaks, demo):
    DEFS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
DEMO = r'''#!/bin/bash
# cwd: the repository.  0: the property holds on the input below; 1: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/seeded-demo-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
static-math = { path = "$repo" }
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 2
cargo build --offline --quiet || exit 2
"$work/target/debug/demo"
'''
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), globals())
    want = sys.argv[2:]
    if not os.path.isdir(S):
        shutil.copytree("/repo", S, symlinks=True)
    for d in DEFS:
        if want and d["id"] not in want: continue
        sh("git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S)
        out = os.path.join(V, d["id"])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.rs", "w").write(d["demo"])
        r0 = sh(f"bash {out}/demo.sh", S)
        bad = []
        if r0.returncode != 0: bad.append("demo on the unchanged tree: %d %s" % (r0.returncode, (r0.stdout + r0.stderr)[-600:]))
        for f, old, new in d["edits"]:
            p = S + "/src/" + f
            t = open(p).read()
            n = t.count(old)
            if n != 1: bad.append("%s: old text found %d times" % (f, n))
            open(p, "w").write(t.replace(old, new, 1))
        open(out + "/patch.diff", "w").write(sh("git diff", S).stdout)
        if not bad:
            t = sh("cargo test --offline 2>&1 | grep -E '^error|FAILED|failed|panicked|test result' | head", S, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"))
            if "FAILED" in t.stdout or "error" in t.stdout or "test result: ok" not in t.stdout: bad.append("tests: " + t.stdout[-500:])
            r1 = sh(f"bash {out}/demo.sh", S)
            if r1.returncode not in (1, 101): bad.append("demo with the change: %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-500:]))
        json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
        if bad:
            shutil.rmtree(out)
        print(d["id"], d["prop"], "OK" if not bad else "REJECTED " + " | ".join(bad), flush=True)
    shutil.rmtree(S)
main()
