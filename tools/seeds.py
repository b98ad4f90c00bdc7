#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/seeds_data.py: seeds.py [ID...]  (patches are made against /repo's HEAD)."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from seeds_data import SEEDS
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; builds a small program against the crates of the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/demo/src"
cp "$here/main.rs" "$t/demo/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$t/demo/Cargo.toml"
cp "$repo/Cargo.lock" "$t/demo/Cargo.lock"
cd "$t/demo" || exit 2
export CARGO_TARGET_DIR=$t/target CARGO_NET_OFFLINE=true XDG_CACHE_HOME=$t/cache
export TMPDIR=$t
mkdir -p "$t/cache"
cargo build --offline --quiet 2> "$t/log" || { cat "$t/log"; exit 3; }
cd "$t" || exit 2
timeout 200 "$t/target/debug/demo"
'''
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[profile.dev]
debug = 0

[dependencies]
'''
def main(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(here, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp()
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
            r = w + "/r"
            for f, a, b in s["edits"]:
                t = open(f"{r}/{f}").read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open(f"{r}/{f}", "w").write(t.replace(a, b))
            diff = subprocess.check_output(["git", "-C", r, "diff"])
            open(d + "/patch.diff", "wb").write(diff)
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
            shutil.rmtree(w, ignore_errors=True)
        if "script" in s:
            open(d + "/demo.sh", "w").write(s["script"])
        else:
            open(d + "/demo.sh", "w").write(DEMO)
            open(d + "/main.rs", "w").write(s["main"].lstrip("\n"))
            c = CARGO
            for k, v in s["deps"].items():
                c += f"{k} = " + (f'{{ path = "@REPO@/{v[1:]}" }}' if v.startswith("/") else f'"{v}"') + "\n"
            open(d + "/Cargo.toml.in", "w").write(c)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("written", s["id"])
if __name__ == "__main__": main(sys.argv[1:])
