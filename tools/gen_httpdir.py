#!/usr/bin/env python3
"""Copies /repo/httpdir to a crate compiled against the controlled std (cstd) and the scripted client (shim/)."""
import os, re, sys
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(sys.argv[1], "httpdir")
src = os.environ.get("GEN_SRC", "/repo/httpdir")


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, "rb").read() != data:
        open(path, "wb").write(data)


toml = open(src + "/Cargo.toml").read() if os.path.exists(src + "/Cargo.toml") else ""
m = re.search(r'^\s*edition\s*=\s*"(\d+)"', toml, re.M)
edition = m.group(1) if m else "2018"
m = re.search(r'\[lib\][^\[]*?^\s*path\s*=\s*"([^"]+)"', toml, re.M | re.S)
root = m.group(1) if m else "src/lib.rs"
wanted = set()
for d, dirs, files in os.walk(src):
    dirs[:] = [x for x in dirs if x not in ("target", "tests", "examples", "benches")]
    for f in files:
        p = os.path.join(d, f)
        rel = os.path.relpath(p, src)
        if rel == "Cargo.toml" or not f.endswith((".rs", ".html", ".txt")):
            continue
        data = open(p, "rb").read()
        if rel == root:
            data = b"#![feature(prelude_import)]\n#![no_std]\n#![allow(warnings)]\n" + data + b"\nextern crate cstd as std;\n#[prelude_import]\nuse cstd::all::*;\n"
        wanted.add(rel)
        put(os.path.join(out, rel), data)
put(os.path.join(out, "Cargo.toml"), f'''[package]
name = "httpdir-ctl"
version = "0.1.0"
edition = "{edition}"

[lib]
name = "httpdir_ctl"
path = "{root}"
test = false
doctest = false

[workspace]

[dependencies]
cstd = {{ path = "{verif}/cstd" }}
threadpool = {{ package = "threadpool-ctl", path = "{verif}/shim/threadpool" }}
reqwest = {{ package = "reqwest-ctl", path = "{verif}/shim/reqwest" }}
url = "2"
regex = "1"
lazy_static = "1.4.0"
'''.encode())
wanted.add("Cargo.toml")
for d, dirs, files in os.walk(out):
    for f in files:
        p = os.path.join(d, f)
        if os.path.relpath(p, out) not in wanted:
            os.remove(p)
