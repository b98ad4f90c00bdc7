#!/usr/bin/env python3
"""usage: gen_python.py DIR: copies /repo/python to DIR/python, to be built there: its lock file is not tracked."""
import os, re, shutil, sys
out = os.path.join(sys.argv[1], "python")
src = os.environ.get("GEN_SRC", "/repo") + "/python"
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
shutil.copytree(src + "/src", out + "/src")
for extra in ("build.rs", "README.md"):
    if os.path.exists(f"{src}/{extra}"):
        shutil.copy2(f"{src}/{extra}", out)
t = open(src + "/Cargo.toml").read()
t = re.sub(r'path\s*=\s*"\.\./', f'path = "{os.path.dirname(src)}/', t)
open(out + "/Cargo.toml", "w").write(t)
lock = src + "/Cargo.lock"
if not os.path.exists(lock):
    lock = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "h-py", "python-Cargo.lock")
shutil.copy2(lock, out + "/Cargo.lock")
