#!/usr/bin/env python3
"""usage: mutants.py [-j N] [ID or Cxx ...]: tries the changes of mutants_data.py in copies of /repo and /verif below /tmp/mut, and prints which checks notice."""
import os, subprocess, sys, shutil, json, re, threading, queue, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from mutants_data import M
TOP = os.environ.get("MUTDIR", "/tmp/mut")
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare(n):
    w = f"{TOP}/w{n}"
    os.makedirs(w, exist_ok=True)
    r, v = f"{w}/repo", f"{w}/verif"
    if not os.path.exists(r): sh(f"git clone -q /repo {r}; cp -a /repo/target {r}/target")
    sh(f"cd {r} && git checkout -q -- . && git pull -q /repo HEAD; git reset -q --hard FETCH_HEAD")
    sh(f"mkdir -p {v} && rsync -a --delete --exclude .git --exclude .target --exclude evidence --exclude replays --exclude seeded {here}/ {v}/ || (rm -rf {v}/h-*; cp -a {here}/. {v}/)")
    sh(f"cd {v} && grep -rl /repo bin tools h-*/Cargo.toml | xargs sed -i 's#/repo\\b#{r}#g'")
    return w
def tests(r):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", XDG_CACHE_HOME=r + "/target/vp-cache", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    shutil.rmtree(r + "/target/vp-cache", ignore_errors=True); os.makedirs(r + "/target/vp-cache")
    o = sh("cargo test --workspace --exclude logreduce-httpdir --lib --bins --tests --no-fail-fast --offline 2>&1; cargo test --workspace --doc --no-fail-fast --offline 2>&1", cwd=r, env=env).stdout
    if "could not compile" in o: return "BUILD " + "".join(re.findall(r"error.*\n.*\n", o)[:2])
    f = re.findall(r"test (.*) \.\.\. FAILED", o)
    return "pass" if not f else "FAIL " + " ".join(f)
def run(w, mut):
    id, prop, edits = mut
    r, v = w + "/repo", w + "/verif"
    sh("git checkout -q -- .", cwd=r)
    for f, a, b in edits:
        t = open(f"{r}/{f}").read()
        if t.count(a) != 1: return f"{id}: EDIT {f} {t.count(a)} times"
        open(f"{r}/{f}", "w").write(t.replace(a, b))
    t = "skipped" if os.environ.get("NOTEST") else tests(r)
    if t.startswith("BUILD"): return f"{id}: {t}"
    s = time.time()
    p = sh(f"nice -n 19 bash bin/check.sh {prop} {os.environ.get('TIER','quick')}", cwd=v, env={k: x for k, x in os.environ.items() if k != "VERIF_DIR"})
    sh("git checkout -q -- .", cwd=r)
    what = " | ".join(x[:220] for x in p.stdout.splitlines() if x.startswith(("what", "VIOLATION")))[:330]
    return f"{'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout else 'MISSED' if p.returncode == 0 else 'BROKEN %d' % p.returncode} {id} (tests {t}) {time.time()-s:.0f}s {what if p.returncode else ''}{p.stdout[-300:] if p.returncode not in (0,1) else ''}"
def main(a):
    n = 2
    if a[:1] == ["-j"]: n = int(a[1]); a = a[2:]
    q = queue.Queue()
    for m in M:
        if not a or m[0] in a or m[1] in a: q.put(m)
    def work(i):
        w = prepare(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            print(run(w, m), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main(sys.argv[1:])
