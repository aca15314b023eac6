#!/usr/bin/env python3
"""Runs the engine's self-test: ok_* must be clean, bad_* must be reported, and the state cache must not
lose outcomes (diff_*_cache against diff_*_plain)."""
import subprocess, sys, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
subprocess.check_call([here + "/build.sh"])
exe = root + "/build/selftest"
os.makedirs(root + "/build/replays", exist_ok=True)
names = subprocess.check_output([exe, "--list"], text=True).split()
bad = 0; diff = {}
for n in names:
    p = subprocess.run([exe, "quick", "--only", n, "-v", "--dir", root + "/build/replays"], capture_output=True, text=True, timeout=300)
    out = p.stdout + p.stderr
    exp = 1 if n.startswith("bad") else 0
    if p.returncode != exp:
        bad += 1; print("WRONG", n, p.returncode, out[:1500])
    m = re.search(r"bound (\S+) *(\(inc[^)]*\))?.*?(\d+) executions, (\d+) states.*?(\d+) outcomes", out)
    if n.startswith("diff") and m:
        diff.setdefault(n.rsplit("_", 1)[0], {})[n.rsplit("_", 1)[1]] = m.groups()
for k, v in diff.items():
    c, p = v["cache"], v["plain"]
    ok = c[4] == p[4] and not c[1] and not p[1]
    if not ok: bad += 1
    print("ok" if ok else "WRONG", k, "cache", c, "plain", p)
print("self-test", "FAILED" if bad else "passed", len(names), "programs")
sys.exit(bad > 0)
