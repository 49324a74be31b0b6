#!/usr/bin/env python3
"""Try the checks on edited copies of the tree.

usage: variants.py [FILE.py ...] [-k SUBSTRING]
Each file in /verif/variants defines V = [(name, "ok"|"bad", [properties], [(file, old, new), ...]), ...].
"ok" edits keep the behaviour and every named check must stay quiet; "bad" edits break the property and at
least the named checks must report it.
"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
sub = None
if "-k" in args:
    i = args.index("-k"); sub = args[i+1]; del args[i:i+2]
files = args or sorted(glob.glob("/verif/variants/*.py"))
jobs = []
for f in files:
    ns = {}
    exec(open(f).read(), ns)
    for v in ns["V"]:
        if sub is None or sub in v[0]:
            jobs.append(v)
env = dict(os.environ)
src = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True).stdout
for kv in src.split(b"\0"):
    if b"=" in kv:
        k, x = kv.decode().split("=", 1); env[k] = x

def run(v):
    name, kind, props, edits = v
    d = tempfile.mkdtemp(prefix="var-")
    try:
        r = d + "/repo"
        shutil.copytree(os.environ.get("DSV_SRC", "/repo"), r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) < 1:
                return name, "EDIT FAILED " + f + ": " + old[:60]
            s = s.replace(old, new, 1)
            open(r + "/" + f, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode:
            return name, "DOES NOT COMPILE " + b.stderr[-300:]
        shutil.copy("/verif/known-findings.txt", d)
        out = []
        for p in props:
            e = dict(env); e["DSV_REPO"] = r
            c = subprocess.run([os.environ.get("DSV_BIN", "/verif/bin/dsv"), "-dir", d, "-property", p], cwd="/verif", env=e, capture_output=True, text=True)
            want = 0 if kind == "ok" else 1
            lines = [l for l in c.stdout.splitlines() if "[" in l][:2]
            if c.returncode != want:
                out.append(f"{p} exit {c.returncode} want {want}: " + " | ".join(l[:230] for l in lines))
            elif os.environ.get("SHOW"):
                out.append(f"fine {p}: " + " | ".join(l[:160] for l in lines))
            elif kind == "bad" and lines and all("undecided" in l for l in lines):
                out.append(f"fine but only undecided {p}: " + " | ".join(l[:160] for l in lines))
        return name, "\n    ".join(out)
    finally:
        shutil.rmtree(d)

bad = 0
with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(run, jobs):
        if r:
            if not r.startswith("fine"):
                bad += 1
            print(n + ": " + r)
print(len(jobs), "variants,", bad, "unexpected")
sys.exit(1 if bad else 0)
