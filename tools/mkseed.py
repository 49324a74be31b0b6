#!/usr/bin/env python3
"""Make or re-check a seeded bug.

usage: mkseed.py make SPEC.json     build /verif/seeded/<id>/ from a spec
       mkseed.py check [ID...]      apply each bug, run tests, demo and its check
spec: {"id","property","needs","what_it_breaks","edits":[{"file","old","new"}],"demo":"go source"}
"""
import json, os, subprocess, sys, tempfile, shutil
REPO, SEED = "/repo", "/verif/seeded"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, non-zero when it is broken. Run in the repository root.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/timtadh/data-structures v0.0.0\\n\\nreplace github.com/timtadh/data-structures => %s\\n' "$root" > "$tmp/go.mod"
cd "$tmp" && timeout 120 go run @FLAGS@.
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def clean():
    assert sh("git -C /repo checkout -- .").returncode == 0
def tests():
    out = tempfile.mktemp(suffix=".json")
    r = sh(f"bash /opt/vp/test.sh {out}")
    base = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else None
    try:
        res = json.load(open(out))
    except Exception as e:
        return f"no result {e} {r.stderr[-300:]}"
    finally:
        if os.path.exists(out): os.unlink(out)
    return res, base
def verify(i, full=True):
    d = f"{SEED}/{i}"
    meta = json.load(open(d+"/meta.json"))
    clean()
    msgs = []
    ok = True
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r.returncode != 0:
        ok = False; msgs.append("demo fails on clean tree: " + (r.stdout+r.stderr)[-400:])
    a = sh(f"git -C {REPO} apply {d}/patch.diff")
    if a.returncode != 0:
        print(i, "patch does not apply", a.stderr); return False
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode != 0:
            ok = False; msgs.append("build: " + (b.stdout+b.stderr)[-400:])
        if full:
            t = sh(". /opt/vp/env.sh; go test -vet=off ./... 2>&1 | grep -v 'no test files'", cwd=REPO)
            if "FAIL" in t.stdout:
                ok = False; msgs.append("tests fail: " + "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:600])
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r.returncode == 0:
            ok = False; msgs.append("demo passes on the broken tree")
        else:
            msgs.append("demo: " + (r.stdout+r.stderr).strip()[:200].replace("\n", " | "))
        c = sh(f"bin/dsv -property {meta['property']}", cwd="/verif")
        caught = c.returncode == 1 and "VIOLATION" in c.stdout
        msgs.append(("CAUGHT by " if caught else "MISSED by ") + meta["property"] + f" (exit {c.returncode})")
        if caught:
            v = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")][:3]
            msgs += v
    finally:
        clean()
    print(("ok  " if ok else "BAD ") + i, *msgs, sep="\n    ")
    return ok
def make(path):
    for s in [json.load(open(path))] if not path.endswith(".py") else load(path):
        clean()
        d = f"{SEED}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        for e in s["edits"]:
            p = f"{REPO}/{e['file']}"
            t = open(p).read()
            assert t.count(e["old"]) == 1, (s["id"], e["file"], t.count(e["old"]))
            open(p, "w").write(t.replace(e["old"], e["new"]))
        open(d+"/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        clean()
        open(d+"/demo.go.txt", "w").write(s["demo"])
        open(d+"/demo.sh", "w").write(DEMO.replace("@FLAGS@", s.get("flags", "")))
        os.chmod(d+"/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d+"/meta.json", "w"), indent=1)
        verify(s["id"])
def load(path):
    g = {}
    exec(open(path).read(), g)
    return g["SPECS"]
if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    bad = [i for i in ids if not verify(i)]
    print("bad:", bad)
