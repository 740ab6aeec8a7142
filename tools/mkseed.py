#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: writes /verif/seeded/<id> from a spec and confirms it.

SPEC.py holds SEEDS = [dict(id, prop, pkg, needs, breaks, edits=[(file, old, new)], demo=<Go test source>)].
Each change is applied to /repo's working tree, confirmed (builds, stable tests
pass, demo fails; demo passes without it), and undone straight afterwards.
"""
import importlib.util, json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
sel = sys.argv[2:]
MODS = ["vroot-adapter/overlayfs", "vroot-adapter/sftpfs", "fsutil", "stream", "tarfs", "vroot"]
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh("git", "-C", "/repo", "checkout", "-q", "--", ".")
assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty /repo"
DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package it is about.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOWORK=/opt/vp/go.work
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
cd "%(mod)s" && "$GO126" test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' "./%(sub)s"
'''
def stable():
    out = "/tmp/seed-out.json"
    b = sh("bash", "/opt/vp/build.sh")
    if b.returncode: return "build: " + (b.stdout + b.stderr)[-1500:]
    sh("bash", "/opt/vp/test.sh", out)
    got = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("tests") or base
    miss = [t for t in want if t not in set(got["passed"])]
    return "tests: %s" % miss[:5] if miss else ""
for s in S.SEEDS:
    if sel and s["id"] not in sel: continue
    d = f"{root}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    mod = next(m for m in MODS if s["pkg"] == m or s["pkg"].startswith(m + "/"))
    sub = s["pkg"][len(mod):].lstrip("/")
    open(d + "/demo_test.go", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], mod=mod, sub=sub)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash", d + "/demo.sh", cwd="/repo")
    try:
        for f, old, new in s["edits"]:
            t = open("/repo/" + f).read(); assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open("/repo/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
        st = stable() if "--notest" not in os.environ.get("SEEDFLAGS", "") else ""
        r1 = sh("bash", d + "/demo.sh", cwd="/repo")
        ck = sh(root + "/run.sh", s["prop"])
    finally:
        clean()
    ok = r0.returncode == 0 and r1.returncode != 0 and not st
    print(s["id"], s["prop"], "CONFIRMED" if ok else "BAD", "caught" if ck.returncode == 1 else "MISSED rc=%d" % ck.returncode)
    if r0.returncode: print("  demo fails clean:", (r0.stdout + r0.stderr)[-1200:])
    if not r1.returncode: print("  demo passes with patch")
    if "build failed" in r1.stdout + r1.stderr: print("  demo build:", (r1.stdout + r1.stderr)[-800:])
    if st: print("  " + st)
    print("   ", "\n    ".join(ck.stdout.splitlines()[:3]))
