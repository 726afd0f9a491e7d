"""Writes /verif/seeded/<id>/ from the list in seeds.py.

usage: make.py [-n] [name prefix ...]
For each change: in a scratch copy of /repo, build, run the demonstration on the
unchanged tree (must pass) and on the changed tree (must fail), and run the
existing tests on the changed tree (must pass). With -n only write the files.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
VERIF = os.path.dirname(os.path.dirname(HERE))
W = "/tmp/qmseed"
SH = """#!/bin/bash
# Compiles a small program against the built library and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
deps=$(pwd)/target/debug/deps
rustc --edition 2018 -A warnings -o "$t/demo" "$here/demo.rs" -L "dependency=$deps" \\
    --extern "quantmath=$deps/libquantmath.rlib" %s || exit 2
cd "$t" && timeout 120 ./demo
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def build():
    r = sh(f"sed -e 's#/repo#{W}/repo#g' /opt/vp/env.sh > {W}/env.sh; . {W}/env.sh; cd {W}/repo; rm -rf target/debug/.fingerprint/quantmath-*; cargo test --workspace --no-run --offline --locked")
    return r.returncode == 0, r.stderr[-3000:]

def tests():
    r = sh(f". {W}/env.sh; cd {W}/repo; cargo test --offline --locked --lib -- --skip pricers::montecarlo::tests:: 2>&1 | grep '^test '")
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()
    failed = [l.split()[1] for l in r.stdout.splitlines() if l.rstrip().endswith("FAILED")]
    npass = sum(1 for l in r.stdout.splitlines() if l.rstrip().endswith("ok"))
    return npass, [f for f in failed if "problem_of_the_day" not in f]

def main():
    argv = sys.argv[1:]
    dry = "-n" in argv
    pre = [a for a in argv if not a.startswith("-")]
    if not dry:
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        sh(f"cp -a /repo {W}/repo")
    todo = [s for s in SEEDS if not pre or any(s["id"].startswith(p) for p in pre)]
    for s in todo:
        d = f"{VERIF}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        ext = s.get("ext", "")
        with open(d + "/demo.rs", "w") as f:
            f.write((open(HERE + "/prelude.rs").read() if s.get("prelude", True) else "") + s["demo"])
        with open(d + "/demo.sh", "w") as f:
            f.write(s.get("sh") or SH % ext)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        root = "/repo" if dry else W + "/repo"
        a = b = ""
        ok = True
        patch = ""
        files = {}
        for (p, old, new) in s["edits"]:
            t = files.get(p) or open(f"{root}/{p}").read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), old[:60]); ok = False
                continue
            files[p] = t.replace(old, new)
        if not ok:
            continue
        import difflib
        for p in sorted(files):
            patch += "".join(difflib.unified_diff(open(f"{root}/{p}").read().splitlines(True), files[p].splitlines(True), "a/" + p, "b/" + p))
        open(d + "/patch.diff", "w").write(patch)
        if dry:
            continue
        sh(f"git -C {W}/repo checkout -- .")
        good, err = build()
        r0 = sh(f"cd {W}/repo && bash {d}/demo.sh")
        if r0.returncode != 0:
            print(s["id"], "DEMO FAILS ON UNCHANGED TREE", r0.returncode, r0.stderr[-2500:], r0.stdout[-300:]); continue
        r = sh(f"git -C {W}/repo apply {d}/patch.diff")
        if r.returncode:
            print(s["id"], "PATCH", r.stderr); continue
        good, err = build()
        if not good:
            print(s["id"], "DOES NOT COMPILE", err); sh(f"git -C {W}/repo checkout -- ."); continue
        r1 = sh(f"cd {W}/repo && bash {d}/demo.sh")
        n, f = tests()
        print(s["id"], "ok" if r1.returncode == 1 and not f else "BAD", "demo:", r1.returncode, (r1.stderr + r1.stdout).strip()[-160:], "tests:", n, f, flush=True)
        sh(f"git -C {W}/repo checkout -- .")
    if not dry:
        shutil.rmtree(W, ignore_errors=True)

main()
