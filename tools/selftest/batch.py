"""Refactorings in batches: applies all edits of the named batches (files in refactors/) to a scratch copy of
/repo and runs every claimed check on it.  All of them must stay quiet.

usage: batch.py [-t] [-c C01,C02] batch ...     -t: also run the tests, -c: only these checks"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("QM_VERIF") or os.path.dirname(os.path.dirname(HERE))
D = os.environ.get("QM_SCRATCH") or "/tmp/qmbatch"
WS = r"\s+(?://[^\n]*\n\s*)*"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    only = None
    if "-c" in a:
        only = a[a.index("-c") + 1].split(",")
        a.remove("-c")
        a.remove(",".join(only))
    names = [x for x in a if not x.startswith("-")]
    repo = D + "/repo"
    if os.path.isdir(repo):
        shutil.rmtree(repo)
    os.makedirs(D, exist_ok=True)
    sh(["git", "clone", "-q", "/repo", repo])
    shutil.copy("/repo/Cargo.lock", repo)
    if not os.path.isdir(D + "/build"):
        sh(["cp", "-r", "/verif/build", D + "/build"])
    n = 0
    for x in names:
        p = x if os.path.exists(x) else os.path.join(HERE, "refactors", x + ".py")
        g = {}
        exec(open(p).read(), g)
        for f, old, new in g["R"]:
            q = os.path.join(repo, f)
            s = open(q).read()
            m = re.search(WS.join(re.escape(w) for w in old.split()), s)      # comments between the words do not count
            if not m:
                print("no match in %s: %r" % (f, old[:200]))
                return 2
            open(q, "w").write(s[:m.start()] + new.strip() + s[m.end():])
            n += 1
    print("%d edits" % n)
    env = dict(os.environ, QM_REPO=repo, QM_BUILD=D + "/build")
    fj = D + "/facts.json"
    r = sh([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import extract; extract.extract(out=%r)" % (os.path.join(VERIF, "analysis"), fj)], env=env)
    if r.returncode:
        i = r.stdout.find("\nerror")
        print("does not compile:", r.stdout[i:i + 3000])
        return 2
    env["QM_FACTS"] = fj
    if tests:
        r = sh("export CARGO_TARGET_DIR=%s/ttarget; cargo +stable test --offline --locked --lib -- --skip pricers::montecarlo::tests:: 2>&1 | grep -E '^test .*FAILED|test result|^error'" % D, shell=True, cwd=repo)
        print("tests:", r.stdout.strip().replace("\n", " | ")[:600])
    ps = only or [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]

    def one(p):
        t = time.time()
        r = sh([sys.executable, os.path.join(VERIF, "analysis", "check.py"), p], env=dict(env, QM_EVID=D + "/ev-" + p))
        return p, r.returncode, r.stdout, time.time() - t
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for p, rc, out, t in ex.map(one, ps):
            L = out.splitlines()
            head = next((l for l in L if l.startswith(p + ":")), "")
            print("%s %s %3.0f s %s" % ("ok   " if rc == 0 else "ALARM" if rc == 1 else "ERROR", p, t, head[5:100]))
            bad += rc != 0
            for l in L:
                if l.startswith("violated") or rc not in (0, 1):
                    print("      " + l[:400])
            u = [l for l in L if l.startswith("undecided")]
            for l in u[:6]:
                print("      " + l[:220])
            sys.stdout.flush()
    return 1 if bad else 0


sys.exit(main())
