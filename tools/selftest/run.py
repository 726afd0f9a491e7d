"""Self-test of the checks: applies each edit in edits.py to a scratch copy of /repo, extracts facts and
runs the named checks.  Edits marked 'bug' should make one of their properties fail, edits marked 'same'
keep behaviour and must leave every check quiet.

usage: run.py [-a] [-s] [-t] [name-prefix ...]     -a: run every claimed check, -s: only 'same' edits, -t: also run the tests"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from edits import EDITS
WS = r"\s+(?://[^\n]*\n\s*)*"
for p in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
    g = {}
    exec(open(p).read(), g)
    for kind, k in (("bug", "B"), ("same", "SAME")):
        EDITS += [(b[0], kind, b[1].split(), [b[i:i + 3] for i in range(2, len(b), 3)]) for b in g.get(k, ())]

ROOT = "/tmp/qmself"
N = 6


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def worker(i):
    d = "%s/w%d" % (ROOT, i)
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(["cp", "-r", os.path.join(VERIF, "build"), d + "/build"])
    if os.path.isdir(d + "/repo"):
        shutil.rmtree(d + "/repo")
    os.makedirs(d + "/repo")
    sh("R=%s; cp -r $R/src $R/Cargo.* $R/.git %s/repo/; for f in $R/*; do case $f in $R/target|$R/src|$R/Cargo*) ;; *) cp -r $f %s/repo/;; esac; done" % (os.environ.get("QM_REPO", "/repo"), d, d), shell=True)
    return d


def one(d, e, allchecks, tests):
    name, kind, props, reps = e
    repo = d + "/repo"
    sh(["git", "checkout", "-q", "--", "."], cwd=repo)
    for f, old, new in reps:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) >= 1:
            s = s.replace(old, new, 1)
        else:
            m = re.search(WS.join(re.escape(w) for w in old.split()), s)      # comments between the words do not count
            if not m:
                return name, "ERROR no match in %s: %r" % (f, old[:60])
            s = s[:m.start()] + new.strip() + s[m.end():]
        open(p, "w").write(s)
    env = dict(os.environ, QM_REPO=repo, QM_BUILD=d + "/build")
    fj = d + "/facts.json"
    r = sh([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import extract; extract.extract(out=%r)" % (os.path.join(VERIF, "analysis"), fj)], env=env)
    if r.returncode:
        return name, "ERROR does not compile: " + r.stdout[-1500:]
    env["QM_FACTS"] = fj
    env["QM_EVID"] = d + "/evidence"
    out = []
    ps = [p for p in props if os.path.exists(os.path.join(VERIF, 'analysis', 'rules', p.lower() + '.py'))]
    if allchecks:
        ps = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    fired = []
    for p in ps:
        r = sh([sys.executable, os.path.join(VERIF, "analysis", "check.py"), p], env=env)
        if r.returncode == 1:
            fired.append(p)
            v = [l for l in r.stdout.splitlines() if l.startswith("violated")]
            out.append("   %s %s" % (p, "; ".join(x[10:170] for x in v[:3])))
        elif r.returncode:
            fired.append(p + "!")
            out.append("   %s exit %d %s" % (p, r.returncode, r.stdout[-300:]))
        else:
            u = [l for l in r.stdout.splitlines() if l.startswith("undecided")]
            if u:
                out.append("   %s undecided %d: %s" % (p, len(u), "; ".join(x[11:120] for x in u[:3])))
    verdict = "fired " + ",".join(fired) if fired else "quiet"
    good = any(not x.endswith("!") for x in fired) if kind == "bug" else not fired
    if tests:
        r = sh("export CARGO_TARGET_DIR=%s/ttarget; cargo +stable test --offline --locked --lib -- --skip pricers::montecarlo::tests:: 2>&1 | grep -E '^test .*FAILED|test result|^error'" % d, shell=True, cwd=repo)
        out.append("   tests: " + r.stdout.strip().replace("\n", " | ")[:300])
    return name, "%-5s %s %s %s\n%s" % ("ok" if good else "MISS" if kind == "bug" else "FALSE", kind, ",".join(props), verdict, "\n".join(out))


def main():
    a = sys.argv[1:]
    allc = "-a" in a
    tests = "-t" in a
    pre = [x for x in a if not x.startswith("-")]
    todo = [e for e in EDITS if not pre or any(e[0].startswith(x) for x in pre)]
    if "-s" in a:
        todo = [e for e in todo if e[1] == "same"]
    q = Queue()
    for i in range(min(N, len(todo))):
        q.put(i)
    made = {}

    def job(e):
        i = q.get()
        try:
            if i not in made:
                made[i] = worker(i)
            return one(made[i], e, allc, tests)
        finally:
            q.put(i)
    with ThreadPoolExecutor(N) as ex:
        for name, res in ex.map(job, todo):
            print(name, res.rstrip())
            sys.stdout.flush()


main()
