"""Builds the fact extractor and runs it over /repo's current source."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("QM_BUILD") or os.path.join(VERIF, "build")
REPO = os.environ.get("QM_REPO", "/repo")


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:])
        raise SystemExit(2)
    return p.stdout


def build_tool():
    src = os.path.join(VERIF, "tools", "qmfacts", "main.rs")
    out = os.path.join(BUILD, "qmfacts")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".new"], env=env(), cwd=BUILD)
        os.rename(out + ".new", out)
    return out


def extract(repo=None, out=None):
    """facts.json of the library as it is now"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tool = build_tool()
        tgt = os.path.join(BUILD, "target")
        out = out or os.path.join(BUILD, "facts-%d.json" % os.getpid())
        for d in ("debug/build/quantmath", "debug/incremental"):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                shutil.rmtree(p)
        e = env()
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e).strip()
        e.update({"CARGO_TARGET_DIR": tgt, "LD_LIBRARY_PATH": sysroot + "/lib", "RUSTC_WORKSPACE_WRAPPER": tool,
                  "QMFACTS_CRATE": "quantmath", "QMFACTS_OUT": out})
        if os.path.exists(out):
            os.remove(out)
        run(["cargo", "+nightly", "check", "--lib", "--locked", "--offline"], env=e, cwd=repo)
        if not os.path.exists(out):
            sys.stderr.write("extractor produced no facts\n")
            raise SystemExit(2)
    return out


if __name__ == "__main__":
    p = extract()
    print(p, os.path.getsize(p))
    os.remove(p)
