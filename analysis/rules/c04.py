"""Sharing scopes.  The function that runs work inside a sharing scope is summarised with the work unknown;
the thread's table must be the old one where it returns and, following the clean-up edges of the control-flow
graph, where a panic of the work leaves it.  Nothing else may replace a table."""
from terms import *
from common import *

FLOOR = 4


def run(ck):
    ck.part(scope)
    ck.part(users)


def table(ck):
    """path of the type of sharing tables"""
    return ck.F.adt_path("Dedup")


def keys(ck):
    """functions that reach into a thread's sharing table themselves, with the type of its content"""
    out = {}
    for p, b in ck.F.bodies.items():
        if "::tests::" in p:
            continue
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            f = t["f"].get("fn") if t["k"] == "call" and t["f"]["o"] == "const" else None
            if f and f["path"].startswith("std::thread::LocalKey") or f and "thread::local::LocalKey" in f["path"]:
                s = [ck.F.types[a]["s"] for a in f.get("args") or []]
                if any("dedup::Dedup<" in x for x in s):
                    out.setdefault(p.split("::{closure")[0], set()).update(s)
    return out


def tables(st):
    return [(k, v) for k, v in st.items() if k[0] == "M" and k[1].op == "tls"]


def scope(ck):
    p = inherent(ck, "Dedup", "with")
    s = summ_or_unk(ck, "scope", "with", p, dict(unwind=lambda n: True))
    if s is None:
        return
    w = ck.where(p)
    a = args(s)
    work = T("call", "callval", (a[2],))
    ck.same("scope", "outcome", w, s.ret, work, s.cond, "the outcome of the work is not relayed")
    ts = tables(s.state)
    if not ts:
        return ck.unk("scope", "with", w, "no table found")
    for (_, k), v in ts:
        ck.same("restored", "on return", w, v, k, s.cond, "another table is in force after the work has returned")
    n = 0
    for c, st, name, _ in s.E.unwound:
        if c is FALSE or name.startswith("panic::"):
            continue
        for (_, k), v in tables(st):
            n += 1
            ck.same("restored", "on panic in %s" % ("the work" if name in ("callval", "panic") else name), w, v, k, c, "another table stays in force when the work panics")
    if n == 0:
        ck.unk("restored", "on panic", w, "no way out by panic found")
    ck.count("ways out by panic", n)


def reached(ck, p):
    """functions called from p, directly or not; clean-up code of local types is followed where it runs"""
    out, todo = set(), [p]
    while todo:
        q = todo.pop()
        if q in out:
            continue
        out.add(q)
        todo += [r for r in ck.F.bodies if r.startswith(q + "::{closure")]
        for bl in ck.F.bodies[q]["body"]["blocks"]:
            t = bl["t"]
            f = t["f"].get("fn") if t["k"] == "call" and t["f"]["o"] == "const" else None
            if f and f["path"] in ck.F.bodies:
                todo.append(f["path"])
    return out


def users(ck):
    """nothing else replaces a table or its mode"""
    ks = keys(ck)
    inside = reached(ck, inherent(ck, "Dedup", "with")) - set([inherent(ck, "Dedup", "with")])
    ck.count("functions reaching into a table", len(ks))
    for p in sorted(ks):
        if p not in ck.F.bodies or p in inside or " as std::ops::Drop>" in p:
            continue
        s = ck.summary(p, unwind=lambda n: n == "callval")
        n = p.split("::")[-1] if not p.startswith("<") else p.split(">::")[-1]
        fam = "/".join(sorted(set(x.split("Dedup<")[1].split(",")[0].split("::")[-1].split(" ")[0].strip(")") for x in ks[p] if "Dedup<" in x)))
        inst = "%s (%s)" % (n, fam)
        if s is None:
            ck.unk("kept", inst, ck.where(p), "not modelled")
            continue
        bad = None
        ways = [(s.cond, s.state)] + [(c, st) for c, st, _, _ in s.E.unwound]
        for c, st in ways:
            for (_, k), v in tables(st):
                if restrict(fld(v, "control"), c) is not fld(k, "control"):
                    bad = "the mode of sharing is left changed"
                m = fld(k, "map")
                for l in leaves(restrict(fld(v, "map"), c)):
                    while l.op == "put":
                        l = l.args[0]
                    if l is not m:
                        bad = "the table is left replaced"
        (ck.bad if bad else ck.ok)("kept", inst, ck.where(p), *([bad] if bad else []))
