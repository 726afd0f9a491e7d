"""Failures reach the caller.  Every function is summarised with the fallible functions it calls kept
symbolic.  For each such call: where the call is made and fails, the function fails too (or does not
return).  By induction over the call graph no failure is lost on its way up."""
import re
from terms import *
from common import *

FLOOR = 200
RESP = "std::result::Result"
# a Result that is not a failure, and text output
NOTFAIL = ("slice::binary_search", "fmt", "Formatter::", "Write::", "io::Write", "LocalKey::", "Hash::")


def fallible(F, p):
    b = F.bodies.get(p)
    return b is not None and b.get("output") is not None and F.types[b["output"]].get("path") == RESP


def run(ck):
    F = ck.F
    for p in sorted(F.bodies):
        b = F.bodies[p]
        if "tests::" in p or b.get("derived") or "::_::" in p or b.get("output") is None or b["kind"] not in ("fn", "method", "assoc"):
            continue
        ck.part(one, p)


def short(p):
    p = re.sub(r"crate::(\w+::)*", "", p)
    return re.sub(r"<'\w+>", "", p)


def one(ck, p):
    F = ck.F
    s = ck.summary(p, opaque=lambda key, path: path is not None and path != p and fallible(F, path))
    if s is None:
        return ck.unk("step", short(p), ck.where(p), "not summarised")
    E = s.E
    out = F.types[F.bodies[p]["output"]].get("path")
    seen = set()
    n = 0
    for cond, name, snaps, r, span, fp in s.events:
        if r is None or name.startswith(NOTFAIL):
            continue
        nest, dty = E.nestof.get((r, span), ((), None))
        ty = F.types[dty].get("path") if dty is not None else None
        if ty != RESP:
            continue
        a = F.types[dty].get("args") or []
        if len(a) > 1 and F.types[a[1]]["k"] in ("uint", "int"):
            continue    # where to look, not a failure
        n += 1
        inst = "%s in %s" % (name, short(p))
        k = (inst, r, cond)
        if k in seen:
            continue
        seen.add(k)
        step(ck, E, s, p, inst, span, cond, r, nest, out)
    ck.count("fallible calls", n)
    if n:
        ck.count("functions with fallible calls")


def fails(r):
    return isvar(r, RES, "Err") if r.op != "dd" else apply(lambda x: isvar(x, RES, "Err"), r)


def step(ck, E, s, p, inst, span, cond, r, nest, out):
    where = span
    f = conj(cond, fails(r))
    for lid in reversed(nest):
        info = E.loopinfo.get(lid)
        if info is None:
            return ck.unk("step", inst, where, "loop not followed")
        cl, part, ix, wit, left, latv = info
        on = conj(f, cl)
        if on is not FALSE and any(remembers(v, on, conj(neg(f), cl), r) for v in latv.values()):
            return ck.unk("step", inst, where, "the loop goes on, remembering something of the failure")
        if on is not FALSE:
            return lost(ck, E, inst, where, on, r, "the loop goes on to its next round")
        if wit is None:
            return ck.unk("step", inst, where, "loop not followed")
        f = conj(left, subst(subst(f, part) if part else f, {ix: wit}))
    f = noted(conj(f, s.cond), s.ret)
    if f is FALSE:
        ck.count("does not return on failure")
        return ck.ok("step", inst, where)
    rs = set(leaves(r))
    left = [l for l in leaves(restrict(s.ret, f)) if l is not BOT and l not in rs and not (l.op == "agg" and l.args[1] == "Err")]
    if not left:
        return ck.ok("step", inst, where)
    if out != RESP:
        # not a fallible function: it is part of the fallible functions that call it
        return ck.count("calls in functions that cannot fail themselves")
    good = [l for l in left if l.op == "agg" and l.args[1] == "Ok"]
    if good:
        return lost(ck, E, inst, where, conj(f, when(s.ret, lambda l: l.op == "agg" and l.args[1] == "Ok")), r,
                    "the function goes on to return a value: %s" % show(good[0], 3))
    return ck.unk("step", inst, where, "result is %s" % show(left[0], 3))


def noted(f, ret):
    """f with what it implies of the searches that decide the result (a failure in round i is a failure in some round)"""
    for a in sorted((x for x in subterms(ret) if x.op == "any"), key=lambda x: x.id):
        for i in sorted((x for x in syms(f) if x.op == "ix"), key=lambda x: x.id):
            if conj(f, neg(subst(a.args[2], {T("bv", a.args[1]): i}))) is FALSE:
                f = conj(f, boolify(a))
    return f


def iterated(c, r, E):
    """the call is made in the rounds of an iterator chain, and a search over rounds looks at such calls"""
    if not any(x.op == "ix" and x.args[0] not in E.loopinfo for x in syms(c)):
        return False
    names = set(x.args[0] for x in leaves(r) if x.op == "call")
    return any(x.op == "any" and any(y.op == "call" and y.args[0] in names for y in subterms(x)) for x in subterms(c))


def remembers(v, on, off, r):
    """the value carried on may tell that the call failed: what is returned after the loop may depend on it"""
    a = restrict(v, on)
    err = P("failure")
    sub = {x: Err(err) for x in leaves(r)}
    for l in set(leaves(a)) - set(leaves(restrict(v, off))) - {BOT}:
        if l in (TRUE, FALSE) or l.op == "agg" and l.args[1] in ("Some", "None", "Ok", "Err") or err in syms(subst(l, sub)):
            return True
        q = to_poly(l)
        if len(q) > 1 and any(k == () for k in q) and any(len(k) == 1 and k[0][0].op == "mu" and c == 1 for k, c in q.items()):
            return True
    return False


def lost(ck, E, inst, where, c, r, msg):
    if c is FALSE:
        return ck.ok("step", inst, where)
    if any(x.op in ("unk", "cut") for x in subterms(c)) or iterated(c, r, E):
        return ck.unk("step", inst, where, "not followed: when it fails, " + msg)
    return ck.bad("step", inst, where, "when it fails, " + msg)
