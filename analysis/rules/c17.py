"""Ownership across the C interface.  Every exported function is summarised with the conversions
between owned values and raw pointers kept symbolic; which pointers it reclaims, on which paths, and
which it hands out is compared with the contract of the interface."""
from terms import *
from common import *
from c16 import exports, name

FLOOR = 10
RECLAIM = ("Box::from_raw", "CString::from_raw", "Arc::from_raw", "Rc::from_raw", "ptr::read", "ptr::drop_in_place", "ptr::replace", "mut_ptr::read", "const_ptr::read", "mut_ptr::drop_in_place")
GIVE = ("Box::into_raw", "CString::into_raw", "Box::leak", "Arc::into_raw", "Rc::into_raw")
KEEP = ("mem::forget", "ManuallyDrop::new")
# what each function reclaims of its parameters
RELEASES = {"qm_free_handle": {"0": "Box::from_raw"}, "qm_free_string": {"0": "CString::from_raw"}, "qm_assert_approx_eq_reports": {"0": "Box::from_raw", "1": "Box::from_raw"}}


def run(ck):
    for p in exports(ck):
        ck.part(one, p)
    ck.count("exported functions", len(exports(ck)))


def one(ck, p):
    F = ck.F
    w = ck.where(p)
    calls = {}

    def tracer(E, c, key, path, args, site):
        k = key.split("::", 1)[1] if key.startswith("std::") else key
        if k in RECLAIM + GIVE + KEEP:
            t = [F.types[x]["s"] for x in E.targs(c.f, c.fr.subst)]
            calls[site] = (k, E.snap(c.st, args[0]), c.cond, t[0] if t else "")
    s = ck.summary(p, opaque=opq(*(RECLAIM + GIVE + KEEP)), tracer=tracer)
    if s is None:
        return ck.unk("ownership", name(p), w, "not summarised")
    a = args(s)
    want = RELEASES.get(name(p), {})
    handle = F.adt_path("Handle")
    for i, x in enumerate(a):
        t = F.types[F.bodies[p]["inputs"][i]]["s"]
        if not (t == "u64" or t.startswith("*")):
            continue
        inst = "%s/%s" % (name(p), F.bodies[p]["argnames"][i])
        mine = [c for c in calls.values() if c[0] in RECLAIM and about(c[1], x)]
        how = want.get(str(i))
        if how is None:
            ck.require(not mine, "borrowed", inst, w, "it is reclaimed by %s although the caller still owns it" % ", ".join(c[0] for c in mine))
            continue
        if not mine:
            ck.bad("released", inst, w, "it is never reclaimed")
        elif len(mine) > 1 and not exclusive(mine):
            ck.bad("released", inst, w, "it is reclaimed more than once")
        elif disjall([c[2] for c in mine]) is not TRUE:
            ck.bad("released", inst, w, "it is not reclaimed on every path")
        elif any(c[0] != how for c in mine) or how.startswith("Box") and any(c[3] != handle for c in mine):
            ck.bad("released", inst, w, "it is reclaimed as something else than it was allocated as")
        else:
            kept = [c for c in calls.values() if c[0] in KEEP + GIVE and any(y.op == "call" and y.args[0] in RECLAIM and about(y, x) for y in (subterms(c[1]) if c[0] in KEEP else leaves(c[1])))]
            ck.require(not kept, "released", inst, w, "what was reclaimed is kept alive by %s" % ", ".join(c[0] for c in kept))
    # what the caller is given
    out = F.types[F.bodies[p]["output"]]["s"]
    how = "Box::into_raw" if out == "u64" else "CString::into_raw" if out.startswith("*mut") else None
    if how is None:
        return
    ls = [l for l in leaves(s.ret)]
    if any(l.op == "unk" for l in ls):
        return ck.unk("given", name(p), w, "not modelled")
    wrong = [l for l in ls if not (l.op == "call" and l.args[0] == how)]
    if wrong:
        return ck.bad("given", name(p), w, "what it returns is not a fresh allocation of its own: %s" % show(wrong[0], 6)[:200])
    given = [c for c in calls.values() if c[0] in GIVE]
    if how.startswith("Box") and any(c[3] != handle for c in given):
        return ck.bad("given", name(p), w, "what it returns is not the kind of object the release function reclaims")
    old = [c for c in given if any(y.op == "call" and y.args[0] in RECLAIM for y in [c[1]] + list(leaves(c[1])))]
    ck.require(not old, "given", name(p), w, "what it returns was allocated earlier")


def about(v, x):
    return any(y is x for y in subterms(v))


def disjall(cs):
    r = FALSE
    for c in cs:
        r = disj(r, c)
    return r


def exclusive(cs):
    return all(conj(cs[i][2], cs[j][2]) is FALSE for i in range(len(cs)) for j in range(i))
