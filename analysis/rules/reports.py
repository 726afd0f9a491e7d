"""What bumping, restoring and pricing an unknown pricer mean to a report (shown for every
pricer, model and cache by the checks of bumps, restoring and cached data): a bump that says
nothing changed changes nothing, bumps of one datum combine, and restoring from a save area
that was empty before the first of them gives back the pricer before it."""
from terms import *
from common import *

BUMP, REST, CLEAR, GEN, PRICE = "Bumpable::bump", "Bumpable::restore", "Saveable::clear", "ReportGenerator::generate", "Pricer::price"
BUMPED, SAVED = "bumped", "saved"


def datum(b):
    """(kind, id) a bump is about"""
    if b.op != "agg" or not b.args[2]:
        return None
    return T("str", b.args[1]), b.args[2][0][1]


def amount(b):
    return b.args[2][-1][1]


def combined(first, then):
    """one amount with the effect of both in order; None when there is no such amount"""
    if first.op != "agg" or then.op != "agg" or first.args[0] != then.args[0]:
        return None
    if then.args[1] == "Replace":
        return then
    if first.args[1] != then.args[1]:
        return None
    f, t = dict(first.args[2]), dict(then.args[2])
    if first.args[1] == "Relative":
        x = ((ONE + f["Relative.bump"]) * (ONE + t["Relative.bump"])) - ONE
        return T("agg", first.args[0], first.args[1], (("Relative.bump", x),))
    if first.args[1] in ("FlatAdditive", "TimeScaled"):
        k = first.args[1] + ".size"
        if any(f[n] is not t[n] for n in f if n != k):
            return None
        return T("agg", first.args[0], first.args[1], tuple((n, f[n] + t[n] if n == k else v) for n, v in first.args[2]))
    return None


def empty(sv):
    # a save area is empty when a report starts; that it is so again after every round is shown separately
    return sv.op in ("p", "call", "mu")


def state(p, b):
    """pricer p after a bump that did change something"""
    d = datum(b)
    if d is None:
        return None
    if p.op == "mut" and p.args[0] == BUMPED and p.args[2][1] is d[0] and p.args[2][2] is d[1]:
        c = apply(lambda f, t: combined(f, t) or call("then", f, t), p.args[2][3], amount(b))
        return T("mut", BUMPED, 0, (p.args[2][0],) + d + (c,))
    return T("mut", BUMPED, 0, (p,) + d + (amount(b),))


def affects(p, b):
    """whether a bump changes anything depends on the datum, not on the amount"""
    d = datum(b)
    while p.op == "mut" and p.args[0] == BUMPED:
        p = p.args[2][0]
    return truth(call("affects", p, *d)) if d else None


def truth(t):
    return ite(t, TRUE, FALSE)


def result(a):
    p, b = a[0], a[1]
    f = affects(p, b)
    if f is None:
        return None
    r = T("call", BUMP, tuple(a))
    return ite(isok(r), ite(f, Ok(TRUE), Ok(FALSE)), Err(fld(r, "Err.0")))


def pricer_after(a):
    p, b = a[0], a[1]
    f = affects(p, b)
    if f is None:
        return None
    x = state(p, b) or T("mut", BUMP, 0, tuple(a))
    return ite(f, x, p)


def contract(name, j, a):
    if name == BUMP and len(a) == 3:
        p, b, save = a
        if j is None:
            return result(a)
        if j == 0:
            return pricer_after(a)
        if j == 1 and save.op == "agg" and save.args[1] == "Some":
            sv = fld(save, "Some.0")
            d = datum(b)
            if d is None or not empty(sv):
                return None
            return ite(affects(p, b), T("mut", SAVED, 0, (sv, p) + d), sv)
    if name == REST and len(a) == 2 and j == 0:
        x, sv = a
        if empty(sv):
            return x
        if sv.op == "mut" and sv.args[0] == SAVED:
            _, p, k, i = sv.args[2]
            if x is p:
                return p
            if x.op == "mut" and x.args[0] == BUMPED and x.args[2][:3] == (p, k, i):
                return p
    if name == CLEAR and len(a) == 1 and j == 0:
        sv = a[0]
        if empty(sv):
            return sv
        if sv.op == "mut" and sv.args[0] == SAVED:
            return sv.args[2][0]
    if name == GEN and len(a) == 4:
        # a report that succeeds leaves both as they were, given an empty save area
        if j == 0:
            return a[1]
        if j == 1:
            return a[2]
    return None


def generators(ck):
    t = ck.F.trait_path("ReportGenerator")
    out = []
    for im in ck.F.impl_index.get(t, []):
        p = dict(im["items"]).get("generate")
        if p in ck.F.bodies:
            out.append((ck.F.types[im["self"]]["path"].split("::")[-1], p))
    return sorted(out)
