"""Sensitivities.  Each sensitivity report is summarised for any pricer and any set of
instruments; every figure must be the central difference of revaluations with equal and
opposite bumps of the size asked for, both measured from the unbumped pricer."""
from terms import *
from common import *
import reports
import ident

FLOOR = 2
IX = T("ix", "inst")


def run(ck):
    ck.part(delta)
    ck.part(vega)
    ck.part(opposite)
    ck.part(theta)


def inst(pr):
    m = F_(okv(call("Bumpable::dependencies", pr)), "instruments")
    return length(m), T("mkey", m, IX)


def revalued(pr, kind, id, amt, base):
    a = reports.truth(call("affects", pr, T("str", kind), id))
    x = T("mut", reports.BUMPED, 0, (pr, T("str", kind), id, amt))
    return ite(a, okv(call(reports.PRICE, x)), base)


def figures(u, d, base, h):
    return (u - d) / (num(2) * h), (u + d - num(2) * base) / (h * h)


def central(ck, inst_, p, s, line, names, kind, up, down, h, size, given=TRUE):
    me, pr, sv, base = args(s)
    n, id = inst(pr)
    u, d = revalued(pr, kind, id, up, base), revalued(pr, kind, id, down, base)
    hh = h(pr, id)
    f1 = apply(lambda u, d, b, h: figures(u, d, b, h)[0], u, d, base, hh)
    f2 = apply(lambda u, d, b, h: figures(u, d, b, h)[1], u, d, base, hh)
    ret = s.E.snap(s.state, s.ret)
    w = ck.where(p)
    got = fld(okv(ret), "results")
    ln = struct(ck, line, **{names[0]: f1, names[1]: f2})
    if ln is None:
        ck.unk("figures", inst_, w, "the report has changed shape")
        return
    want = putall(T("map0"), n, IX, id, ln)
    ok = conj(conj(s.cond, given), isok(ret))
    ck.same("figures", inst_, w, got, want, ok, "not the central differences of the two revaluations")
    ck.same("size", inst_, w, fld(okv(ret), "bumpsize"), size, ok, "not the size of the bump used")
    ck.count("sensitivity reports")


def delta(ck):
    ty = "DeltaGammaReportGenerator"
    p = method(ck, ty, "ReportGenerator", "generate")
    s = summ_or_unk(ck, "figures", ty, p, dict(contract=reports.contract))
    if s is None:
        return
    me = args(s)[0]
    b = F_(me, "bumpsize")
    rel = lambda x: T("agg", ck.F.adt_path("BumpSpot"), "Relative", (("Relative.bump", x),))
    h = lambda pr, id: b * okv(call("PricingContext::spot", call("Bumpable::context", pr), id))
    central(ck, "delta and gamma", p, s, "DeltaGamma", ("delta", "gamma"), "Spot", rel(b), rel(ZERO - b), h, b, lt(ZERO, ONE + b))


def volbump(ck, v, size, floor):
    fs = {"FlatAdditive": (("FlatAdditive.size", size),), "TimeScaled": (("TimeScaled.size", size), ("TimeScaled.floor", floor))}
    return T("agg", ck.F.adt_path("BumpVol"), v, fs[v])


def vega(ck):
    ty = "VegaVolgaReportGenerator"
    p = method(ck, ty, "ReportGenerator", "generate")
    for v in ("FlatAdditive", "TimeScaled"):
        s0 = summ_or_unk(ck, "figures", ty, p, dict(contract=reports.contract))
        if s0 is None:
            return
        size, floor = P("size"), P("floor")
        a = args(s0)
        up = volbump(ck, v, size, floor)
        me = struct(ck, ty, bump=up)
        if me is None:
            ck.unk("figures", ty, ck.where(p), "the generator has changed shape")
            return
        # the opposite bump is checked below; here it is only required to be used
        OP = "BumpVol::opposite"
        s = ck.summary(p, args=[me] + a[1:], contract=reports.contract, opaque=opq(OP))
        if s is None:
            ck.unk("figures", ty, ck.where(p), "not summarised")
            return
        straight = ck.summary(p, args=[me] + a[1:], contract=reports.contract)
        down = call("then", up, call(OP, up))
        # or the two bumps written out, opposite or by the formula reported below
        for amt in (ZERO - size, size + wrong(size)):
            if straight is not None and matches(ck, straight, up, volbump(ck, v, amt, floor), size):
                s, down = straight, volbump(ck, v, amt, floor)
        central(ck, "vega and volga/" + v, p, s, "VegaVolga", ("vega", "volga"), "Vol", up, down, lambda pr, id: size, size)


def wrong(size):
    return (ONE - size) / (ONE + size) - ONE


def matches(ck, s, up, down, h):
    me, pr, sv, base = args(s)
    n, id = inst(pr)
    u, d = revalued(pr, "Vol", id, up, base), revalued(pr, "Vol", id, down, base)
    f1 = apply(lambda u, d, b: figures(u, d, b, h)[0], u, d, base)
    f2 = apply(lambda u, d, b: figures(u, d, b, h)[1], u, d, base)
    ln = struct(ck, "VegaVolga", vega=f1, volga=f2)
    ret = s.E.snap(s.state, s.ret)
    return ln and ident.identical(fld(okv(ret), "results"), putall(T("map0"), n, IX, id, ln), conj(s.cond, isok(ret)), 60, ck.seed)[0] == "eq"


def opposite(ck):
    """the second bump undoes the first and applies the opposite one"""
    p = inherent(ck, "BumpVol", "opposite")
    for v in ("FlatAdditive", "TimeScaled"):
        size, floor = P("size"), P("floor")
        s = summ_or_unk(ck, "opposite", v, p, dict(args=[volbump(ck, v, size, floor)]))
        if s is None:
            continue
        got = s.E.snap(s.state, s.ret)
        inst_ = v
        if ident.identical(got, volbump(ck, v, wrong(size), floor), s.cond, 160, ck.seed)[0] == "eq":
            inst_ = v + " by the formula for relative bumps"
        ck.same("opposite", inst_, ck.where(p), got, volbump(ck, v, num(-2) * size, floor), s.cond, "the two bumps are not equal and opposite")


def theta(ck):
    """a future-dated report: its price is that of the moved copy, theta the change"""
    p = method(ck, "TimeBumpedReportGenerator", "ReportGenerator", "generate")
    s = summ_or_unk(ck, "figures", "theta", p, dict(contract=reports.contract))
    if s is None:
        return
    me, pr, sv, base = args(s)
    cp = call("PricerClone::clone_box", pr)
    mv = T("mut", "TimeBumpable::bump_time", 0, (cp, F_(me, "bump")))
    price = okv(call(reports.PRICE, mv))
    gs = F_(me, "subgenerators")
    sub = vecof(mapseg(length(gs), okv(call(reports.GEN, idx(gs, IX), mv, sv, price)), IX))
    ret = s.E.snap(s.state, s.ret)
    want = struct(ck, "TimeBumpedReport", price=price, theta=price - base, subreports=sub)
    if want is None:
        ck.unk("figures", "theta", ck.where(p), "the report has changed shape")
        return
    ck.same("figures", "theta", ck.where(p), okv(ret), want, conj(s.cond, isok(ret)), "not the price of the moved copy and its change")
