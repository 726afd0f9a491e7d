"""Discounting.  The values written by the valuation of every asset, bond and option are
summarised for any list of dates and compared with the required discount factor, spot or
forward; the failures are those of the market data asked for."""
from terms import *
from common import *
from optspec import *
import c35

FLOOR = 3
J = T("ix", "date")


def run(ck):
    ck.part(units)
    ck.part(equity)
    ck.part(bond)
    ck.part(options)


def valued(ck, nm, spec):
    """spec(me, cx, dates, d) -> (fails before any date, failure at date d, value at date d)"""
    p = method(ck, nm, "Priceable", "prices")
    s = summ_or_unk(ck, "value", nm, p, {})
    if s is None:
        return
    me, cx, ds, out = args(s)
    pre, at_, v = spec(me, cx, ds, idx(ds, J))
    n = length(ds)
    bad = disj(pre, mk_any(n, at_, J))
    sh = conj(s.cond, c35.shape(out, ds))
    ck.same("value", nm + "/result", ck.where(p), s.E.snap(s.state, s.ret), ite(bad, ANYERR, Ok(UNIT)), sh,
            "does not fail exactly when its market data is missing")
    ck.same("value", nm, ck.where(p), s.E.snap(s.state, s.final(out)), vecof(mapseg(n, v, J)), conj(sh, neg(bad)), "wrong value")
    ck.count("instrument kinds")


def units(ck):
    for nm in ("Currency", "CreditEntity"):
        valued(ck, nm, lambda me, cx, ds, d: (FALSE, FALSE, ONE))


def equity(ck):
    def spec(me, cx, ds, d):
        n = length(ds)
        one = apply(lambda x: lit(T("cmp0", sub(x, ONE)), "E"), n)
        now = apply(lambda a, b: lit(T("cmp0", sub(a, b)), "E"), fld(idx(ds, ZERO), "date"), call("PricingContext::spot_date", cx))
        spot = conj(one, now)
        none_ = apply(lambda x: lit(T("cmp0", x), "E"), n)
        sp = call("PricingContext::spot", cx, F_(me, "id"))
        fc = call("PricingContext::forward_curve", cx, me, fld(idx(ds, n - ONE), "date"))
        f = call("Forward::forward", okv(fc), fld(d, "date"))
        return (ite(none_, FALSE, ite(spot, neg(isok(sp)), neg(isok(fc)))), ite(spot, FALSE, neg(isok(f))), ite(spot, okv(sp), okv(f)))
    valued(ck, "Equity", spec)


def bond(ck):
    def spec(me, cx, ds, d):
        yc = call("PricingContext::yield_curve", cx, F_(me, "credit_id"), F_(me, "payment_date"))
        df = call("RateCurve::df", okv(yc), F_(me, "payment_date"), call("DateRule::apply", F_(me, "settlement"), fld(d, "date")))
        live = apply(lambda a, b: neg(lt(b, a)), d, F_(me, "ex_date"))
        return (neg(isok(yc)), conj(live, neg(isok(df))), ite(live, okv(df), ZERO))
    valued(ck, "ZeroCoupon", spec)


def only_df(t):
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] in BLACK[:2]:
            m[x] = x.args[1][1]
    return subst(t, m) if m else t


def options(ck):
    """an option is discounted once, from settlement of the valuation date to its payment date"""
    for nm, p, s, A, out, ds in c35.kinds(ck):
        ok = conj(isok(s.E.snap(s.state, s.ret)), conj(s.cond, c35.shape(out, ds)))
        ck.same("discount", nm, ck.where(p), only_df(s.E.snap(s.state, s.final(out))), only_df(vecof(mapseg(A.n, A.value, A.j))), ok,
                "the discount factor is not that from settlement to payment")
