"""Required values shared by the option rules."""
from terms import *
from common import *

BLACK = ("Black76::call_price", "Black76::put_price", "Black76::new")
PR = "Priceable::prices"


def pos(x):
    return apply(lambda v: ite(lt(ZERO, v), v, ZERO), x)


def anon(ck, t):
    """ids of newly made instruments are free to choose"""
    m = {}
    for x in subterms(t):
        if x.op == "agg" and x.args[0].startswith("crate::instruments"):
            m[x] = T("agg", x.args[0], x.args[1], tuple((n, v) for n, v in x.args[2] if n != "id"))
    return subst(t, m) if m else t


def payment(ck, v):
    """the cash flow an option settles into: its own curve, expiry, payment date and settlement"""
    return struct(ck, "ZeroCoupon", id=T("call", "format", ()), credit_id=fld(v, "credit_id"),
                  currency=call("Instrument::payoff_currency", fld(v, "underlying")), ex_date=fld(v, "expiry"),
                  payment_date=fld(v, "pay_date"), settlement=fld(v, "settlement"))


def is_call(ck, v):
    return isv(ck, fld(v, "put_or_call"), "PutOrCall", "Call")


def items(*xs):
    return T("vec", tuple(("it", x) for x in xs))


def settled(ck, v, strike, fix):
    """what an option with this strike becomes at this fixing"""
    sign = ite(is_call(ck, v), ONE, num(-1))
    pay = apply(lambda a, b: a * b, sign, fix - strike)
    itm = apply(lambda x: lt(ZERO, x), pay)
    cash = isv(ck, fld(v, "cash_or_physical"), "OptionSettlement", "Cash")
    zc = payment(ck, v)
    return ite(itm, ite(cash, items(tup(pay, zc)), items(tup(-(sign * strike), zc), tup(sign, fld(v, "underlying")))), items())


def get(tb, v, when_):
    return call("FixingTable::get", tb, ID(fld(v, "underlying")), when_)


def spot_fixed(ck, v, strike, tb):
    """Ok(None | Some(list)) of a spot-starting option against a fixing table"""
    return bind(get(tb, v, fld(v, "expiry")),
                lambda r: ite(isvar(r, OPT, "None"), Ok(NONE), Ok(Some(settled(ck, v, strike, fld(r, "Some.0"))))))


def at_the_money(strike, r):
    """a fixing exactly at the strike pays nothing either way"""
    x = fld(fld(r, "Ok.0"), "Some.0")
    return apply(lambda d: TRUE if d is ZERO else lit(T("cmp0", d), "E") if d.op != "num" else FALSE, x - strike)


class Analytic(object):
    """required analytic valuation of a vanilla option"""

    def __init__(self, ck, v, cx, dates, strike, fwd, pre, vol_from):
        u = fld(v, "underlying")
        ex = fld(v, "expiry")
        exd = fld(ex, "date")
        j = self.j = T("ix", "date")
        d = idx(dates, j)
        yc = call("PricingContext::yield_curve", cx, call("Instrument::credit_id", u), fld(v, "pay_date"))
        vs = T("call", "PricingContext::vol_surface", (cx, u, exd, T("lam", 0, call("PricingContext::forward_curve", cx, u, exd))))
        pay = call("RateCurve::rt", okv(yc), fld(v, "pay_date"))
        dis = call("VolSurface::displacement", okv(vs), exd)
        bl = call("Black76::new")
        self.f, self.k = fwd - okv(dis), strike - okv(dis)
        rt = call("RateCurve::rt", okv(yc), call("DateRule::apply", fld(v, "settlement"), fld(d, "date")))
        self.df = apply(lambda x: call("exp", x), okv(rt) - okv(pay))
        vd = call("Instrument::time_to_day_fraction", u, d)
        frm = okv(vd) if vol_from is None else maxv(ck, vol_from, okv(vd))
        var = apply(lambda a: call("VolSurface::forward_variance", okv(vs), a, fld(v, "expiry_time"), strike), frm)
        self.var = okv(var)
        sq = apply(lambda x: call("sqrt", x), self.var)
        b = lambda n: apply(lambda q, f, k, df: T("call", "Black76::" + n, (okv(bl), df, f, k, q)), sq, self.f, self.k, self.df)
        live = self.live = apply(lambda a, b: neg(lt(b, a)), d, ex)
        self.value = ite(live, ite(is_call(ck, v), b("call_price"), b("put_price")), ZERO)
        negs = lambda x: apply(lambda y: lt(y, ZERO), x)
        each = conj(live, disj(neg(isok(rt)), disj(neg(isok(vd)), disj(neg(isok(var)), negs(self.var)))))
        n = length(dates)
        self.bad = pre
        for x in (yc, vs, pay, dis, bl):
            self.bad = disj(self.bad, neg(isok(x)))
        self.bad = disj(self.bad, disj(isvar(call("Instrument::as_priceable", u), OPT, "None"), disj(negs(self.f), negs(self.k))))
        self.bad = disj(self.bad, mk_any(n, each, j))
        self.n = n


def maxv(ck, a, b):
    return apply(lambda x, y: ite(lt(x, y), y, x), a, b)
