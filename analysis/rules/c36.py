"""Analytic option values.  The values and failures of analytic valuation of every option
kind, for any dates, are compared with Black's formula on the required forward, strike,
discount factor and variance; the formula itself with its closed form."""
from terms import *
from common import *
from optspec import *
import c35

FLOOR = 3


def run(ck):
    ck.part(values)
    ck.part(formula)
    ck.part(terms_)
    ck.part(single)


def values(ck):
    for nm, p, s, A, out, ds in c35.kinds(ck):
        sh = conj(s.cond, c35.shape(out, ds))
        r = s.E.snap(s.state, s.ret)
        want = vecof(mapseg(A.n, A.value, A.j))
        ck.same("option", nm, ck.where(p), s.E.snap(s.state, s.final(out)), want, conj(isok(r), sh), "not Black's formula on its own terms")
        some = apply(lambda x: lit(T("cmp0", x), "G"), A.n)
        ck.same("option", nm + "/result", ck.where(p), r, ite(A.bad, ANYERR, Ok(UNIT)), conj(sh, some),
                "does not fail exactly when the market data or the variance is unusable")
        ck.count("option kinds")


def formula(ck):
    for nm, sg in (("call_price", 1), ("put_price", -1)):
        p = inherent(ck, "Black76", nm)

        def want(me, df, f, k, sd, sg=sg):
            d0 = call("ln", f / k)
            d1 = d0 / sd + sd * num(0.5)
            d2 = d1 - sd
            N = lambda x: T("call", "Univariate::cdf", (F_(me, "normal"), x))
            return df * (f * N(d1) - k * N(d2)) if sg > 0 else df * (k * N(-d2) - f * N(-d1))
        s = summ_or_unk(ck, "formula", nm, p, {})
        if s is None:
            continue
        a = args(s)
        pos_ = conj(apply(lambda x: lt(ZERO, x), a[2]), conj(apply(lambda x: lt(ZERO, x), a[3]), apply(lambda x: lt(ZERO, x), a[4])))
        ck.same("formula", nm, ck.where(p), s.E.snap(s.state, s.ret), want(*a), conj(s.cond, pos_), "not Black's formula")


def terms_(ck):
    """an option is made of the terms given; its payment follows its own settlement, its times the underlying's"""
    frac = lambda u, d: call("Instrument::time_to_day_fraction", u, d)

    def vanilla(id, credit, u, rule, expiry, pc, cp, f):
        return bind(frac(u, expiry), lambda t: f(struct(ck, "VanillaOption", id=id, credit_id=credit, underlying=u, settlement=rule, expiry=expiry, put_or_call=pc, cash_or_physical=cp,
                                                        expiry_time=t, pay_date=call("DateRule::apply", rule, fld(expiry, "date")))))

    def spot(id, credit, u, rule, expiry, strike, pc, cp):
        return ite(lt(strike, ZERO), ANYERR, vanilla(id, credit, u, rule, expiry, pc, cp, lambda v: Ok(struct(ck, "SpotStartingEuropean", vanilla=v, strike=strike))))

    def fwd(id, credit, u, rule, expiry, f, start, pc, cp):
        made = lambda t: vanilla(id, credit, u, rule, expiry, pc, cp, lambda v: Ok(struct(ck, "ForwardStartingEuropean", vanilla=v, strike_fraction=f, strike_date=start, strike_time=t)))
        return ite(lt(ZERO, f), bind(frac(u, start), made), ANYERR)
    for nm, want in (("SpotStartingEuropean", spot), ("ForwardStartingEuropean", fwd)):
        p = inherent(ck, nm, "new")
        s = summ_or_unk(ck, "terms", nm, p, {})
        if s is None:
            continue
        if struct(ck, "VanillaOption", id=ONE, credit_id=ONE, underlying=ONE, settlement=ONE, expiry=ONE, put_or_call=ONE, cash_or_physical=ONE, expiry_time=ONE, pay_date=ONE) is None or len(args(s)) != want.__code__.co_argcount:
            ck.unk("terms", nm, ck.where(p), "an option has other terms")
            continue
        w = want(*args(s))
        if any(x is None for x in subterms(w)):
            ck.unk("terms", nm, ck.where(p), "an option has other terms")
            continue
        ck.same("terms", nm, ck.where(p), s.ret, w, s.cond, "not made of the terms given")


def single(ck):
    """the value on one date is the value valuation gives for that date alone"""
    ps = [b for b in ck.F.bodies if b.endswith("::Priceable::price")]
    s = summ_or_unk(ck, "one date", "price", (ps or [None])[0], {})
    if s is None:
        return
    me, cx, d = args(s)
    made = [c for c in s.E.events if c[1] == "Priceable::prices"]
    if len(made) != 1 or len(made[0][2]) < 3:
        return ck.unk("one date", "price", ck.where(ps[0]), "not valued through the values on dates")
    a = made[0][2]
    r = s.E.snap(s.state, s.ret)
    ck.same("one date", "price/dates", ck.where(ps[0]), a[2], T("vec", (("it", d),)), s.cond, "other dates are asked for")
    out = T("mut", "Priceable::prices", 0, tuple(a))
    if out not in set(subterms(r)):
        return ck.unk("one date", "price", ck.where(ps[0]), "not valued through the values on dates")
    ck.same("one date", "price", ck.where(ps[0]), r, bind(call("Priceable::prices", *a), lambda _: Ok(idx(out, ZERO))), s.cond, "not the value on that date")
