"""Variances.  The methods every surface inherits are summarised for any surface, dates and
list of strikes and compared with the required variances and failures; the constructor of the
interpolated surfaces must refuse total variance that falls, and between pillars they must
refuse it for every strike asked."""
from terms import *
from common import *
from volspec import *

FLOOR = 5
VS = "VolSurface"


def run(ck):
    ck.part(variances)
    ck.part(single)
    ck.part(forward)
    ck.part(smile_date)
    ck.part(overridden)
    ck.part(built)


def default(ck, m):
    t = ck.F.trait_path(VS)
    p = "%s::%s" % (t, m) if t else None
    return p if p in ck.F.bodies else None


def variances(ck):
    def spec(me, d, ks, out):
        r = call(VOL, me, d, ks)
        v = at_(VOL, me, d, idx(ks, J))
        return bind(r, lambda t: Ok(UNIT)), okv(r) * v * v
    filled(ck, "variance", "variances", default(ck, "variances"), spec, msg="not volatility squared times time")
    ck.count("derived methods")


def one(x):
    return T("vec", (("it", x),))


def single(ck):
    """one variance is the only entry of a list of one"""
    expect(ck, "variance", "variance", default(ck, "variance"), lambda me, d, k: bind(call(VAR, me, d, one(k)), lambda _: Ok(at_(VAR, me, d, k))),
           contract=contract, msg="not the variance at its strike")
    expect(ck, "forward", "forward_variance", default(ck, "forward_variance"),
           lambda me, d, e, k: bind(call(FVAR, me, d, e, one(k)), lambda _: Ok(at_(FVAR, me, d, e, k))), contract=contract, msg="not the forward variance at its strike")
    expect(ck, "variance", "vol_time", default(ck, "vol_time"), lambda me, d: bind(call(VOL, me, d, T("vec", ())), Ok), contract=contract,
           msg="not the time of the volatilities")


def forward(ck):
    def spec(me, d, e, ks, out):
        now = apply(lambda a, b: neg(lt(b, a)), d, call("VolSurface::base_date", me))
        k = idx(ks, J)
        n = length(ks)
        all_ = lambda x: call(VAR, me, x, ks)
        # no forward: later less earlier, strike by strike
        v1, v2 = at_(VAR, me, d, k), at_(VAR, me, e, k)
        down = mk_any(n, apply(lambda a, b: lt(a, b), v2, v1), J)
        plain = bind(all_(d), lambda _: bind(all_(e), lambda _: ite(down, ANYERR, Ok(UNIT))))
        # with a forward: at the money growth, with the smile of as long a period from the start
        fw = fld(call("VolSurface::forward", me), "Some.0")
        f = lambda x: call("Interpolate::interpolate", fw, fld(x, "date"))
        sd = call("VolSurface::find_smile_date", me, d, e)
        w = lambda x: at_(VAR, me, x, okv(f(x)))
        atm = w(e) - w(d)
        fv = at_(VAR, me, sd, k) - w(sd) + atm
        neg_ = lambda x: apply(lambda y: lit(T("cmp0", y), "L"), x)
        lone = lambda x: call(VAR, me, x, one(okv(f(x))))
        smile = binds([f(d), f(e), lone(d), lone(e)], lambda *_: ite(neg_(atm), ANYERR, binds([f(sd), lone(sd), all_(sd)], lambda *_: ite(
            mk_any(n, neg_(fv), J), ANYERR, Ok(UNIT)))))
        none = isvar(call("VolSurface::forward", me), OPT, "None")
        return ite(now, bind(all_(e), Ok), ite(none, plain, smile)), ite(now, v2, ite(none, v2 - v1, fv))
    filled(ck, "forward", "forward_variances", default(ck, "forward_variances"), spec, opaque=opq("VolSurface::find_smile_date"),
           msg="not later less earlier variance with a negative one refused")
    ck.count("derived methods")


def smile_date(ck):
    def want(me, d, e):
        cal = call("VolSurface::calendar", me)
        days = call("Calendar::count_business_days", cal, fld(d, "date"), fld(d, "day_fraction"), fld(e, "date"), fld(e, "day_fraction"))
        return struct(ck, "DateDayFraction", date=call("Calendar::step_partial", cal, fld(call("VolSurface::base_date", me), "date"), days, TRUE),
                      day_fraction=fld(e, "day_fraction"))
    expect(ck, "forward", "find_smile_date", default(ck, "find_smile_date"), want, msg="not as long after the base date as between the dates")


def overridden(ck):
    """a surface that answers a derived question itself is outside what is compared here"""
    t = ck.F.trait_path(VS)
    for im in ck.F.impl_index.get(t, []):
        for m, p in im["items"]:
            if m in ("variances", "variance", "forward_variances", "forward_variance", "vol_time", "find_smile_date") and p in ck.F.bodies:
                ck.unk("derived", p, ck.where(p), "a derived question is answered by the surface itself")
        ck.count("surfaces")


OPQ = dict(opaque=opq("Interpolate::interpolate"), contract=contract)


def built(ck):
    p = inherent(ck, "VolByProbability", "new")

    def want(inp):
        sm = F_(inp, "smiles")
        i = T("ix", "pillar")
        n = length(sm)

        def at_pillar(ix):
            d, s = fld(idx(sm, ix), "0"), fld(idx(sm, ix), "1")
            f = call("Interpolate::interpolate", F_(inp, "forward"), fld(d, "date"))
            t = call("Calendar::year_fraction", F_(inp, "calendar"), F_(inp, "base_date"), d)
            r = call(SMILE, s, one(okv(f)))
            v = at_(SMILE, s, okv(f))
            return f, r, t, t * v * v
        f, r, t, var = at_pillar(i)
        prev = ite(lit(T("cmp0", i), "E"), ZERO, at_pillar(i - ONE)[3])
        falls = apply(lambda a, b: lt(a, b), var, prev)
        bad = mk_any(n, disj(neg(isok(f)), disj(neg(isok(r)), falls)), i)
        none = apply(lambda x: lit(T("cmp0", x), "E"), n)
        seq_ = lambda x: vecof(mapseg(n, x, i))
        v = struct(ck, "VolByProbability", input=inp, pillar_forwards=seq_(okv(f)), pillar_sqrt_variances=seq_(call("sqrt", var)), pillar_vol_times=seq_(t))
        if v is None:
            return None
        return ite(disj(none, bad), ANYERR, Ok(v))
    expect(ck, "built", "VolByProbability::new", p, want, msg="a surface is built although its variance falls, or not from its own pillars", **OPQ)
