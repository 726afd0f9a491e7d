"""Bumps of raw market data.  The bump of the market-data store is summarised with the
datum-level bump kept opaque; for each kind of bump the required store is the old store
with the entry of that id in that one collection replaced by the bumped old entry (when
there is one) and the result tells whether there was one.  Each datum-level bump is
summarised and compared with its definition.  The layers above report what the market data does."""
from terms import *
from common import *
import c08

FLOOR = 15
KINDS = {"Spot": "spots", "Divs": "dividends", "Borrow": "borrow_curves", "Vol": "vol_surfaces", "Yield": "yield_curves"}


def run(ck):
    ck.part(store)
    ck.part(datum)
    ck.part(ctors)
    for k in KINDS:
        ck.part(layers, k)


def store(ck):
    p = method(ck, "MarketData", "Bumpable", "bump")
    if not p:
        return ck.unk("store", "MarketData::bump")
    s = ck.summary(p, opaque=opq("Bumper::apply"))
    if s is None:
        return ck.unk("store", "MarketData::bump", ck.where(p), "not summarised")
    me, bump, save = args(s)
    w = ck.where(p)
    sd = ck.F.adt_path("SavedData")
    fields = [f["n"] for f in ck.F.adts[ck.F.adt_path("MarketData")]["variants"][0]["fields"]]
    # a save area of the right type, or none
    good = ite(isvar(save, OPT, "None"), TRUE, boolify(T("isa", fld(save, "Some.0"), sd)))
    after = s.final(me)
    for k, coll in KINDS.items():
        c = conj(good, isv(ck, bump, "Bump", k))
        old = T("fld", me, coll)
        key, how = fld(bump, k + ".0"), fld(bump, k + ".1")
        h = has(old, key)
        new = ite(h, put(old, key, call("Bumper::apply", how, at(old, key))), old)
        ck.same("reports", k, w, s.ret, ite(h, Ok(TRUE), Ok(FALSE)), c, "a %s bump reports wrongly whether the datum was changed" % k)
        for f in fields:
            want = new if f == coll else T("fld", me, f)
            ck.same("store", "%s/%s" % (k, f), w, fld(after, f), want, c, "%s bump leaves the wrong content in %s" % (k, f))
    ck.count("bump kinds", len(KINDS))
    # a wrong save area or an unsupported bump is an error and changes nothing
    for f in fields:
        ck.same("store", "refused/%s" % f, w, fld(after, f), T("fld", me, f), neg(good), "a refused bump changes %s" % f)
    ck.same("reports", "refused", w, isvar(s.ret, RES, "Err"), TRUE, neg(good))
    c = isv(ck, bump, "Bump", "SpotDate")
    ck.same("reports", "SpotDate", w, isvar(s.ret, RES, "Err"), TRUE, c)
    ck.same("store", "SpotDate", w, after, me, c)


def layers(ck, kind):
    """the caching layers say whether the datum was there, and bump the market data below in the same way"""
    b = c08.bump_term(ck, kind)
    for ty in ("PricingContextPrefetch", "BlackDiffusion"):
        p = method(ck, ty, "Bumpable", "bump")
        for how in ("", "/saving"):
            sv = c08.save_area(ck, ty, how)
            s = summ_or_unk(ck, "layer", "%s/%s%s" % (ty, kind, how), p, dict(args=[None, b, sv], opaque=c08.OPQ))
            if s is None:
                continue
            me = args(s)[0]
            cx = F_(me, "context")
            after = fld(s.final(me), "context")
            good = conj(s.cond, isok(s.ret))
            if ty == "BlackDiffusion":
                done = boolify(okv(T("call", "Bumpable::bump", (cx, b, Some(F_(fld(sv, "Some.0"), "saved_data")) if how else NONE))))
            else:
                coll, id = F_(cx, KINDS[kind]), P("id")
                done = has(coll, id)
                for f in fields(ck, "MarketData"):
                    want = ite(done, put(coll, id, call("Bumper::apply", P("how"), at(coll, id))), coll) if f == KINDS[kind] else F_(cx, f)
                    ck.same("layer", "%s/%s%s/%s" % (ty, kind, how, f), ck.where(p), fld(after, f), want, good,
                            "a %s bump of the cache leaves the wrong content in %s" % (kind, f))
            ck.same("layer", "%s/%s%s" % (ty, kind, how), ck.where(p), s.ret, ite(done, Ok(TRUE), Ok(FALSE)), good,
                    "a %s bump reports wrongly whether the datum was changed" % kind)


def bumper(ck, ty):
    r = [p for p in ck.F.bodies if ck.F.bodies[p].get("of_trait", "") and "Bumper" in str(ck.F.bodies[p]["of_trait"]) and "::%s as" % ty in p]
    return r[0] if len(r) == 1 else None


def datum(ck):
    p = bumper(ck, "BumpSpot")
    if p:
        s = ck.summary(p)
        me, old = args(s)
        want = ite(isv(ck, me, "BumpSpot", "Relative"), old * (1 + fld(me, "Relative.bump")), fld(me, "Replace.spot"))
        ck.same("datum", "BumpSpot", ck.where(p), s.ret, want)
    else:
        ck.unk("datum", "BumpSpot")
    ck.part(curve_bumps)
    ck.part(vol_bumps)
    ck.part(div_bumps)


def curve_bumps(ck):
    """the bumped curve's rate at every date, in terms of the base curve's"""
    p = bumper(ck, "BumpYield")
    if not p:
        return ck.unk("datum", "BumpYield")
    s = ck.summary(p)
    me, old = args(s)
    date = P("date")
    rt = call("RateCurve::r_and_t", old, date)

    def flat(size):
        return bind(rt, lambda x: Ok(tup(fld(x, "0") + size, fld(x, "1"))))

    def annual(size):
        # exp(rt) - 1 = a t ; the bumped annualised rate is a + size
        return None
    for v, f in (("FlatContinuouslyCompounded", flat), ("FlatAnnualised", annual)):
        if v not in variants(ck, "BumpYield"):
            ck.unk("datum", "BumpYield/" + v)
            continue
        c = isv(ck, me, "BumpYield", v)
        r = restrict(s.ret, c)
        ls = leaves(r)
        size = fld(me, v + ".size")
        if len(ls) != 1 or ls[0].op != "agg":
            ck.unk("datum", "BumpYield/" + v, ck.where(p), "bumped curve is not a new curve object")
            continue
        obj = ls[0]
        m = ck.F.impl_method("crate::data::curves::RateCurve", obj.args[0], "r_and_t")
        if m:
            q = ck.summary(m, args=[obj, date])
            if f(size) is not None:
                ck.same("datum", "BumpYield/%s rate" % v, ck.where(m), q.ret, f(size))
            else:
                # annualised: compounding rate r over t with growth factor; any function of (r,t,size) that is the
                # continuously compounded equivalent of the annualised rate plus size
                r_, t_ = P("r"), P("t")
                got = subst(q.ret, {rt: Ok(tup(r_, t_))})
                want = Ok(tup(call("ln", call("exp", r_) + size), t_))
                ck.same("datum", "BumpYield/%s rate" % v, ck.where(m), got, want)
        b = ck.F.impl_method("crate::data::curves::RateCurve", obj.args[0], "base_date")
        if b:
            q = ck.summary(b, args=[obj])
            ck.same("datum", "BumpYield/%s base date" % v, ck.where(b), q.ret, call("RateCurve::base_date", old))


def vol_bumps(ck):
    p = bumper(ck, "BumpVol")
    if not p:
        return ck.unk("datum", "BumpVol")
    s = ck.summary(p)
    me, old = args(s)
    w = ck.where(p)
    for v, want in (("FlatAdditive", struct(ck, "ParallelBumpVol", base_vol=old, bump=fld(me, "FlatAdditive.size"))),
                    ("TimeScaled", struct(ck, "TimeScaledBumpVol", base_vol=old, bump=fld(me, "TimeScaled.size"), vol_time_floor=fld(me, "TimeScaled.floor"))),
                    ("Replace", struct(ck, "FlatVolSurface", vol=fld(me, "Replace.vol"), calendar=call("VolSurface::calendar", old), base_date=call("VolSurface::base_date", old)))):
        if want is None or v not in variants(ck, "BumpVol"):
            ck.unk("datum", "BumpVol/" + v)
            continue
        ck.same("datum", "BumpVol/" + v, w, s.ret, want, isv(ck, me, "BumpVol", v))


def div_bumps(ck):
    p = bumper(ck, "BumpDivs")
    if not p:
        return ck.unk("datum", "BumpDivs")
    s = ck.summary(p)
    me, old = args(s)
    w = ck.where(p)
    k = 1 + fld(me, "BumpAllRelative.size")
    r = s.ret
    ds = T("fld", old, "dividends")
    i = T("ix", "any")
    n = length(ds)
    e, g = idx(ds, i), idx(fld(r, "dividends"), i)
    dv = ck.F.adt_path("Dividend")
    if dv is None:
        return ck.unk("datum", "BumpDivs")
    ck.same("datum", "BumpDivs/count", w, length(fld(r, "dividends")), n)
    for f in [x["n"] for x in ck.F.adts[dv]["variants"][0]["fields"]]:
        want = fld(e, f) * k if f in ("cash", "relative") else fld(e, f)
        ck.same("datum", "BumpDivs/" + f, w, fld(g, f), want)
    ck.same("datum", "BumpDivs/last ex date", w, fld(r, "last_cash_ex_date"), T("fld", old, "last_cash_ex_date"))
    y = fld(r, "div_yield")
    date = P("date")
    base = T("fld", old, "div_yield")
    if y.op == "agg":
        m = ck.F.impl_method("crate::data::curves::RateCurve", y.args[0], "r_and_t")
        q = ck.summary(m, args=[y, date])
        ck.same("datum", "BumpDivs/yield", ck.where(m), q.ret,
                bind(call("RateCurve::r_and_t", base, date), lambda x: Ok(tup(fld(x, "0") * k, fld(x, "1")))))
    else:
        ck.unk("datum", "BumpDivs/yield", w)


CTORS = {"new_spot": "Spot", "new_divs": "Divs", "new_borrow": "Borrow", "new_vol": "Vol", "new_yield": "Yield", "new_spot_date": "SpotDate"}
SIZES = {"BumpSpot": {"new_relative": ("Relative", ["bump"]), "new_replace": ("Replace", ["spot"])},
         "BumpVol": {"new_flat_additive": ("FlatAdditive", ["size"]), "new_time_scaled": ("TimeScaled", ["size", "floor"]), "new_replace": ("Replace", ["vol"])},
         "BumpYield": {"new_flat_annualised": ("FlatAnnualised", ["size"]), "new_flat_continuously_compounded": ("FlatContinuouslyCompounded", ["size"])},
         "BumpDivs": {"new_all_relative": ("BumpAllRelative", ["size"])}}


def ctors(ck):
    b = ck.F.adt_path("Bump")
    for m, v in CTORS.items():
        p = inherent(ck, "Bump", m)
        if not p or v not in variants(ck, "Bump"):
            ck.unk("ctor", "Bump::" + m)
            continue
        s = ck.summary(p)
        a = args(s)
        ck.same("ctor", "Bump::" + m, ck.where(p), s.ret, T("agg", b, v, tuple(("%s.%d" % (v, i), x) for i, x in enumerate(a))))
    for t, ms in SIZES.items():
        for m, (v, fs) in ms.items():
            p = inherent(ck, t, m)
            if not p or v not in variants(ck, t):
                ck.unk("ctor", "%s::%s" % (t, m))
                continue
            s = ck.summary(p)
            a = args(s)
            ck.same("ctor", "%s::%s" % (t, m), ck.where(p), s.ret, T("agg", ck.F.adt_path(t), v, tuple(("%s.%s" % (v, f), x) for f, x in zip(fs, a))))
