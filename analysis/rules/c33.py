"""Rates and discount factors.  Rate and time of every curve kind, discount factors and bumped
curves are summarised for any dates and compared with the rule each documents."""
from terms import *
from common import *

FLOOR = 4
RC = "RateCurve"
RT = "RateCurve::r_and_t"


def run(ck):
    ck.part(factors)
    ck.part(plain)
    ck.part(bumped)
    ck.part(built)


def impls(ck):
    t = ck.F.trait_path(RC)
    out = []
    for im in ck.F.impl_index.get(t, []):
        ty = ck.F.types[im["self"]]
        if ty.get("path") in ck.F.adts:
            out.append(ty["path"])
    return sorted(set(out))


def product(ck, t, d):
    """rate times time of any curve"""
    return bind(call(RT, t, d), lambda x: Ok(fld(x, "0") * fld(x, "1")))


def relayed(t, d):
    x = call(RT, t, d)
    return ite(isok(x), Ok(fld(okv(x), "0") * fld(okv(x), "1")), Err(fld(x, "Err.0")))


def factors(ck):
    t = ck.F.trait_path(RC)
    seen = set()
    for ty in impls(ck) + [None]:
        for m in ("rt", "df"):
            p = ck.F.impl_method(t, ty, m) if ty else "%s::%s" % (t, m)
            if p in seen:
                continue
            seen.add(p)
            if p not in ck.F.bodies:
                ck.unk("factor", m, "", "no such function")
                continue
            inst = m if ty is None or p.startswith(t) else "%s/%s" % (ty.split("::")[-1], m)
            kw = dict(opaque=opq(RT, "RateCurve::rt"), contract=lambda n, j, a: relayed(*a) if n == "RateCurve::rt" and j is None else None)
            if m == "rt":
                expect(ck, "factor", inst, p, lambda me, d: product(ck, me, d), opaque=opq(RT), msg="not rate times time")
            else:
                # equal dates may be answered without asking the curve
                differ = lambda me, a, b: disj(neg(eq(a, b)), isok(call(RT, me, a)))
                expect(ck, "factor", inst, p, lambda me, a, b: binds([product(ck, me, a), product(ck, me, b)], lambda x, y: Ok(call("exp", y - x))),
                       cond=differ, msg="not the exponential of the difference of rate times time", **kw)
                expect(ck, "factor", inst + " over no time", p, lambda me, a, b: Ok(ONE), cond=lambda me, a, b: conj(eq(a, b), isok(call(RT, me, a))),
                       msg="not one when the dates coincide", **kw)


def years(me, d):
    return (d - fld(me, "base")) / num(365)


def plain(ck):
    expect(ck, "curve", "zero", method(ck, "ZeroRateCurve", RC, "r_and_t"), lambda me, d: Ok(tup(ZERO, years(me, d))), msg="not a zero rate over the time from its base date")
    expect(ck, "curve", "zero/is_zero", method(ck, "ZeroRateCurve", RC, "is_zero"), lambda me: TRUE, msg="denies being zero")
    later = lambda me, d: neg(eq(d, fld(me, "base")))
    INT = "Interpolate::interpolate"
    p = method(ck, "RateCurveAct365", RC, "r_and_t")
    expect(ck, "curve", "act/365", p, lambda me, d: bind(call(INT, fld(me, "interp"), d), lambda r: Ok(tup(r, years(me, d)))), cond=later,
           opaque=opq(INT), msg="not the interpolated rate and the time from the base date")
    s = summ_or_unk(ck, "curve", "act/365 today", p, dict(opaque=opq(INT)))
    if s is not None:
        me, d = args(s)
        v = s.E.snap(s.state, s.ret)
        ck.same("curve", "act/365 on the base date", ck.where(p), fld(okv(v), "0") * fld(okv(v), "1"), ZERO, conj(s.cond, conj(isok(v), neg(later(me, d)))), "not worth one on its base date")
    for ty in impls(ck):
        n = ty.split("::")[-1]
        if n in ("ZeroRateCurve", "RateCurveAct365"):
            expect(ck, "curve", n + "/base date", method(ck, n, RC, "base_date"), lambda me: fld(me, "base"), msg="not its base date")
        if n != "ZeroRateCurve":
            q = ck.F.impl_method(ck.F.trait_path(RC), ty, "is_zero")
            if q in ck.F.bodies:
                # claiming to be zero would drop the curve from forwards
                expect(ck, "curve", n + "/is_zero", q, lambda me: FALSE, msg="claims to be zero", cond=lambda me: TRUE)


BUMPS = {"AnnualisedFlatBump": lambda me, r: call("ln", call("exp", r) + fld(me, "bump")),
         "ContinuouslyCompoundedFlatBump": lambda me, r: r + fld(me, "bump"),
         "RelativeBump": lambda me, r: r * fld(me, "one_plus_bump")}


def bumped(ck):
    for n, f in BUMPS.items():
        base = lambda me, d: call(RT, fld(me, "curve"), d)
        expect(ck, "bumped", n, method(ck, n, RC, "r_and_t"), lambda me, d: bind(base(me, d), lambda x: Ok(tup(f(me, fld(x, "0")), fld(x, "1")))),
               opaque=opq(RT), msg="not the base curve's rate bumped by its rule over the same time")
        expect(ck, "bumped", n + "/base date", method(ck, n, RC, "base_date"), lambda me: call("RateCurve::base_date", fld(me, "curve")), msg="not the base curve's base date")
        ck.count("bumped curves")


def built(ck):
    expect(ck, "built", "zero", inherent(ck, "ZeroRateCurve", "new"), lambda d: struct(ck, "ZeroRateCurve", base=d), msg="not as asked")
    for n in ("AnnualisedFlatBump", "ContinuouslyCompoundedFlatBump"):
        expect(ck, "built", n, inherent(ck, n, "new"), lambda c, b: struct(ck, n, curve=c, bump=b), msg="not as asked")
    p = inherent(ck, "RelativeBump", "new")
    expect(ck, "built", "RelativeBump", p, lambda c, b: struct(ck, "RelativeBump", curve=c, one_plus_bump=b), msg="not as asked")
    p = inherent(ck, "RateCurveAct365", "new")
    s = summ_or_unk(ck, "built", "act/365", p, dict(opaque=opq("Interpolable::interp_diff")))
    if s is None:
        return
    base, pts, l, r = args(s)
    v = s.E.snap(s.state, s.ret)
    c = conj(s.cond, isok(v))
    o = okv(v)
    for what, got, want in (("base", fld(o, "base"), base), ("points", F_(o, "interp", "points"), pts), ("left", F_(o, "interp", "left"), l), ("right", F_(o, "interp", "right"), r)):
        ck.same("built", "act/365/" + what, ck.where(p), got, want, c, "not as asked")
