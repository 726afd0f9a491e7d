"""Decorated volatility surfaces.  Every decorator's volatilities are summarised for any base
surface, date and list of strikes and compared with the bump it documents; everything else it
answers is compared with the answer of its base."""
from terms import *
from common import *
from volspec import *

FLOOR = 12
VS = "VolSurface"


def run(ck):
    ck.part(bumps)
    ck.part(evolutions)
    ck.part(sticky)
    ck.part(passed_on)
    ck.part(applied)
    ck.part(dynamics)
    ck.part(forwards)


def vols(me, d, ks):
    return call(VOL, F_(me, "base_vol"), d, ks)


def vol(me, d, ks):
    return at_(VOL, F_(me, "base_vol"), d, idx(ks, J))


def bumps(ck):
    def flat(me, d, ks, out):
        return bind(vols(me, d, ks), Ok), floor0(vol(me, d, ks) + F_(me, "bump"))
    filled(ck, "bump", "parallel", method(ck, "ParallelBumpVol", VS, "volatilities"), flat, msg="not the base volatility plus the bump, floored at zero")

    def scaled(me, d, ks, out):
        r = vols(me, d, ks)
        f = F_(me, "vol_time_floor")
        t = apply(lambda a, b: ite(lt(a, b), b, a), okv(r), f)
        return bind(r, Ok), floor0(vol(me, d, ks) + apply(lambda x, b: b / call("sqrt", x), t, F_(me, "bump")))
    pos = lambda me, d, ks, out: lit(T("cmp0", F_(me, "vol_time_floor")), "G")
    filled(ck, "bump", "time scaled", method(ck, "TimeScaledBumpVol", VS, "volatilities"), scaled, cond=pos,
           msg="not the base volatility plus the bump over the root of the time, floored at zero")


def evolutions(ck):
    def const(me, d, ks, out):
        return bind(vols(me, d, ks), lambda t: Ok(floor0(t - F_(me, "vol_time_offset")))), vol(me, d, ks)
    filled(ck, "evolution", "constant expiry", method(ck, "ConstantExpiryTimeEvolution", VS, "volatilities"), const,
           msg="not the volatilities of its base with the elapsed time taken off")

    def rolled(me, d, ks, out):
        cal = call("VolSurface::calendar", F_(me, "base_vol"))
        o = num(-1) * F_(me, "vol_time_offset") * call("Calendar::standard_basis", cal)
        step = lambda b: call("Calendar::step_partial", cal, fld(d, "date"), o, b)
        day = apply(lambda x: ite(lit(T("cmp0", x), "L"), step(FALSE), step(TRUE)), o)
        d2 = struct(ck, "DateDayFraction", date=day, day_fraction=fld(d, "day_fraction"))
        if d2 is None:
            return None, None
        return bind(vols(me, d2, ks), lambda t: Ok(floor0(t))), vol(me, d2, ks)
    filled(ck, "evolution", "rolling expiry", method(ck, "RollingExpiryTimeEvolution", VS, "volatilities"), rolled,
           msg="not the volatilities of its base at the date rolled back")


def sticky(ck):
    def spec(me, d, ks, out):
        base = F_(me, "base_vol")
        fw = call("VolSurface::forward", base)
        day = fld(d, "date")
        new = call("Forward::forward", F_(me, "bumped_forward"), day)
        old = call("Interpolate::interpolate", fld(fw, "Some.0"), day)
        ratio = okv(old) / okv(new)
        moved = vecof(mapseg(length(ks), idx(ks, J) * ratio, J))
        none = apply(lambda n: lit(T("cmp0", n), "E"), length(ks))
        plain = disj(none, isvar(fw, OPT, "None"))
        r = ite(plain, bind(vols(me, d, ks), Ok), bind(new, lambda _: bind(old, lambda _: bind(vols(me, d, moved), Ok))))
        return r, ite(plain, vol(me, d, ks), at_(VOL, base, d, idx(ks, J) * ratio))
    pos = lambda me, d, ks, out: lit(T("cmp0", okv(call("Forward::forward", F_(me, "bumped_forward"), fld(d, "date")))), "G")
    p = method(ck, "StickyDeltaBumpVol", VS, "volatilities")
    filled(ck, "sticky", "volatilities", p, spec, cond=pos, msg="strikes are not moved by the ratio of the forwards")
    expect(ck, "sticky", "displacement", method(ck, "StickyDeltaBumpVol", VS, "displacement"), lambda me, d: displaced(
        ck, call("VolSurface::div_assumptions", F_(me, "base_vol")), call("Forward::fixed_divs_after", F_(me, "bumped_forward"), d)),
        msg="not the displacement on the moved forward")
    expect(ck, "sticky", "forward", method(ck, "StickyDeltaBumpVol", VS, "forward"), lambda me: Some(F_(me, "bumped_forward")),
           msg="not the moved forward")


def displaced(ck, a, fixed):
    return ite(isv(ck, a, "DivAssumptions", "FixedDivs"), fixed, ite(isv(ck, a, "DivAssumptions", "JumpDivs"), ANYERR, Ok(ZERO)))


OWN = {"ConstantExpiryTimeEvolution": {"base_date": "base_date"}, "RollingExpiryTimeEvolution": {"base_date": "base_date"},
       "StickyDeltaBumpVol": {"forward": None, "displacement": None}, "ParallelBumpVol": {}, "TimeScaledBumpVol": {}}


def passed_on(ck):
    for ty, own in OWN.items():
        for m in ("calendar", "base_date", "forward", "div_assumptions", "displacement"):
            p = method(ck, ty, VS, m)
            if m in own and own[m] is None:
                continue
            want = (lambda me, *a: F_(me, own[m])) if m in own else (lambda me, *a: call("VolSurface::" + m, F_(me, "base_vol"), *a))
            expect(ck, "passed on", "%s/%s" % (ty, m), p, want, msg="not what its base answers")
            ck.count("questions passed on")
        # a decorator that answers derived questions itself must do so as the surfaces do
        for m in ("vol_time", "variances", "variance", "forward_variances", "forward_variance", "find_smile_date"):
            p = method(ck, ty, VS, m)
            if p and " as " in p:
                ck.unk("passed on", "%s/%s" % (ty, m), ck.where(p), "a derived question is answered by the decorator itself")
        p = inherent(ck, ty, "new")
        if p:
            fs = fields(ck, ty)
            expect(ck, "built", ty, p, lambda *a: struct(ck, ty, **dict(zip(fs, a))) if len(fs) == len(a) else None, msg="does not hold what it was built from")


def applied(ck):
    p = method(ck, "BumpVol", "Bumper", "apply")
    b = lambda me, f: fld(me, f)

    def want(me, sf):
        flat = struct(ck, "ParallelBumpVol", base_vol=sf, bump=b(me, "FlatAdditive.size"))
        sc = struct(ck, "TimeScaledBumpVol", base_vol=sf, bump=b(me, "TimeScaled.size"), vol_time_floor=b(me, "TimeScaled.floor"))
        rep = struct(ck, "FlatVolSurface", vol=b(me, "Replace.vol"), calendar=call("VolSurface::calendar", sf), base_date=call("VolSurface::base_date", sf))
        if None in (flat, sc, rep):
            return None
        return ite(isv(ck, me, "BumpVol", "FlatAdditive"), flat, ite(isv(ck, me, "BumpVol", "TimeScaled"), sc, rep))
    expect(ck, "applied", "BumpVol", p, want, msg="not the bump that was asked for")


def dynamics(ck):
    """a surface is evolved to the start of the new date by the time elapsed since its own"""
    p = inherent(ck, "VolTimeDynamics", "modify")
    s = summ_or_unk(ck, "dynamics", "time", p, {})
    if s is None:
        return
    me, sf, day = args(s)
    base = call("VolSurface::base_date", sf)
    to = struct(ck, "DateDayFraction", date=day, day_fraction=ZERO)
    if to is None:
        return ck.unk("dynamics", "time", ck.where(p), "the date type has changed")
    yf = call("Calendar::year_fraction", call("VolSurface::calendar", sf), base, to)
    still = apply(lambda a, b: lit(T("cmp0", sub(a, b)), "E"), day, fld(base, "date"))
    ty = lambda t: struct(ck, t, base_vol=sf, vol_time_offset=yf, base_date=to)
    want = ite(still, sf, ite(isv(ck, me, "VolTimeDynamics", "ConstantExpiry"), ty("ConstantExpiryTimeEvolution"), ty("RollingExpiryTimeEvolution")))
    # over days of no business time nothing changes; how small is too small to matter is not part of the rule
    size = apply(lambda x: disj(lit(T("cmp0", x - num("1/1000000")), "G"), lit(T("cmp0", x + num("1/1000000")), "L")), yf)
    ck.same("dynamics", "time", ck.where(p), s.final(sf), want, conj(s.cond, disj(still, size)), "not evolved by the elapsed time to the start of the date")


def forwards(ck):
    """a surface sticks to delta exactly when asked to and the spot it was built on has moved"""
    p = inherent(ck, "VolForwardDynamics", "modify")
    s = summ_or_unk(ck, "dynamics", "forward", p, {})
    if s is None:
        return
    me, sf, fn = args(s)
    old = call("VolSurface::forward", sf)
    new = call("callval", fn)
    day = fld(call("VolSurface::base_date", sf), "date")
    a = call("Forward::forward", okv(new), day)
    b = call("Interpolate::interpolate", fld(old, "Some.0"), day)
    moved = struct(ck, "StickyDeltaBumpVol", base_vol=sf, bumped_forward=okv(new))
    asked = conj(isv(ck, me, "VolForwardDynamics", "StickyDelta"), isvar(old, OPT, "Some"))
    if moved is None:
        return ck.unk("dynamics", "forward", ck.where(p), "the surface that sticks to delta has changed")
    known = conj(asked, conj(isvar(new, RES, "Ok"), conj(isvar(a, RES, "Ok"), isvar(b, RES, "Ok"))))
    diff = okv(a) - okv(b)
    same = apply(lambda x: lit(T("cmp0", x), "E"), diff)
    # how small a move is too small to matter is not part of the rule
    e = okv(b) * num("1/1000000")
    far = conj(apply(lambda x: lit(T("cmp0", x), "G"), okv(b)), apply(lambda x, y: disj(lit(T("cmp0", x - y), "G"), lit(T("cmp0", x + y), "L")), diff, e))
    ck.same("dynamics", "forward", ck.where(p), s.final(sf), ite(conj(known, far), moved, sf), conj(s.cond, disj(neg(known), far)),
            "does not stick to delta exactly when asked to")
